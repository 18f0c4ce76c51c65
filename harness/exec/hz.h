/* What generated glue and the driver share.  The driver knows no IDL: it moves
   byte images and object handles as the script says. */
#ifndef HZ_H
#define HZ_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void *invoke; void *context; } HObj;
/* one parameter: the image b of a fixed-size value, or n elements at b for a
   buffer (output: capacity n, result lenout); o: objects */
typedef struct { uint8_t *b; size_t n; size_t lenout; HObj *o; } HV;
typedef struct { const char *iface, *method; int32_t (*call)(HObj target, HV *v); } HClient;
typedef struct { const char *iface; int bare; void (*make)(HObj *out); } HServer;
int32_t hz_serve(const char *method, HV *v, int np);
void hz_gone(void);
#ifdef __cplusplus
}
#endif
#endif
