/* Another day on another machine, for one process: the clock is SHIM_DAYS off, the host is called SHIM_HOST. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>
static long off(void) { const char *d = getenv("SHIM_DAYS"); return d ? atol(d) * 86400L + 3723 : 0; }
static const char *host(void) { const char *h = getenv("SHIM_HOST"); return h && *h ? h : 0; }
#define REAL(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))
int clock_gettime(clockid_t c, struct timespec *t) { int r = REAL(clock_gettime)(c, t); if (!r && c == CLOCK_REALTIME) t->tv_sec += off(); return r; }
int gettimeofday(struct timeval *restrict t, void *restrict z) { int r = REAL(gettimeofday)(t, z); if (!r && t) t->tv_sec += off(); return r; }
time_t time(time_t *p) { time_t t = REAL(time)(0) + off(); if (p) *p = t; return t; }
int gethostname(char *n, size_t l) { const char *h = host(); if (!h) return REAL(gethostname)(n, l); strncpy(n, h, l); return 0; }
int uname(struct utsname *u) { int r = REAL(uname)(u); const char *h = host(); if (!r && h) strncpy(u->nodename, h, sizeof u->nodename - 1); return r; }
uid_t getuid(void) { return host() ? 4711 : REAL(getuid)(); }
pid_t getpid(void) { return host() ? 77 : REAL(getpid)(); }
