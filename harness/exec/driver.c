/* driver LIB... < script > events
   Script: lines
     G id srv bare iface          a group: one child process, one server object
     C id cli iface method mode status np, then np parameter lines
     R id op counts nb size...    a raw invocation of the server (sizes of the BI then BO)
     P kind dir size count nobj pre inhex inobjs outhex outobjs lenout
     E                            end of group
   Events: one JSON object per line. */
#define _GNU_SOURCE
#include "hz.h"
#include "object.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#define NOBJ 6
#define POISON 9
#define MAXP 64
enum { M_COPY = 1, M_NULL = 2, M_POISON = 4, M_KEEP = 8, M_SETFAIL = 16 };   /* 16: outputs are set though the call fails */

typedef struct { int id; long refs; } CObj;
static CObj objs[NOBJ + 1];
static int bogus;          /* invocations of harness objects that are not retain or release */

static int32_t obj_invoke(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) {
  CObj *o = h;
  if (ObjectOp_methodID(op) == Object_OP_retain && k == 0) { o->refs++; return 0; }
  if (ObjectOp_methodID(op) == Object_OP_release && k == 0) { o->refs--; return 0; }
  bogus++; return Object_ERROR_INVALID;
}
static int32_t poison_invoke(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) { bogus++; return 0; }
static Object obj(int id) {
  if (id == 0) return Object_NULL;
  if (id == POISON) return (Object){poison_invoke, (void *)0x9};
  return (Object){obj_invoke, &objs[id]};
}
static Object tobj;
static int idof(Object o) {
  if (o.invoke == NULL) return 0;
  if (o.invoke == obj_invoke) return ((CObj *)o.context)->id;
  if (o.invoke == poison_invoke) return POISON;
  if (tobj.invoke && o.invoke == tobj.invoke && o.context == tobj.context) return 7;
  return 8;
}
static void ret1(int id) { if (id > 0 && id <= NOBJ) objs[id].refs++; }
static void rel(Object o) { if (o.invoke == obj_invoke) ((CObj *)o.context)->refs--; else if (o.invoke && o.invoke != poison_invoke) bogus++; }

/* ---- log */
static char lb[1 << 22]; static size_t ln;
static void flush(void) { size_t p = 0; while (p < ln) { ssize_t w = write(1, lb + p, ln - p); if (w <= 0) _exit(3); p += w; } ln = 0; }
static void L(const char *f, ...) { va_list a; va_start(a, f); ln += vsnprintf(lb + ln, sizeof lb - ln, f, a); va_end(a); if (ln > sizeof lb - (1 << 16)) flush(); }
static void Lb(const uint8_t *b, size_t n) { L("["); for (size_t i = 0; i < n; i++) L(i ? ",%d" : "%d", b[i]); L("]"); }

/* ---- guarded memory: the bytes end at an inaccessible page, or at most 7 bytes before it */
typedef struct { uint8_t *map; size_t len, n; uint8_t *p; } G;
static G galloc(size_t n, size_t al) {
  G g; size_t pg = 4096, body = (n + pg - 1) / pg * pg; if (!body) body = pg;
  g.len = body + 2 * pg; g.n = n;
  g.map = mmap(0, g.len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (g.map == MAP_FAILED) _exit(4);
  mprotect(g.map + pg, body, PROT_READ | PROT_WRITE);
  memset(g.map + pg, 0xC9, body);
  g.p = g.map + pg + body - n; g.p -= (uintptr_t)g.p % al;
  return g;
}
static int gok(G *g) {   /* the bytes around are untouched */
  uint8_t *lo = g->map + 4096, *hi = g->map + g->len - 4096;
  for (uint8_t *q = lo; q < g->p; q++) if (*q != 0xC9) return 0;
  for (uint8_t *q = g->p + g->n; q < hi; q++) if (*q != 0xC9) return 0;
  return 1;
}
static void gfree(G *g) { munmap(g->map, g->len); }

/* ---- the current call */
typedef struct { char kind, dir; size_t size, count; int nobj, pre; uint8_t *in; int oin[64]; size_t inn; uint8_t *out; size_t outn; int oout[64]; size_t lenout; } P;
static P ps[MAXP]; static int np, mode, status, cur; static int kept[256], nkept, served;
static int owning;         /* the server's outputs are owning handles even when it fails (C++) */

static void snap(const char *k) { L("\"%s\":[", k); for (int i = 1; i <= NOBJ; i++) L(i > 1 ? ",%ld" : "%ld", objs[i].refs - 1); L("]"); }

int32_t hz_serve(const char *m, HV *v, int n) {
  served++;
  L("{\"c\":%d,\"ev\":\"serve\",\"m\":\"%s\",\"np\":%d,\"v\":[", cur, m, n);
  if (n != np) { L("]}\n"); flush(); return status; }
  for (int i = 0; i < n; i++) {
    P *p = &ps[i]; if (i) L(",");
    if (p->dir == 'i') {
      L("{\"b\":"); Lb(v[i].b, p->kind == 'f' ? p->size : p->kind == 'b' ? v[i].n * p->size : 0);
      L(",\"o\":[");
      for (int k = 0; k < p->nobj; k++) {
        int id = idof(*(Object *)&v[i].o[k]); L(k ? ",%d" : "%d", id);
        if ((mode & M_KEEP) && id > 0 && id <= NOBJ && nkept < 256) { Object_retain(*(Object *)&v[i].o[k]); kept[nkept++] = id; }
      }
      L("],\"n\":%zu}", p->kind == 'b' ? v[i].n : 0);
    } else {
      L("{\"b\":[],\"o\":[],\"n\":%zu}", p->kind == 'b' ? v[i].n : 0);
      if (p->kind == 'f') memcpy(v[i].b, p->out, p->size);
      if (p->kind == 'b') { size_t k = p->lenout <= v[i].n ? p->lenout : v[i].n; if (k) memcpy(v[i].b, p->out, k * p->size); v[i].lenout = k; }
      for (int k = 0; k < p->nobj; k++) {
        Object o = obj(p->oout[k]);
        if (status == 0) { ret1(p->oout[k]); memcpy(&v[i].o[k], &o, sizeof o); }
        else if (mode & M_SETFAIL) { if (owning && p->kind == 'o') ret1(p->oout[k]); memcpy(&v[i].o[k], &o, sizeof o); }
        else memset(&v[i].o[k], 0, sizeof o);
      }
    }
  }
  L("]}\n"); flush();
  return status;
}
static int gone; void hz_gone(void) { gone++; }

/* ---- transport: knows the invocation and nothing else */
static Object inner; static long trefs;
static int32_t t_invoke(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) {
  if (ObjectOp_methodID(op) == Object_OP_retain) { trefs++; return 0; }
  if (ObjectOp_methodID(op) == Object_OP_release) { trefs--; return 0; }
  size_t nbi = ObjectCounts_numBI(k), nbo = ObjectCounts_numBO(k), noi = ObjectCounts_numOI(k), noo = ObjectCounts_numOO(k), t = nbi + nbo + noi + noo;
  L("{\"c\":%d,\"ev\":\"send\",\"op\":%u,\"mod\":%u,\"cnt\":%u,\"cnthi\":%u,\"bi\":[", cur, op & 0xffff, op >> 16, k & 0xffff, k >> 16);
  flush();
  for (size_t i = 0; i < nbi; i++) { if (i) L(","); Lb(a[i].bi.ptr, a[i].bi.size > 20000 ? 20000 : a[i].bi.size); }
  L("],\"bo\":["); for (size_t i = nbi; i < nbi + nbo; i++) L(i > nbi ? ",%zu" : "%zu", a[i].b.size > 100000 ? 100000 : a[i].b.size);
  L("],\"oi\":["); for (size_t i = nbi + nbo; i < nbi + nbo + noi; i++) L(i > nbi + nbo ? ",%d" : "%d", idof(a[i].o));
  L("]}\n"); flush();
  ObjectArg *b = a; G ga, gb[32]; size_t cap[32]; int mem = 1;
  for (size_t i = 0; i < nbo; i++) cap[i] = a[nbi + i].b.size;
  if (mode & M_COPY) {
    ga = galloc(t * sizeof *a, 8); b = (ObjectArg *)ga.p;
    for (size_t i = 0; i < nbi + nbo; i++) {
      size_t n = a[i].b.size; gb[i] = galloc(n, 8); b[i].b.size = n;
      b[i].b.ptr = n == 0 && (mode & M_NULL) ? NULL : gb[i].p;
      if (i < nbi) { if (n) memcpy(gb[i].p, a[i].bi.ptr, n); }
      else memset(gb[i].p, 0xA5, n);
    }
    for (size_t i = 0; i < noi; i++) b[nbi + nbo + i] = a[nbi + nbo + i];
    for (size_t i = 0; i < noo; i++) b[nbi + nbo + noi + i].o = obj((mode & M_POISON) ? POISON : 0);
  }
  int32_t r = Object_invoke(inner, op, b, k);
  L("{\"c\":%d,\"ev\":\"reply\",\"st\":%d,\"bo\":[", cur, r);
  for (size_t i = 0; i < nbo; i++) {
    size_t n = b[nbi + i].b.size; if (n > cap[i]) mem = 0, n = cap[i];
    if (i) L(",");
    if (r == 0) Lb(b[nbi + i].b.ptr, n); else L("[]");
  }
  L("],\"oo\":["); for (size_t i = 0; i < noo; i++) L(i ? ",%d" : "%d", r == 0 ? idof(b[nbi + nbo + noi + i].o) : 0);
  if (mode & M_COPY) {
    for (size_t i = 0; i < nbi + nbo; i++) {
      if (!gok(&gb[i])) mem = 0;
      if (i >= nbi && r == 0) { size_t n = b[i].b.size; if (n > cap[i - nbi]) n = cap[i - nbi]; if (n) memcpy(a[i].b.ptr, gb[i].p, n); a[i].b.size = n; }
      gfree(&gb[i]);
    }
    if (r == 0) for (size_t i = 0; i < noo; i++) a[nbi + nbo + noi + i].o = b[nbi + nbo + noi + i].o;
    if (!gok(&ga)) mem = 0;
    gfree(&ga);
  }
  L("],\"mem\":%d}\n", mem); flush();
  return r;
}

/* ---- libraries */
static const HClient *clis[8]; static const HServer *srvs[8]; static char *names[8]; static int nlib;
static int lib(const char *n) { for (int i = 0; i < nlib; i++) if (!strcmp(names[i], n)) return i; return -1; }

static uint8_t *unhex(const char *s, size_t *n) {
  size_t k = strcmp(s, "-") ? strlen(s) / 2 : 0; uint8_t *b = malloc(k + 1);
  for (size_t i = 0; i < k; i++) { unsigned x; sscanf(s + 2 * i, "%2x", &x); b[i] = x; }
  *n = k; return b;
}
static void objlist(const char *s, int *o) { int i = 0; if (!strcmp(s, "-")) return; while (*s && i < 64) { o[i++] = strtol(s, (char **)&s, 10); if (*s == ',') s++; } }

static void call(const char *cli, const char *iface, const char *method) {
  int l = lib(cli); const HClient *c = clis[l];
  for (; c->iface; c++) if (!strcmp(c->iface, iface) && !strcmp(c->method, method)) break;
  if (!c->iface) { L("{\"c\":%d,\"ev\":\"missing\"}\n", cur); flush(); return; }
  HV v[MAXP]; HObj ov[MAXP][64]; G g[MAXP]; memset(v, 0, sizeof v);
  for (int i = 0; i < np; i++) {
    P *p = &ps[i]; v[i].o = ov[i]; g[i].map = 0;
    if (p->kind == 'f') { v[i].b = malloc(p->size + 1); if (p->dir == 'i') memcpy(v[i].b, p->in, p->size); else memset(v[i].b, 0x5A, p->size); }
    if (p->kind == 'b') {
      v[i].n = p->count; size_t n = p->count * p->size;
      g[i] = galloc(n, 8); v[i].b = g[i].p;
      if (p->dir == 'i') { memcpy(v[i].b, p->in, n); mprotect(g[i].map + 4096, g[i].len - 8192, PROT_READ); }
      else memset(v[i].b, 0x5A, n);
      v[i].lenout = 77777;
    }
    for (int k = 0; k < p->nobj; k++) {
      int id = p->dir == 'i' ? p->oin[k] : p->pre; Object o = obj(id); ret1(id); memcpy(&ov[i][k], &o, sizeof o);
    }
  }
  nkept = 0; trefs = 1; served = 0; bogus = 0;
  L("{\"c\":%d,\"ev\":\"call\"}\n", cur); flush();
  HObj t = *(HObj *)&tobj;
  int32_t r = c->call(t, v);
  L("{\"c\":%d,\"ev\":\"ret\",\"st\":%d,\"v\":[", cur, r);
  int mem = 1;
  for (int i = 0; i < np; i++) {
    P *p = &ps[i]; if (i) L(",");
    L("{\"b\":");
    if (p->dir == 'o' && r == 0) {
      size_t n = p->kind == 'f' ? p->size : 0;
      if (p->kind == 'b') { size_t k = v[i].lenout; n = (k <= p->count ? k : p->count) * p->size; }
      Lb(v[i].b, n);
    } else L("[]");
    L(",\"o\":["); for (int k = 0; k < p->nobj; k++) L(k ? ",%d" : "%d", idof(*(Object *)&ov[i][k]));
    L("],\"n\":%zu}", p->kind == 'b' && p->dir == 'o' ? v[i].lenout : 0);
    if (g[i].map && !gok(&g[i])) mem = 0;
  }
  L("],"); snap("refs"); L(",\"kept\":["); for (int k = 0; k < nkept; k++) L(k ? ",%d" : "%d", kept[k]);
  L("],\"t\":%ld,\"mem\":%d,\"served\":%d,\"bogus\":%d}\n", trefs, mem, served, bogus); flush();
  for (int i = 0; i < np; i++) {
    P *p = &ps[i];
    for (int k = 0; k < p->nobj; k++) rel(*(Object *)&ov[i][k]);
    if (g[i].map) gfree(&g[i]); else free(v[i].b);
  }
  for (int k = 0; k < nkept; k++) objs[kept[k]].refs--;
  L("{\"c\":%d,\"ev\":\"drop\",", cur); snap("refs"); L("}\n"); flush();
}

/* a raw invocation: exactly the argument slots the counts declare, each buffer of
   exactly the size stated, all ending at inaccessible pages */
static void raw(unsigned op, unsigned k, int nb, char **sz, char *hex) {
  size_t nbi = ObjectCounts_numBI(k), nbo = ObjectCounts_numBO(k), noi = ObjectCounts_numOI(k), noo = ObjectCounts_numOO(k), t = nbi + nbo + noi + noo;
  G ga = galloc(t * sizeof(ObjectArg), 8), gb[32]; ObjectArg *a = (ObjectArg *)ga.p;
  for (size_t i = 0; i < nbi + nbo; i++) {
    unsigned long long n = (int)i < nb ? strtoull(sz[i], 0, 10) : 0;
    size_t have = n > 100000 ? 64 : n;            /* a size nobody could have */
    gb[i] = galloc(have, 8); memset(gb[i].p, 0x3C, have);
    a[i].b.ptr = gb[i].p; a[i].b.size = n;
  }
  for (size_t i = 0; i < noi; i++) { int id = 1 + i % NOBJ; a[nbi + nbo + i].o = obj(id); }
  for (size_t i = 0; i < noo; i++) a[nbi + nbo + noi + i].o = Object_NULL;
  served = 0; bogus = 0; nkept = 0;
  L("{\"c\":%d,\"ev\":\"rawcall\"}\n", cur); flush();
  int32_t r = Object_invoke(inner, op, a, k);
  int mem = gok(&ga);
  for (size_t i = 0; i < nbi + nbo; i++) { if (!gok(&gb[i])) mem = 0; gfree(&gb[i]); }
  L("{\"c\":%d,\"ev\":\"raw\",\"st\":%d,\"served\":%d,\"mem\":%d,\"bogus\":%d,\"oo\":[", cur, r, served, mem, bogus);
  for (size_t i = 0; i < noo; i++) L(i ? ",%d" : "%d", idof(a[nbi + nbo + noi + i].o));
  L("],"); snap("refs"); L("}\n"); flush();
  for (size_t i = 0; i < noo; i++) if (r == 0) rel(a[nbi + nbo + noi + i].o);
  gfree(&ga);
}

/* ---- script */
static char *line; static size_t lcap;
static int words(char *s, char **w, int max) { int n = 0; for (char *p = strtok(s, " \n"); p && n < max; p = strtok(0, " \n")) w[n++] = p; return n; }
static char *script; static size_t slen;
static char *next(char **p) { if (!**p) return 0; char *s = *p, *e = strchr(s, '\n'); if (e) { *p = e + 1; } else { *p = s + strlen(s); }
  size_t n = *p - s; if (n + 1 > lcap) { lcap = 2 * n + 16; line = realloc(line, lcap); } memcpy(line, s, n); line[n] = 0; return line; }
static void params(char **p) {
  for (int i = 0; i < np; i++) {
    char *w[16]; words(next(p), w, 16); P *q = &ps[i]; memset(q, 0, sizeof *q);
    q->kind = w[1][0]; q->dir = w[2][0]; q->size = atol(w[3]); q->count = atol(w[4]); q->nobj = atoi(w[5]); q->pre = atoi(w[6]);
    q->in = unhex(w[7], &q->inn); objlist(w[8], q->oin); q->out = unhex(w[9], &q->outn); objlist(w[10], q->oout); q->lenout = atol(w[11]);
  }
}
static void group(char *p, const char *srv, int bare, const char *iface) {
  int l = lib(srv); const HServer *s = srvs[l];
  for (; s->iface; s++) if (!strcmp(s->iface, iface) && s->bare == bare) break;
  if (!s->iface) { L("{\"c\":-1,\"ev\":\"noserver\"}\n"); flush(); return; }
  for (int i = 1; i <= NOBJ; i++) objs[i] = (CObj){i, 1};
  owning = !strncmp(srv, "cpp", 3);
  HObj h = {0, 0}; s->make(&h); memcpy(&inner, &h, sizeof inner);
  tobj = (Object){t_invoke, &tobj};
  for (;;) {
    char *ls = next(&p); char *w[64]; if (!ls || ls[0] == 'E') break;
    char *cp = strdup(ls); int n = words(cp, w, 64);
    cur = atoi(w[1]);
    alarm(20);
    if (w[0][0] == 'C') { mode = atoi(w[5]); status = atoi(w[6]); np = atoi(w[7]); char *a = w[2], *b = w[3], *c = w[4]; params(&p); call(a, b, c); }
    else { mode = 0; status = atoi(w[4]); unsigned op = strtoul(w[2], 0, 10), k = strtoul(w[3], 0, 10); np = atoi(w[5]); int nb = n - 6; char **sz = w + 6; params(&p); raw(op, k, nb, sz, 0); }
    free(cp);
  }
  gone = 0; Object_release(inner);
  L("{\"c\":%d,\"ev\":\"end\",\"gone\":%d}\n", cur, gone); flush();
}

int main(int ac, char **av) {
  struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z);
  for (int i = 1; i < ac; i++) {           /* name=path */
    char *e = strchr(av[i], '='); *e = 0; names[nlib] = av[i];
    void *h = dlopen(e + 1, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    clis[nlib] = dlsym(h, "hz_clients"); srvs[nlib] = dlsym(h, "hz_servers");
    if (!clis[nlib] || !srvs[nlib]) { fprintf(stderr, "no table in %s\n", e + 1); return 2; }
    nlib++;
  }
  size_t cap = 1 << 16; script = malloc(cap); ssize_t r;
  while ((r = read(0, script + slen, cap - slen - 1)) > 0) { slen += r; if (slen + 1 >= cap) script = realloc(script, cap *= 2); }
  script[slen] = 0;
  char *p = script;
  while (*p) {
    char *ls = next(&p); if (ls[0] != 'G') continue;
    char *w[8]; words(ls, w, 8); int id = atoi(w[1]); char *srv = strdup(w[2]), *ifc = strdup(w[4]); int bare = atoi(w[3]);
    pid_t c = fork();
    if (c == 0) { int fd = open("/dev/null", 1); if (fd >= 0) dup2(fd, 2); group(p, srv, bare, ifc); _exit(0); }
    int st; waitpid(c, &st, 0);
    if (WIFSIGNALED(st)) { L("{\"c\":-1,\"ev\":\"crash\",\"g\":%d,\"sig\":%d}\n", id, WTERMSIG(st)); flush(); }
    else if (WEXITSTATUS(st)) { L("{\"c\":-1,\"ev\":\"exit\",\"g\":%d,\"sig\":%d}\n", id, WEXITSTATUS(st)); flush(); }
    free(srv); free(ifc);
    while (*p && strncmp(p, "G ", 2)) { char *e = strchr(p, '\n'); p = e ? e + 1 : p + strlen(p); }
  }
  return 0;
}
