/* Monitor backend: logs every event it receives, in order, and stores a value derived from the exact one.
 * options: --name=X --salt=N --drop=K (bit mask of the operations it does not implement) --log=PATH
 * Loaded any number of times in a chain: one context per instance, one log for the process. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <math.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <interflop/interflop.h>

typedef struct { uint32_t inst, tid; uint8_t op, type; uint16_t aux; uint32_t pad; uint64_t a, b, c, res; } ev_t;
typedef struct { uint32_t inst; int salt; uint32_t drop; char name[32]; } ctx_t;
enum { ADD, SUB, MUL, DIV, FMA, CAST, CMP, USER, ENTER, EXIT, FINAL, CLI, PREINIT, INIT, ARG };

static ev_t buf[4096]; static int nb, fd = -1, ended; static uint32_t ninst;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static void flush_(void) { if (fd >= 0 && nb) { char *p = (char *)buf; size_t n = nb * sizeof(ev_t); while (n) { ssize_t k = write(fd, p, n); if (k <= 0) _exit(99); p += k; n -= k; } } nb = 0; }
static void put(ctx_t *c, int op, int type, int aux, uint64_t a, uint64_t b, uint64_t cc, uint64_t r) {
  pthread_mutex_lock(&mu);
  if (fd < 0) { const char *p = getenv("VERIF_LOG"); if (p) fd = open(p, O_CREAT | O_WRONLY | O_APPEND, 0644); }
  buf[nb++] = (ev_t){c ? c->inst : 255, (uint32_t)syscall(SYS_gettid), op, type, aux, 0, a, b, cc, r};
  if (nb == 4096 || ended) flush_();
  pthread_mutex_unlock(&mu);
}
static void txt(ctx_t *c, int op, int type, const char *s, int aux) {  /* a string as successive 24-byte pieces */
  size_t n = strlen(s) + 1, o = 0; int k = 0;
  do { uint64_t w[3] = {0}; size_t m = n - o > 24 ? 24 : n - o; memcpy(w, s + o, m); put(c, op, type, aux, w[0], w[1], w[2], k++); o += 24; } while (o < n);
}
__attribute__((destructor)) static void bye(void) { pthread_mutex_lock(&mu); flush_(); ended = 1; pthread_mutex_unlock(&mu); }

static uint64_t uf(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t ud(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
static float tf(float x, int salt) { /* finite, normal and not too small: low bits flipped */
  uint32_t u; memcpy(&u, &x, 4); uint32_t e = u >> 23 & 255; if (e > 30 && e < 250) u ^= salt & 7; memcpy(&x, &u, 4); return x; }
static double td(double x, int salt) { uint64_t u; memcpy(&u, &x, 8); uint64_t e = u >> 52 & 2047; if (e > 60 && e < 2040) u ^= salt & 7; memcpy(&x, &u, 8); return x; }

#define B(N, OP, E) \
  static void N##f(float a, float b, float *c, void *x) { ctx_t *k = x; *c = tf(a E b, k->salt); put(k, OP, 0, 0, uf(a), uf(b), 0, uf(*c)); } \
  static void N##d(double a, double b, double *c, void *x) { ctx_t *k = x; *c = td(a E b, k->salt); put(k, OP, 1, 0, ud(a), ud(b), 0, ud(*c)); }
B(add, ADD, +) B(sub, SUB, -) B(mul, MUL, *) B(div, DIV, /)
static void fmaf_(float a, float b, float c, float *r, void *x) { ctx_t *k = x; *r = tf(fmaf(a, b, c), k->salt); put(k, FMA, 0, 0, uf(a), uf(b), uf(c), uf(*r)); }
static void fmad_(double a, double b, double c, double *r, void *x) { ctx_t *k = x; *r = td(fma(a, b, c), k->salt); put(k, FMA, 1, 0, ud(a), ud(b), ud(c), ud(*r)); }
static void cast(double a, float *r, void *x) { ctx_t *k = x; *r = tf((float)a, k->salt); put(k, CAST, 1, 0, ud(a), 0, 0, uf(*r)); }
static int rel(enum FCMP_PREDICATE p, double a, double b) {
  int un = isnan(a) || isnan(b), bit = un ? 8 : a == b ? 1 : a > b ? 2 : 4; return (p & bit) != 0; }
static void cmpf(enum FCMP_PREDICATE p, float a, float b, int *c, void *x) { ctx_t *k = x; *c = rel(p, a, b) ^ (k->salt >> 3 & 1); put(k, CMP, 0, p, uf(a), uf(b), 0, *c); }
static void cmpd(enum FCMP_PREDICATE p, double a, double b, int *c, void *x) { ctx_t *k = x; *c = rel(p, a, b) ^ (k->salt >> 3 & 1); put(k, CMP, 1, p, ud(a), ud(b), 0, *c); }
static void user(void *x, interflop_call_id id, va_list ap) {
  ctx_t *k = x;
  if (id == INTERFLOP_INEXACT_ID) { enum FTYPES t = va_arg(ap, enum FTYPES); void *v = va_arg(ap, void *); int p = va_arg(ap, int);
    uint64_t o = t == FFLOAT ? uf(*(float *)v) : ud(*(double *)v);
    if (t == FFLOAT) *(float *)v = tf(*(float *)v, k->salt); else *(double *)v = td(*(double *)v, k->salt);
    put(k, USER, t, id, o, (uint64_t)(int64_t)p, 0, t == FFLOAT ? uf(*(float *)v) : ud(*(double *)v)); }
  else put(k, USER, 0, id, (uint64_t)(int64_t)va_arg(ap, int), 0, 0, 0);
}
static void args(void *x, int n, va_list ap) { /* type, name, size, address of each argument */
  for (int i = 0; i < n; i++) {
    int t = va_arg(ap, int); char *nm = va_arg(ap, char *); unsigned sz = va_arg(ap, unsigned); void *v = va_arg(ap, void *); uint64_t q = 0, h = 0;
    if (nm) memcpy(&h, nm, strnlen(nm, 8));
    if (v && sz) memcpy(&q, v, t == FFLOAT || t == FFLOAT_PTR ? 4 : t == FDOUBLE || t == FDOUBLE_PTR ? 8 : 0);
    put(x, ARG, t, i, sz, h, 0, q);
  }
}
static void enter(interflop_function_stack_t *s, void *x, int n, va_list ap) { txt(x, ENTER, n, s->array[s->top]->id, s->top); args(x, n, ap); }
static void leave(interflop_function_stack_t *s, void *x, int n, va_list ap) { txt(x, EXIT, n, s->array[s->top]->id, s->top); args(x, n, ap); }
static void fini(void *x) { put(x, FINAL, 0, 0, 0, 0, 0, 0); }

void interflop_set_handler(const char *n, void *p) {}
const char *interflop_get_backend_name(void) { return "mon"; }
void interflop_pre_init(interflop_panic_t p, File *f, void **c) { ctx_t *k = calloc(1, sizeof *k); k->inst = ninst++; *c = k; put(k, PREINIT, 0, 0, 0, 0, 0, 0); }
void interflop_cli(int argc, char **argv, void *c) {
  ctx_t *k = c;
  for (int i = 0; i < argc; i++) txt(k, CLI, i, argv[i] ? argv[i] : "(null)", argc);
  if (argv[argc]) txt(k, CLI, 255, "argv not terminated", argc);
  for (int i = 1; i < argc; i++) {
    if (!strncmp(argv[i], "--salt=", 7)) k->salt = atoi(argv[i] + 7);
    if (!strncmp(argv[i], "--drop=", 7)) k->drop = strtoul(argv[i] + 7, 0, 0);
  }
}
void interflop_configure(void *a, void *b) {}
struct interflop_backend_interface_t interflop_init(void *c) {
  ctx_t *k = c; put(k, INIT, 0, 0, 0, 0, 0, 0);
#define HAS(op, f) (k->drop >> (op) & 1 ? NULL : (f))
#define HASF(op, f) (k->drop >> ((op) + 16) & 1 ? NULL : HAS(op, f))   /* not for float */
#define HASD(op, f) (k->drop >> ((op) + 24) & 1 ? NULL : HAS(op, f))   /* not for double */
  struct interflop_backend_interface_t i; memset(&i, 0, sizeof i);
  i.interflop_add_float = HASF(ADD, addf); i.interflop_sub_float = HASF(SUB, subf); i.interflop_mul_float = HASF(MUL, mulf); i.interflop_div_float = HASF(DIV, divf);
  i.interflop_add_double = HASD(ADD, addd); i.interflop_sub_double = HASD(SUB, subd); i.interflop_mul_double = HASD(MUL, muld); i.interflop_div_double = HASD(DIV, divd);
  i.interflop_cmp_float = HASF(CMP, cmpf); i.interflop_cmp_double = HASD(CMP, cmpd); i.interflop_cast_double_to_float = HAS(CAST, cast);
  i.interflop_fma_float = HASF(FMA, fmaf_); i.interflop_fma_double = HASD(FMA, fmad_);
  i.interflop_enter_function = HAS(ENTER, enter); i.interflop_exit_function = HAS(EXIT, leave);
  i.interflop_user_call = HAS(USER, user); i.interflop_finalize = HAS(FINAL, fini);
  return i;
}
