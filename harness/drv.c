/* Driver: reads operation records, performs them through the instrumented
 * functions of ops.o, writes the resulting bit patterns.  Not instrumented. */
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <interflop/interflop.h>

typedef struct { uint8_t op, type; uint16_t aux; int32_t iarg; uint64_t a, b, c; } rec_t;

enum { ADD, SUB, MUL, DIV, FMA, CAST, CMP, INEXACT, SETP32, SETP64, SETR32, SETR64, VADD, VSUB, VMUL, VDIV, VCMP };

#define BIN(T, N) T op_##T##_##N(T, T);
BIN(float, add) BIN(float, sub) BIN(float, mul) BIN(float, div)
BIN(double, add) BIN(double, sub) BIN(double, mul) BIN(double, div)
float op_cast(double); float op_float_fma(float, float, float); double op_double_fma(double, double, double);
#define PR(p) int pred_float_##p(float, float); int pred_double_##p(double, double);
PR(false) PR(oeq) PR(ogt) PR(oge) PR(olt) PR(ole) PR(one) PR(ord) PR(ueq) PR(ugt) PR(uge) PR(ult) PR(ule) PR(une) PR(uno) PR(true)
/* order of LLVM's predicate numbering */
static int (*const pf[16])(float, float) = {pred_float_false, pred_float_oeq, pred_float_ogt, pred_float_oge, pred_float_olt, pred_float_ole, pred_float_one, pred_float_ord, pred_float_uno, pred_float_ueq, pred_float_ugt, pred_float_uge, pred_float_ult, pred_float_ule, pred_float_une, pred_float_true};
static int (*const pd[16])(double, double) = {pred_double_false, pred_double_oeq, pred_double_ogt, pred_double_oge, pred_double_olt, pred_double_ole, pred_double_one, pred_double_ord, pred_double_uno, pred_double_ueq, pred_double_ugt, pred_double_uge, pred_double_ult, pred_double_ule, pred_double_une, pred_double_true};
#define V(T, n) void vop_##T##n##_add(void *, void *, void *); void vop_##T##n##_sub(void *, void *, void *); void vop_##T##n##_mul(void *, void *, void *); void vop_##T##n##_div(void *, void *, void *);
V(float, 2) V(float, 4) V(float, 8) V(float, 16) V(double, 2) V(double, 4) V(double, 8) V(double, 16)
#define VT(T, n) {vop_##T##n##_add, vop_##T##n##_sub, vop_##T##n##_mul, vop_##T##n##_div}
static void (*const vf[2][4][4])(void *, void *, void *) = {
  {VT(float, 2), VT(float, 4), VT(float, 8), VT(float, 16)}, {VT(double, 2), VT(double, 4), VT(double, 8), VT(double, 16)}};

/* vector comparisons, order of LLVM's predicate numbering */
#define PV(T, n, p) void predv_##T##n##_##p(void *, void *, void *);
#define PN(M, T, n) M(T, n, false) M(T, n, oeq) M(T, n, ogt) M(T, n, oge) M(T, n, olt) M(T, n, ole) M(T, n, one) M(T, n, ord) M(T, n, uno) M(T, n, ueq) M(T, n, ugt) M(T, n, uge) M(T, n, ult) M(T, n, ule) M(T, n, une) M(T, n, true)
PN(PV, float, 2) PN(PV, float, 4) PN(PV, float, 8) PN(PV, float, 16) PN(PV, double, 2) PN(PV, double, 4) PN(PV, double, 8) PN(PV, double, 16)
#define PA(T, n, p) predv_##T##n##_##p,
static void (*const pv[2][4][16])(void *, void *, void *) = {
  {{PN(PA, float, 2)}, {PN(PA, float, 4)}, {PN(PA, float, 8)}, {PN(PA, float, 16)}},
  {{PN(PA, double, 2)}, {PN(PA, double, 4)}, {PN(PA, double, 8)}, {PN(PA, double, 16)}}};

static inline float F(uint64_t x) { uint32_t u = (uint32_t)x; float f; memcpy(&f, &u, 4); return f; }
static inline double D(uint64_t x) { double f; memcpy(&f, &x, 8); return f; }
static inline uint64_t UF(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline uint64_t UD(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }

#define CANARY 0x3FF5555555555555ull
#define POISON 0xDEADDEADDEADDEADull /* a neighbour of the variable changed */
static uint64_t one(const rec_t *r) {
  if (r->type == 0) {
    float a = F(r->a), b = F(r->b);
    switch (r->op) {
    case ADD: return UF(op_float_add(a, b)); case SUB: return UF(op_float_sub(a, b));
    case MUL: return UF(op_float_mul(a, b)); case DIV: return UF(op_float_div(a, b));
    case FMA: return UF(op_float_fma(a, b, F(r->c)));
    case CMP: return pf[r->aux & 15](a, b);
    case INEXACT: { struct { uint64_t l; float x, h; } v = {CANARY, a, 1.5f}; interflop_call(INTERFLOP_INEXACT_ID, FFLOAT, &v.x, r->iarg); return v.l == CANARY && v.h == 1.5f ? UF(v.x) : POISON; }
    }
  } else {
    double a = D(r->a), b = D(r->b);
    switch (r->op) {
    case ADD: return UD(op_double_add(a, b)); case SUB: return UD(op_double_sub(a, b));
    case MUL: return UD(op_double_mul(a, b)); case DIV: return UD(op_double_div(a, b));
    case FMA: return UD(op_double_fma(a, b, D(r->c)));
    case CAST: return UF(op_cast(a));
    case CMP: return pd[r->aux & 15](a, b);
    case INEXACT: { struct { uint64_t l; double x; uint64_t h; } v = {CANARY, a, CANARY}; interflop_call(INTERFLOP_INEXACT_ID, FDOUBLE, &v.x, r->iarg); return v.l == CANARY && v.h == CANARY ? UD(v.x) : POISON; }
    }
  }
  switch (r->op) {
  case SETP32: interflop_call(INTERFLOP_SET_PRECISION_BINARY32, r->iarg); break;
  case SETP64: interflop_call(INTERFLOP_SET_PRECISION_BINARY64, r->iarg); break;
  case SETR32: interflop_call(INTERFLOP_SET_RANGE_BINARY32, r->iarg); break;
  case SETR64: interflop_call(INTERFLOP_SET_RANGE_BINARY64, r->iarg); break;
  }
  return 0;
}

/* a vector record covers 2<<aux consecutive records (all the same op and type) */
static long vec(const rec_t *r, uint64_t *o) {
  int n = 2 << (r->aux & 3); char A[128] __attribute__((aligned(128))), B[128] __attribute__((aligned(128))), R[128] __attribute__((aligned(128)));
  for (int i = 0; i < n; i++) {
    if (r->type == 0) { float a = F(r[i].a), b = F(r[i].b); memcpy(A + 4 * i, &a, 4); memcpy(B + 4 * i, &b, 4); }
    else { memcpy(A + 8 * i, &r[i].a, 8); memcpy(B + 8 * i, &r[i].b, 8); }
  }
  if (r->op == VCMP) {
    int32_t q[16]; pv[r->type][r->aux & 3][r->aux >> 4](A, B, q);
    for (int i = 0; i < n; i++) o[i] = (uint64_t)(int64_t)q[i];
    return n;
  }
  vf[r->type][r->aux][r->op - VADD](A, B, R);
  for (int i = 0; i < n; i++) {
    if (r->type == 0) { float f; memcpy(&f, R + 4 * i, 4); o[i] = UF(f); } else memcpy(o + i, R + 8 * i, 8);
  }
  return n;
}

static rec_t *recs; static uint64_t *outs; static int yield;
static void range(long lo, long hi) {
  uint32_t z = (uint32_t)lo * 2654435761u + 1;
  for (long i = lo; i < hi;) {
    if (yield) { z = z * 1664525u + 1013904223u; if ((z >> 8) % yield == 0) sched_yield(); }
    if (recs[i].op >= VADD) i += vec(recs + i, outs + i);
    else { outs[i] = one(recs + i); i++; }
  }
}
typedef struct { long lo, hi; pthread_barrier_t *bar; } job_t;
static void *worker(void *p) { job_t *j = p; pthread_barrier_wait(j->bar); range(j->lo, j->hi); return 0; }

/* drv IN OUT [NTHREADS [ROUNDS [YIELD]]]: with NTHREADS>0 the records are cut in NTHREADS*ROUNDS equal
 * contiguous slices, each performed by its own thread, NTHREADS at a time; YIELD>0: the threads give up the
 * processor once every YIELD operations in the mean */
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "rb"); if (!f) return 3;
  fseek(f, 0, SEEK_END); long sz = ftell(f); rewind(f);
  long n = sz / sizeof(rec_t); recs = malloc(sz + 1); outs = calloc(n + 1, 8);
  if (fread(recs, 1, sz, f) != (size_t)sz) return 3;
  fclose(f);
  int nt = argc > 3 ? atoi(argv[3]) : 0;
  if (nt <= 0) range(0, n);
  else {
    int rounds = argc > 4 ? atoi(argv[4]) : 1, ns = nt * rounds;
    yield = argc > 5 ? atoi(argv[5]) : 0;
    pthread_t *th = calloc(nt, sizeof *th); job_t *jobs = calloc(nt, sizeof *jobs);
    long *cut = calloc(ns + 1, sizeof *cut); /* slices never cut a vector */
    for (long i = 0, t = 0; t <= ns; i += (i < n && recs[i].op >= VADD) ? 2 << (recs[i].aux & 3) : 1) {
      while (t <= ns && (i >= n * t / ns || i >= n)) cut[t++] = i < n ? i : n;
    }
    for (int k = 0; k < rounds; k++) {
      pthread_barrier_t bar; pthread_barrier_init(&bar, 0, nt);
      for (int t = 0; t < nt; t++) { jobs[t] = (job_t){cut[k * nt + t], cut[k * nt + t + 1], &bar}; pthread_create(&th[t], 0, worker, &jobs[t]); }
      for (int t = 0; t < nt; t++) pthread_join(th[t], 0);
      pthread_barrier_destroy(&bar);
    }
    free(th); free(jobs); free(cut);
  }
  f = fopen(argv[2], "wb"); if (!f) return 3;
  fwrite(outs, 8, n, f); fclose(f);
  free(recs); free(outs);
  return 0;
}
