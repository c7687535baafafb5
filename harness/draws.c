/* LD_PRELOAD: the random draws of the backends become feasible extreme values (k/2^52 in [0,1)),
 * mixed with uniform ones; VERIF_DRAWS selects the first seed. */
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>
static __thread uint64_t s; static uint64_t base; static int init;
static uint64_t rnd(void) {
  if (!init) { const char *e = getenv("VERIF_DRAWS"); base = e ? strtoull(e, 0, 10) : 1; init = 1; }
  if (!s) s = base * 0x9E3779B97F4A7C15ull + (uintptr_t)&s;
  s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s;
}
double get_rand_double01(void *st, pid_t *g) {
  static const double u = 1.0 / 4503599627370496.0;
  uint64_t r = rnd();
  switch (r % 10) {
  case 0: return 0.0; case 1: return 1.0 - u; case 2: return 0.5; case 3: return 0.5 - u; case 4: return 0.5 + u;
  case 5: return u; case 6: return (double)(1ull << (r >> 8) % 52) * u;
  default: return (double)(r >> 12) * u;
  }
}
uint64_t get_rand_uint64(void *st, pid_t *g) {
  uint64_t r = rnd();
  switch (r % 10) {
  case 0: return 0; case 1: return ~0ull; case 2: return 1ull << 63; case 3: return ~(1ull << 63); case 4: return 1;
  case 5: return 1ull << (r >> 8) % 64; default: return r * 0x2545F4914F6CDD1Dull;
  }
}
