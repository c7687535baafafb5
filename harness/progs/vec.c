/* vectors, odd widths, shuffles, masks, half precision, local wide vectors, unions */
#include <stdio.h>
#include <string.h>
typedef float f2 __attribute__((ext_vector_type(2))); typedef float f3 __attribute__((ext_vector_type(3))); typedef float f4 __attribute__((ext_vector_type(4)));
typedef float f8 __attribute__((ext_vector_type(8))); typedef float f16 __attribute__((ext_vector_type(16)));
typedef double d2 __attribute__((ext_vector_type(2))); typedef double d3 __attribute__((ext_vector_type(3))); typedef double d4 __attribute__((ext_vector_type(4)));
typedef double d8 __attribute__((ext_vector_type(8))); typedef double d16 __attribute__((ext_vector_type(16)));
#define PF(v, n) for (int i_ = 0; i_ < n; i_++) printf("%a ", (double)(v)[i_]); printf("\n")
#define T(V, n, E) static __attribute__((noinline)) void t_##V(E *p) { V a, b; memcpy(&a, p, sizeof(E) * n); memcpy(&b, p + 1, sizeof(E) * n); \
  V c = a + b; c = c * a - b; c = c / (a + (E)3.5); c += (E)0.1; PF(c, n); c = -c * (E)2; PF(c, n); V d = a; for (int i = 0; i < 3; i++) d = d * (E)1.1 + c; PF(d, n); memcpy(p, &d, sizeof(E) * n); }
T(f2, 2, float) T(f3, 3, float) T(f4, 4, float) T(f8, 8, float) T(f16, 16, float) T(d2, 2, double) T(d3, 3, double) T(d4, 4, double) T(d8, 8, double) T(d16, 16, double)
static __attribute__((noinline)) void cmps(float *p) {
  f4 a, b; memcpy(&a, p, 16); memcpy(&b, p + 2, 16);
  for (int i = 0; i < 4; i++) printf("%d%d%d%d%d%d ", (a < b)[i], (a <= b)[i], (a > b)[i], (a >= b)[i], (a == b)[i], (a != b)[i]);
  f4 s = (a < b) ? a + b : a - b; PF(s, 4);
  f2 u = a.xy, v = b.zw; for (int i = 0; i < 2; i++) printf("%d%d ", (u < v)[i], (u == u)[i]);
  d2 w = {a.x, b.y}, z = {b.x, a.y}; for (int i = 0; i < 2; i++) printf("%d%d%d\n", (int)(w < z)[i], (int)(w >= z)[i], (int)(w != z)[i]);
  f4 q = a.wzyx * b.xxyy + a.x; PF(q, 4);
  d4 e = __builtin_convertvector(a, d4) * 1.1; PF(e, 4); f4 g = __builtin_convertvector(e, f4) + 1.0f; PF(g, 4);
}
union U { double d; unsigned long long u; float f[2]; };
int main(void) {
  float f[40]; double d[40]; for (int i = 0; i < 40; i++) { f[i] = (i * 7 % 13) - 4.3f; d[i] = (i * 11 % 17) - 5.7; }
  t_f2(f); t_f3(f + 2); t_f4(f + 5); t_f8(f + 8); t_f16(f + 16); t_d2(d); t_d3(d + 2); t_d4(d + 4); t_d8(d + 8); t_d16(d + 16);
  cmps(f); cmps(f + 9); cmps(d == 0 ? 0 : f + 20);
  union U u; u.d = d[3]; u.u ^= 1; u.d = u.d + 1; printf("%a\n", u.d); u.f[1] = u.f[1] * 3; printf("%a\n", (double)u.f[1]);
  _Float16 h = (_Float16)1.5f; h = h * (_Float16)1.1f; printf("%a\n", (double)(float)h);
  d16 big = d[1]; f16 bf = f[1]; for (int i = 0; i < 40000; i++) { big = big * 0.99 + 0.25; bf = bf * 0.5f - 1.0f; } printf("%a %a\n", big[15], (double)bf[3]);
  __fp16 g = 2.5f; g = g / 3; printf("%a\n", (double)g);
  return 0;
}
