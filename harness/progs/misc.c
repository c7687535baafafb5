/* assorted C: libm, recursion, function pointers, varargs, structs by value, switch, goto, setjmp */
#include <math.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef struct { float x, y; double z; } P;
typedef struct { double m[4]; int k; } M;
static P addp(P a, P b) { P r = {a.x + b.x, a.y - b.y, a.z * b.z}; return r; }
static M scale(M a, double s) { for (int i = 0; i < 4; i++) a.m[i] = a.m[i] * s / (i + 1.5); a.k++; return a; }
static double sum(int n, ...) { va_list ap; va_start(ap, n); double s = 0; for (int i = 0; i < n; i++) s += va_arg(ap, double); va_end(ap); return s; }
static double fr(double x, int n) { return n <= 0 ? x : fr(x * 0.5 + 1.0 / x, n - 1); }
static int cmpd(const void *a, const void *b) { double x = *(const double *)a, y = *(const double *)b; return x < y ? -1 : x > y; }
static jmp_buf jb;
static double poly(const float *c, int n, double x) { double r = 0; while (n--) r = r * x + c[n]; return r; }
static double (*tab[])(double) = {sin, cos, exp, log1p, sqrt, fabs};
double glob = 0.1; static float gf[3] = {1e-30f, 3e30f, 1.5f};
int main(int argc, char **argv) {
  P a = {1.25f, 2.5f, 3.75}, b = {0.1f, 0.2f, 0.3};
  for (int i = 0; i < 5; i++) { a = addp(a, b); b.z = b.z + a.x; printf("%a %a %a\n", a.x, a.y, a.z); }
  M m = {{1, 2, 3, 4}, 0}; for (int i = 0; i < 3; i++) m = scale(m, 1.1 + i); printf("%a %a %d\n", m.m[0], m.m[3], m.k);
  printf("%a\n", sum(4, 0.1, 0.2, 0.3, (double)0.4f));
  printf("%a\n", fr(3.0, 20));
  double v[50]; unsigned s = 12345; for (int i = 0; i < 50; i++) { s = s * 1103515245u + 12345u; v[i] = (double)(int)s / 65536.0 / 3.0; }
  qsort(v, 50, sizeof *v, cmpd); for (int i = 0; i < 50; i += 7) printf("%a\n", v[i]);
  float c[] = {1, 0.5f, 0.25f, -0.125f}; printf("%a\n", poly(c, 4, 0.7));
  for (unsigned i = 0; i < sizeof tab / sizeof *tab; i++) printf("%.13g\n", tab[i](0.5 + i) * 1.5);
  if (setjmp(jb) == 0) { glob = glob + 1.0; longjmp(jb, 1); } else printf("%a\n", glob * 3.0);
  int k = (int)(v[10] / v[20] * 10.0); switch (k & 3) { case 0: glob *= 2; break; case 1: glob /= 3; break; default: glob -= 1; } printf("%d %a\n", k, glob);
  printf("%a %a %a\n", gf[0] * gf[0], gf[1] * gf[1], gf[2] / 0.0f);
  float h = 0; for (float x = 0.0f; x < 1.0f; x += 0.1f) h += x; printf("%a\n", h);
  long double L = 1.0L; for (int i = 0; i < 10; i++) L = L / 3.0L + (long double)glob; printf("%.18Lg\n", L);
  double inf = 1e308; inf = inf * 10; double nan_ = inf - inf; printf("%d %d %d %d\n", inf > 1, nan_ == nan_, !(nan_ < 1), nan_ != nan_);
  unsigned long long u = (unsigned long long)(glob * glob * 1e10); printf("%llu %d %u\n", u, (int)-glob, (unsigned char)(h * 3));
  double q = -0.0; printf("%a %a\n", q + 0.0, q * 1.0); 
  int it = 0; double x = 1; while (fabs(x * x - 2) > 1e-14 && it < 100) { x = (x + 2 / x) / 2; it++; } printf("%a %d\n", x, it);
  goto end; glob = 0;
end:
  printf("%d %s\n", argc, argc > 1 ? argv[1] : "");
  return (int)(fmod(x * 1000.0, 7.0)) + 40;
}
