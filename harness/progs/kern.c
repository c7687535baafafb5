/* numeric kernels */
#include <complex.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#define N 23
static double A[N][N], B[N][N], C[N][N]; static float X[4 * N], Y[4 * N];
static void mm(void) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double s = 0; for (int k = 0; k < N; k++) s += A[i][k] * B[k][j]; C[i][j] = s; } }
static float dot(const float *a, const float *b, int n) { float s = 0; for (int i = 0; i < n; i++) s += a[i] * b[i]; return s; }
static void saxpy(float a, const float *restrict x, float *restrict y, int n) { for (int i = 0; i < n; i++) y[i] = a * x[i] + y[i]; }
static double kahan(const double *a, int n) { double s = 0, c = 0; for (int i = 0; i < n; i++) { double y = a[i] - c, t = s + y; c = (t - s) - y; s = t; } return s; }
static void fft(double complex *a, int n) { if (n == 1) return; double complex e[n / 2], o[n / 2]; for (int i = 0; i < n / 2; i++) { e[i] = a[2 * i]; o[i] = a[2 * i + 1]; } fft(e, n / 2); fft(o, n / 2);
  for (int k = 0; k < n / 2; k++) { double complex t = cexp(-2.0 * I * M_PI * k / n) * o[k]; a[k] = e[k] + t; a[k + n / 2] = e[k] - t; } }
static int lu(double m[N][N]) { int sw = 0; for (int k = 0; k < N; k++) { int p = k; for (int i = k + 1; i < N; i++) if (fabs(m[i][k]) > fabs(m[p][k])) p = i; if (p != k) { sw++; for (int j = 0; j < N; j++) { double t = m[k][j]; m[k][j] = m[p][j]; m[p][j] = t; } }
  for (int i = k + 1; i < N; i++) { m[i][k] /= m[k][k]; for (int j = k + 1; j < N; j++) m[i][j] -= m[i][k] * m[k][j]; } } return sw; }
static void stencil(float *restrict o, const float *restrict a, int n) { for (int i = 1; i < n - 1; i++) o[i] = 0.25f * a[i - 1] + 0.5f * a[i] + 0.25f * a[i + 1]; }
static float maxf(const float *a, int n) { float m = a[0]; for (int i = 1; i < n; i++) m = a[i] > m ? a[i] : m; return m; }
static double cond(const double *a, int n) { double s = 0; for (int i = 0; i < n; i++) if (a[i] > 0.25) s += a[i]; else s -= a[i] * 0.5; return s; }
int main(void) {
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { A[i][j] = (i * 31 + j * 17) % 29 / 7.0 - 2; B[i][j] = 1.0 / (i + j + 1); }
  for (int i = 0; i < 4 * N; i++) { X[i] = (i * 13 % 37) / 11.0f; Y[i] = 1.0f / (i + 1); }
  mm(); for (int i = 0; i < N; i += 5) printf("%a\n", C[i][N - 1 - i]);
  printf("%a\n", dot(X, Y, 4 * N)); saxpy(0.3f, X, Y, 4 * N); printf("%a %a\n", Y[0], Y[4 * N - 1]); printf("%a\n", kahan(&A[0][0], N * N));
  double complex z[16]; for (int i = 0; i < 16; i++) z[i] = i * 0.25 + (i % 3) * I; fft(z, 16); for (int i = 0; i < 16; i++) printf("%a %a\n", creal(z[i]), cimag(z[i]));
  printf("%d\n", lu(C)); printf("%a %a\n", C[3][3], C[N - 1][N - 1]);
  float o[4 * N] = {0}; for (int r = 0; r < 5; r++) { stencil(o, X, 4 * N); stencil(X, o, 4 * N); } printf("%a %a %a\n", o[5], X[50], maxf(X, 4 * N)); printf("%a\n", cond(&A[0][0], N * N));
  float complex w = 1.0f + 2.0f * I; for (int i = 0; i < 5; i++) w = w * (0.5f - 0.25f * I) + 1.0f / w; printf("%a %a\n", crealf(w), cimagf(w));
  double *dyn = malloc(100 * sizeof *dyn); for (int i = 0; i < 100; i++) dyn[i] = sqrt(i) * 1.7; double mx = 0; for (int i = 0; i < 100; i++) mx = fmax(mx, dyn[i] - floor(dyn[i])); printf("%a\n", mx); free(dyn);
  float acc = 0; for (int i = 0; i < 1000; i++) acc += 1e-3f; printf("%a\n", acc);
  int h = 0; for (double x = -3; x < 3; x += 0.37) h = h * 3 + (x < 0) + 2 * (x * x > 2); printf("%d\n", h);
  return h & 63;
}
