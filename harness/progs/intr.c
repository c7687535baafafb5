/* x86 intrinsics; compiled with -march=native */
#include <immintrin.h>
#include <stdio.h>
static __attribute__((noinline)) double hsum(__m256d a) { __m128d l = _mm256_castpd256_pd128(a), h = _mm256_extractf128_pd(a, 1); l = _mm_add_pd(l, h); return _mm_cvtsd_f64(_mm_add_sd(l, _mm_unpackhi_pd(l, l))); }
int main(void) {
  double x[16]; float f[16]; for (int i = 0; i < 16; i++) { x[i] = i * 1.3 - 4; f[i] = i * 0.7f + 0.1f; }
  __m256d s = _mm256_setzero_pd(); for (int i = 0; i < 16; i += 4) s = _mm256_add_pd(s, _mm256_mul_pd(_mm256_loadu_pd(x + i), _mm256_set1_pd(1.1)));
  printf("%a\n", hsum(s)); __m128 q = _mm_div_ps(_mm_loadu_ps(f), _mm_loadu_ps(f + 4)); q = _mm_sub_ps(q, _mm_mul_ps(q, q)); float o[8]; _mm_storeu_ps(o, q); for (int i = 0; i < 4; i++) printf("%a\n", o[i]);
  __m256 w = _mm256_add_ps(_mm256_loadu_ps(f), _mm256_loadu_ps(f + 8)); _mm256_storeu_ps(o, _mm256_sqrt_ps(w)); for (int i = 0; i < 8; i++) printf("%a\n", o[i]);
  printf("%d\n", _mm256_movemask_pd(_mm256_cmp_pd(s, _mm256_set1_pd(3.0), _CMP_LT_OQ)));
  return 0;
}
