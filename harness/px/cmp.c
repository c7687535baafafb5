/* excmp REF CUR: same number of values, each within PX_TOL (relative to the reference) */
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
int main(int c, char **v) {
  char p[4096]; double a, b, tol = atof(getenv("PX_TOL")); int n = 0;
  snprintf(p, sizeof p, "%s/out", v[1]); FILE *f = fopen(p, "r"); snprintf(p, sizeof p, "%s/out", v[2]); FILE *g = fopen(p, "r");
  if (!f || !g) return 2;
  for (;; n++) {
    int x = fscanf(f, "%la", &a), y = fscanf(g, "%la", &b);
    if (x != y) return 3;
    if (x != 1) break;
    if (a == b || (isnan(a) && isnan(b))) continue;
    if (!(fabs(a - b) <= tol * fabs(a))) return 1;
  }
  return n ? 0 : 4;
}
