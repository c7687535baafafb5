/* Stand-ins for ddRun and ddCmp (by program name).  ddRun writes the list of sites in the reference run and
 * the set of perturbed sites otherwise; ddCmp decides with the predicate of the file "pred". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#define MAXN 4096
static int in[MAXN], nin;
static uint64_t fnv(uint64_t h, uint64_t x) { for (int i = 0; i < 8; i++) { h ^= (x >> (8 * i)) & 255; h *= 1099511628211ull; } return h; }
static int run(char *dir) {
  char p[4096], line[1024]; FILE *f, *o;
  const char *gen = getenv("VFC_DDEBUG_GEN"), *inc = getenv("VFC_DDEBUG_INCLUDE");
  const char *base = getenv("DD_PLAN");
  snprintf(p, sizeof p, "%s/log", base); FILE *lg = fopen(p, "a");
  if (gen) {
    fprintf(lg, "GEN %s\n", inc ? "inc" : "-"); fclose(lg);
    /* one file per (pretended) process: sites.0, sites.1, ... */
    for (int k = 0;; k++) {
      snprintf(p, sizeof p, "%s/sites.%d", base, k); f = fopen(p, "r"); if (!f) break;
      char q[4096]; int j = 0;
      for (const char *c = gen; *c; c++) { if (c[0] == '%' && c[1] == 'p') { j += sprintf(q + j, "%d", 1000 + k); c++; } else q[j++] = *c; }
      q[j] = 0; o = fopen(q, "w"); if (!o) return 7;
      while (fgets(line, sizeof line, f)) fputs(line, o);
      fclose(f); fclose(o);
    }
    snprintf(p, sizeof p, "%s/out", dir); o = fopen(p, "w"); fprintf(o, "REF\n"); fclose(o);
    return 0;
  }
  if (!inc || !(f = fopen(inc, "r"))) { fprintf(lg, "NOINC %s\n", dir); fclose(lg); return 6; }
  snprintf(p, sizeof p, "%s/out", dir); o = fopen(p, "w");
  fprintf(lg, "RUN %s", dir);
  while (fgets(line, sizeof line, f)) { unsigned long a = strtoul(line, 0, 16); fprintf(o, "%lu\n", a); fprintf(lg, " %lu", a); }
  fprintf(lg, "\n"); fclose(f); fclose(o); fclose(lg);
  return 0;
}
static int cmpi(const void *a, const void *b) { return *(int *)a - *(int *)b; }
static int has(int x) { return bsearch(&x, in, nin, sizeof in[0], cmpi) != 0; }
static int cmp(char *ref, char *cur) {
  char p[4096], line[4096]; const char *base = getenv("DD_PLAN");
  snprintf(p, sizeof p, "%s/out", ref); FILE *f = fopen(p, "r"); if (!f || !fgets(line, sizeof line, f) || strcmp(line, "REF\n")) return 99;
  fclose(f);
  snprintf(p, sizeof p, "%s/out", cur); f = fopen(p, "r"); if (!f) return 98;
  int isref = 0;
  while (fgets(line, sizeof line, f)) { if (!strcmp(line, "REF\n")) isref = 1; else in[nin++] = atoi(line); }
  fclose(f);
  qsort(in, nin, sizeof in[0], cmpi);
  const char *s = strstr(cur, "dd.run"); int sample = s ? atoi(s + 6) : 0;
  snprintf(p, sizeof p, "%s/pred", base); f = fopen(p, "r"); if (!f) return 97;
  int all; char kind[16]; int q;
  if (fscanf(f, "%15s %d %d\n", kind, &all, &q) != 3) return 96;
  if (isref) return kind[0] == 'r';
  if (kind[0] == 'h') { /* arbitrary predicate: a hash of the set */
    if (nin == 0) return 0;
    if (nin == all) return 1;
    uint64_t h = 14695981039346656037ull; for (int i = 0; i < nin; i++) h = fnv(h, in[i]);
    return (h >> 20) % q == 0;
  }
  if (kind[0] == 'f') { /* arbitrary outcome of each sample */
    if (nin == 0) return 0;
    uint64_t h = 14695981039346656037ull; for (int i = 0; i < nin; i++) h = fnv(h, in[i]);
    return (fnv(h, 100000 + sample) >> 20) % q == 0;
  }
  /* clauses: "need need ... | blocker ...": fails when all needs and no blocker are there, in one sample of q */
  int c = 0;
  while (fgets(line, sizeof line, f)) {
    int ok = 1, neg = 0;
    for (char *t = strtok(line, " \n"); t; t = strtok(0, " \n")) {
      if (*t == '|') { neg = 1; continue; }
      if (has(atoi(t)) == neg) { ok = 0; break; }
    }
    if (ok) { uint64_t h = fnv(fnv(14695981039346656037ull, c), sample); if (q <= 1 || (h >> 20) % q == 0) return 1; }
    c++;
  }
  return 0;
}
int main(int argc, char **argv) {
  const char *b = strrchr(argv[0], '/'); b = b ? b + 1 : argv[0];
  return strcmp(b, "ddRun") == 0 ? run(argv[1]) : cmp(argv[1], argv[2]);
}
