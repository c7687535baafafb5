/* Stand-ins for exrun and excmp (by program name) of vfc_precexp.  exrun writes the profile of the plan when the backend is
 * asked for one, and otherwise keeps the configuration it was given; excmp accepts or rejects it.
 *
 * plan/pred: lines  "min KEY FIELD VALUE"   reject below VALUE
 *                   "crash KEY FIELD VALUE" the program fails below VALUE
 *                   "hang KEY FIELD VALUE"  the program does not end below VALUE
 *                   "hash Q"                reject when the hash of the formats is not 0 modulo Q, unless all are maximal
 * KEY is ID or ID@index-of-argument; FIELD is the column (5..8 for operations, 3..4 for arguments). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#define N 4096
static struct { char key[700]; long v[16]; int n; } L[N]; static int nl;
static uint64_t fnv(uint64_t h, const void *p, size_t n) { const unsigned char *c = p; while (n--) { h ^= *c++; h *= 1099511628211ull; } return h; }
static int load(const char *fn) {
  FILE *f = fopen(fn, "r"); char b[4096], id[600] = ""; int k = 0; if (!f) return 1;
  while (fgets(b, sizeof b, f) && nl < N) {
    char *t[20]; int n = 0; for (char *p = strtok(b, "\t\n"); p && n < 20; p = strtok(0, "\t\n")) t[n++] = p;
    if (!n) continue;
    if (t[0][strlen(t[0]) - 1] == ':') snprintf(L[nl].key, sizeof L[nl].key, "%s@%d", id, k++);
    else { snprintf(id, sizeof id, "%s", t[0]); k = 0; snprintf(L[nl].key, sizeof L[nl].key, "%s", id); }
    for (char *c = L[nl].key; *c; c++) if (*c == 32) *c = 1;
    L[nl].n = n; for (int i = 0; i < n; i++) L[nl].v[i] = strtol(t[i], 0, 10);
    nl++;
  }
  fclose(f); return 0;
}
static long field(const char *key, int i) { for (int k = 0; k < nl; k++) if (!strcmp(L[k].key, key)) return L[k].v[i]; return 1000; }
static int copy(const char *a, const char *b) {
  FILE *f = fopen(a, "r"), *o = fopen(b, "w"); int c; if (!f || !o) return 1;
  while ((c = getc(f)) != EOF) putc(c, o);
  fclose(f); return fclose(o);
}
static int pred(int running) {
  char p[4096], b[1024], what[16], key[700]; int i; long v; snprintf(p, sizeof p, "%s/pred", getenv("PX_PLAN"));
  FILE *f = fopen(p, "r"); if (!f) return 97;
  while (fgets(b, sizeof b, f)) {
    if (sscanf(b, "hash %ld", &v) == 1) {
      uint64_t s = 0; int allmax = 1;
      for (int k = 0; k < nl; k++) {
        long z[4]; int n = 0;
        if (strchr(L[k].key, '@')) { int d = L[k].v[2] == 1 || L[k].v[2] == 4, fl = L[k].v[2] == 0 || L[k].v[2] == 3; if (!d && !fl) continue; z[n++] = L[k].v[3]; z[n++] = L[k].v[4]; if (z[0] < (d ? 52 : 23) || z[1] < (d ? 11 : 8)) allmax = 0; }
        else { if (L[k].v[4]) { z[n++] = L[k].v[5]; z[n++] = L[k].v[6]; if (z[0] < 52 || z[1] < 11) allmax = 0; }
               if (L[k].v[3]) { z[n++] = L[k].v[7]; z[n++] = L[k].v[8]; if (z[n - 2] < 23 || z[n - 1] < 8) allmax = 0; } }
        s += fnv(fnv(14695981039346656037ull, L[k].key, strlen(L[k].key)), z, n * sizeof z[0]);
      }
      if (!running && !allmax && (s >> 13) % v) return 1;
      continue;
    }
    if (sscanf(b, "%15s %699s %d %ld", what, key, &i, &v) != 4) continue;
    if (field(key, i) >= v) continue;
    if (running && what[0] == 'c') return 3;
    if (running && what[0] == 'h') { sleep(1000); return 4; }
    if (!running && what[0] == 'm') return 1;
  }
  fclose(f); return 0;
}
int main(int argc, char **argv) {
  char p[4096], q[4096]; const char *me = strrchr(argv[0], '/'); me = me ? me + 1 : argv[0];
  const char *plan = getenv("PX_PLAN"), *be = getenv("VFC_BACKENDS");
  if (!plan || !be) return 90;
  snprintf(p, sizeof p, "%s/log", plan); FILE *lg = fopen(p, "a");
  if (!strncmp(me, "exrun", 5)) {
    if (argc != 2) return 91;
    const char *o = strstr(be, "--prec-output-file="), *in = strstr(be, "--prec-input-file=");
    snprintf(p, sizeof p, "%s/noise", plan); FILE *nz = fopen(p, "r"); long noise = 0; if (nz) { if (fscanf(nz, "%ld", &noise) != 1) noise = 0; fclose(nz); }
    for (long i = 0; i < noise; i++) putchar("progress\n"[i % 9]);
    fflush(stdout);
    if (o) {
      sscanf(o + 19, "%4000s", q); fprintf(lg, "PROFILE %s\n", be); fclose(lg);
      snprintf(p, sizeof p, "%s/profile", plan); if (copy(p, q)) return 92;
      snprintf(p, sizeof p, "%s/out", argv[1]); FILE *f = fopen(p, "w"); if (!f) return 93; fputs("REF\n", f); fclose(f); return 0;
    }
    if (!in) { fprintf(lg, "NOCONF %s\n", be); fclose(lg); return 94; }
    sscanf(in + 18, "%4000s", q); fprintf(lg, "RUN %s\n", be); fflush(lg);
    if (load(q)) return 95;
    { FILE *f = fopen(q, "r"); char b[4096]; while (f && fgets(b, sizeof b, f)) fprintf(lg, " %s", b); if (f) fclose(f); }
    fflush(lg);
    int r = pred(1); if (r) { fprintf(lg, "FAIL\n"); fclose(lg); return r; }
    fclose(lg);
    snprintf(p, sizeof p, "%s/out", argv[1]); return copy(q, p);
  }
  if (argc != 3) return 91;
  snprintf(p, sizeof p, "%s/out", argv[1]); FILE *f = fopen(p, "r"); if (!f || !fgets(q, sizeof q, f) || strcmp(q, "REF\n")) { fprintf(lg, "NOREF\n"); return 99; }
  fclose(f);
  snprintf(p, sizeof p, "%s/out", argv[2]); if (load(p)) return 98;
  int r = pred(0); fprintf(lg, r ? "REJECT\n" : "ACCEPT\n"); fclose(lg); return r;
}
