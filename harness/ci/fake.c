/* Stand-in for an instrumented test program: writes the probe file planned for this
 * executable, backend and repetition, and logs how it was called. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int argc, char **argv) {
  const char *b = strrchr(argv[0], '/'); b = b ? b + 1 : argv[0];
  const char *be = getenv("VFC_BACKENDS"), *out = getenv("VFC_PROBES_OUTPUT");
  if (!be || !out) return 9;
  FILE *f = fopen("plan/map", "r"); char line[4096]; int id = -1;
  while (fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0;
    char *e = strtok(line, "\t"), *k = strtok(0, "\t"), *n = strtok(0, "\t");
    if (!strcmp(e, b) && !strcmp(k, be)) { id = atoi(n); break; }
  }
  fclose(f);
  char p[64]; int k = 1;
  snprintf(p, sizeof p, "plan/%d.cnt", id);
  if ((f = fopen(p, "r"))) { if (fscanf(f, "%d", &k) != 1) k = 1; else k++; fclose(f); }
  if ((f = fopen(p, "w"))) { fprintf(f, "%d", k); fclose(f); }
  if ((f = fopen("plan/log", "a"))) {
    fprintf(f, "%s\t%s\t%d\t%s", b, be, k, out);
    for (int i = 1; i < argc; i++) fprintf(f, "\t%s", argv[i]);
    fprintf(f, "\n"); fclose(f);
  }
  snprintf(p, sizeof p, "plan/%d.%d", id, k);
  if (access(p, R_OK)) snprintf(p, sizeof p, "plan/%d.all", id);
  if (!(f = fopen(p, "r"))) return 8;
  char buf[65536]; size_t n = fread(buf, 1, sizeof buf, f); fclose(f);
  if (n >= 6 && !memcmp(buf, "!crash", 6)) abort();
  if (n >= 5 && !memcmp(buf, "!none", 5)) return 0;
  f = fopen(out, "w"); fwrite(buf, 1, n, f); fclose(f);
  return n % 3 == 0; /* the status of a test program is not a verdict */
}
