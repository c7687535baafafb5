/* executes a stream of probe calls: lines "kind set len len valuebits thresholdbits\n" followed by the two names */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <vfc_probes.h>
#include "interflop/interflop_stdlib.h"
static double fb(unsigned long long u) { double d; memcpy(&d, &u, 8); return d; }
int main(void) {
#ifdef HANDLERS
  interflop_set_handler("malloc", malloc); interflop_set_handler("calloc", calloc); interflop_set_handler("free", free);
#endif
  vfc_probes p[3]; for (int i = 0; i < 3; i++) p[i] = vfc_init_probes();
  char kind; int set; size_t a, b; unsigned long long v, t; int bad = 0;
  while (scanf(" %c %d %zu %zu %llx %llx", &kind, &set, &a, &b, &v, &t) == 6) {
    getchar(); char *x = malloc(a + 1), *y = malloc(b + 1); size_t n = fread(x, 1, a, stdin) + fread(y, 1, b, stdin); if (n != a + b) return 90;
    x[a] = y[b] = 0; double d = fb(v), e = fb(t); int r = 0;
    switch (kind) {
    case 'p': r = vfc_probe(&p[set], x, y, d); break;
    case 'a': r = vfc_probe_check(&p[set], x, y, d, e); break;
    case 'r': r = vfc_probe_check_relative(&p[set], x, y, d, e); break;
    case 'P': r = vfc_probe_f(&p[set], x, y, &d); break;
    case 'A': r = vfc_probe_check_f(&p[set], x, y, &d, &e); break;
    case 'R': r = vfc_probe_check_relative_f(&p[set], x, y, &d, &e); break;
    case 'n': printf("%u\n", vfc_num_probes(&p[set])); break;
    case 'd': setenv("VFC_PROBES_OUTPUT", x, 1); r = vfc_dump_probes(&p[set]); p[set] = vfc_init_probes(); break;
    case 'u': unsetenv("VFC_PROBES_OUTPUT"); r = vfc_dump_probes(&p[set]); p[set] = vfc_init_probes(); break;
    case '0': printf("%d\n", vfc_probe(NULL, x, y, d)); break;
    }
    if (r) bad++;
    memset(x, '!', a); memset(y, '!', b); free(x); free(y);
  }
  puts("END"); return bad ? 91 : 0;
}
