/* constructors, destructors, atexit, fork, signals, pipes */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>
static double g = 1.5; volatile double vd = 0.1;
__attribute__((constructor)) static void c1(void) { g = g * 1.1; printf("ctor %a\n", g); }
__attribute__((constructor(101))) static void c0(void) { g = g + 0.3; printf("ctor101 %a\n", g); }
__attribute__((destructor)) static void d1(void) { printf("dtor %a\n", g / 7.0); }
__attribute__((destructor(101))) static void d0(void) { printf("dtor101 %a\n", g * 7.0); fflush(stdout); }
static void ae(void) { g = g - 0.7; printf("atexit %a\n", g); }
static void sg(int s) { vd = vd * 3.0; }
int main(void) {
  atexit(ae); signal(SIGUSR1, sg); raise(SIGUSR1); printf("%a\n", vd); fflush(stdout);
  int p[2]; if (pipe(p)) return 1; pid_t k = fork();
  if (k == 0) { double x = g * 2.5 + 1.0; if (write(p[1], &x, sizeof x) < 0) _exit(2); _exit((int)(x * 3.0)); }
  double y; if (read(p[0], &y, sizeof y) != sizeof y) return 2; int st; waitpid(k, &st, 0); printf("%a %d\n", y + 0.1, WEXITSTATUS(st));
  double s = 0; int c; while ((c = getchar()) != EOF) s = s * 1.01 + c; printf("%a\n", s);
  exit((int)(s / 10.0) & 15);
}
