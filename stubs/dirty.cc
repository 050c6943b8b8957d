// Linked into the plain builds of whole programs: leaves numbers on the stack and the heap before main, so
// that a variable nobody initialised does not happen to be zero.
#include <cstdlib>
#include <cstring>

static __attribute__((noinline)) void stack() {
  volatile int a[1 << 15];
  for (int i = 0; i < (1 << 15); i++) a[i] = 0x00040002;
}

static __attribute__((constructor)) void dirty() {
  const int sizes[] = {24, 40, 64, 104, 200, 400, 1000};
  void *p[7][40];
  for (int i = 0; i < 7; i++)
    for (int j = 0; j < 40; j++) {
      p[i][j] = malloc(sizes[i]);
      if (p[i][j]) {
        int *w = (int *)p[i][j];
        for (int k = 0; k < sizes[i] / 4; k++) w[k] = 0x00040002;
        __asm__ volatile("" : : "r"(w) : "memory");
      }
    }
  for (int i = 0; i < 7; i++)
    for (int j = 0; j < 40; j++) free(p[i][j]);
  stack();
}
