// Native replayer: runs a harness entry of the real build (the .so produced by
// the same cargo invocation as the IR) with the values in a replay file.
// exit 0: ran to completion; 3: an assertion failed; SIGABRT: the code panicked;
// 5: an assumption does not hold; 6: the replay file does not match the run.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static struct { char k; char *t; } *ln; static size_t nl, at;
static uint64_t pk[64], pv[64]; static int np;
static const char *next(char k) {
  if (at >= nl || ln[at].k != k) { fprintf(stderr, "replay: value %zu is not '%c'\n", at, k); fflush(0); _exit(6); }
  return ln[at++].t;
}
static uint64_t word(void) { return strtoull(next('w'), 0, 10); }
void sx_bytes(uint8_t *p, size_t n) {
  const char *t = next('b');
  if (strlen(t) < 2 * n) _exit(6);
  for (size_t i = 0; i < n; i++) { unsigned v; sscanf(t + 2 * i, "%2x", &v); p[i] = v; }
}
uint8_t sx_u8(void) { return word(); }
uint16_t sx_u16(void) { return word(); }
uint32_t sx_u32(void) { return word(); }
uint64_t sx_u64(void) { return word(); }
uint64_t sx_range(uint64_t lo, uint64_t hi) { uint64_t v = word(); if (v < lo || v > hi) _exit(5); return v; }
uint64_t sx_choice(uint64_t n) { uint64_t v = strtoull(next('c'), 0, 10); if (v >= n) _exit(5); return v; }
uint64_t sx_param(uint64_t i, uint64_t d) { for (int k = 0; k < np; k++) if (pk[k] == i) return pv[k]; return d; }
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_assume(bool c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(0); _exit(5); } }
void sx_assert(bool c, const char *m, size_t n) { if (!c) { printf("ASSERT-FAILED %.*s\n", (int)n, m); fflush(0); _exit(3); } }
void sx_fail(const char *m, size_t n) { sx_assert(0, m, n); }
void sx_cover(const char *m, size_t n) { printf("COVER %.*s\n", (int)n, m); fflush(stdout); }
void sx_dbg(const char *m, size_t n) { fprintf(stderr, "dbg %.*s\n", (int)n, m); }
int main(int c, char **v) {
  if (c < 4) return 64;
  FILE *f = fopen(v[3], "r"); if (!f) return 65;
  char *l = 0; size_t cap = 0; ssize_t n;
  ln = malloc(sizeof *ln * 1000000);
  while ((n = getline(&l, &cap, f)) > 0) {
    while (n && (l[n-1] == '\n' || l[n-1] == '\r')) l[--n] = 0;
    if (l[0] == '#' || n < 1) continue;
    if (l[0] == 'p') { unsigned long long a, b; sscanf(l + 1, "%llu %llu", &a, &b); pk[np] = a; pv[np++] = b; continue; }
    ln[nl].k = l[0]; ln[nl++].t = strdup(n > 2 ? l + 2 : "");
  }
  clearenv(); setenv("HOME", "/nonexistent/vp", 1); // what the executor presents
  void *h = dlopen(v[1], RTLD_NOW); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 66; }
  void (*e)(void) = (void (*)(void))dlsym(h, v[2]); if (!e) return 67;
  e();
  printf("DONE\n"); fflush(0);
  _exit(0);
}
