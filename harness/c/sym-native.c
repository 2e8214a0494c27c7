/* Native replay: the values the solver chose are read from a file, in the order they were drawn. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "sym.h"
static FILE *vf; static int tier;
static void done(const char *what) { fflush(stdout); printf("REPLAY-%s\n", what); fflush(stdout); _exit(0); }
static long next(void) { long v; if (fscanf(vf, "%ld", &v) != 1) done("DESYNC"); return v; }
long sym_range(long lo, long hi) { if (lo == hi) return lo; long v = next(); if (v < lo || v > hi) done("DESYNC"); return v; }
unsigned long sym_bits(int n) { unsigned long v = (unsigned long)next(); return n >= 64 ? v : v & ((1ul << n) - 1); }
long sym_choose(long n) { return n <= 1 ? 0 : sym_range(0, n - 1); }
void sym_assume(int c) { if (!c) done("ASSUME"); }
void sym_fail(const char *msg) { char b[600]; snprintf(b, 600, "VIOLATION %s", msg); done(b); }
void sym_assert_(int c, const char *msg) { if (!c) sym_fail(msg); }
void sym_cover(const char *p) { }
int sym_tier(void) { return tier; }
long sym_concrete(long v) { return v; }
void sym_stop(void) { done("ASSUME"); }
void sym_end(void) { done("HELD"); }
long sym_ite(int c, long a, long b) { return c ? a : b; }
void sym_bytes(void *p, long n) { for (long i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)next(); }
int sym_valid(const void *p, long n) { return 1; }
int sym_is_symbolic(long v) { return 0; }
void sym_show(const char *w, long v) { printf("SHOW %s %ld %#lx\n", w, v, v); }
extern struct { const char *name; void (*fn)(void); } replay_entries[];
int main(int argc, char **argv) {
  const char *e = getenv("REPLAY_ENTRY"), *f = getenv("REPLAY_VALUES"), *t = getenv("REPLAY_TIER");
  tier = t && !strcmp(t, "thorough"); vf = fopen(f, "r"); if (!vf) return 3;
  printf("REPLAY-START\n"); fflush(stdout);
  for (int i = 0; replay_entries[i].name; i++) if (!strcmp(replay_entries[i].name, e)) { replay_entries[i].fn(); done("HELD"); }
  return 4;
}
