//@use rt.inc
//@entry code q=90 shards=16 depth=10 covers=done,reused
//@entry fill q=60 shards=8 depth=5 covers=done,reused
//@entry exact q=90 shards=16 depth=8 covers=done,reused
//@bounds code objects of every number of pages around 1, 2 and 3 memory objects, and up to 80 code objects in several regions of any of 6 sizes, and up to 8 code objects of 64 bytes to 300 KB, referenced at the start or inside, directly, from a record or from a ref cell; any collections of levels 0-2 between the allocations, up to 13 collections of levels 1-3 after them; heaps of 3 generations
#include "rt.inc"
#include "shadow.inc"
/* code objects: allocation, survival while referenced anywhere inside, no overlap, reuse after death */
static ml_val_t cobj[90]; static long clen[90]; static Word_t cmark[90]; static int clive[90], ncode;
static void code_check(void) {
  for (int j = 0; j < ncode; j++) if (clive[j]) sym_assert(sym_valid(PTR_MLtoC(char, cobj[j]), clen[j]) && PTR_MLtoC(Word_t, cobj[j])[0] == cmark[j] && PTR_MLtoC(Word_t, cobj[j])[clen[j] / 8 - 1] == cmark[j], "a referenced code object was lost or overwritten"); }
static void code_new(long len) {
  int i = ncode; clen[i] = len; cmark[i] = sym_bits(64); cobj[i] = ML_AllocCode(msp, len);
  sym_assert(sym_valid(PTR_MLtoC(char, cobj[i]), len), "a code object is not backed by memory");
  for (int j = 0; j < i; j++) { int ov = ! ((Addr_t)cobj[i] >= (Addr_t)cobj[j] + clen[j] || (Addr_t)cobj[j] >= (Addr_t)cobj[i] + len); if (ov) sym_cover("reused"); sym_assert(! (clive[j] && ov), "code objects overlap"); }
  memset(PTR_MLtoC(char, cobj[i]), 0xa5, len);
  PTR_MLtoC(Word_t, cobj[i])[0] = cmark[i]; PTR_MLtoC(Word_t, cobj[i])[len / 8 - 1] = cmark[i]; clive[i] = 1; ncode++; }
void entry_code(void) {
  rt_init(256 * ONE_K, 3); sh_reset(); ncode = 0;
  static const long sz[] = { 1024, 64, 1025, 5000, 300000 };
  int n = BOUND(4, 5), way = sym_choose(3), dist = BOUND(3, 5);
  for (int i = 0; i < n; i++) {
    code_new(sz[sym_choose(i == 0 ? 5 : i < 3 ? 2 : 1)]);
    ml_val_t inner = PTR_CtoML(PTR_MLtoC(char, cobj[i]) + (i & 1 ? 0 : (clen[i] / 2 & ~7)));
    *reg(i) = way == 0 ? inner : way == 1 ? ML_Alloc1(msp, inner) : ML_RefAlloc(msp, inner);
    static const int lv[] = { 0, 1, 2, 3 }; int g = sym_choose(dist); if (g) { InvokeGC(msp, lv[g]); code_check(); }
    if (i && sym_choose(2)) { int d = i & 1 ? 0 : i - 1; clive[d] = 0; *reg(d) = ML_unit; } }
  static const int ms[] = { 1, 4, 9 }; int m = ms[sym_choose(2 + sym_tier())];
  for (int i = 0; i < m; i++) { InvokeGC(msp, 1 + i % 3); code_check(); }
  for (int i = 0; i < 2; i++) { code_new(sz[3 * i]); code_check(); *reg(n + i) = cobj[n + i]; }
  InvokeGC(msp, 2); code_check(); InvokeGC(msp, 3); code_check(); InvokeGC(msp, 3); code_check();
  code_new(1024); code_new(1024); code_check();
  sym_cover("done");
}
/* code objects fill whole regions, some die, and the freed space is used again */
static void code_keep(int i) { msp->ml_arg = ML_Alloc2(msp, cobj[i], msp->ml_arg); }
void entry_fill(void) {
  rt_init(256 * ONE_K, 3); sh_reset(); ncode = 0;
  static const long sz[] = { 64, 1000, 1024, 9000, 40000, 70000 }; msp->ml_arg = LIST_nil;
  int a = sym_choose(6), b = 2 + sym_choose(4), every = 2 + sym_choose(2), lev = 1 + sym_choose(3);
  for (int i = 0; i < 24; i++) { code_new(sz[i % 3 == 0 ? b : a]); code_keep(i); code_check(); }
  for (int g = 0; g < 3; g++) { InvokeGC(msp, lev); code_check(); }
  /* every other object is dropped */
  ml_val_t l = msp->ml_arg, keep = LIST_nil; for (int i = 23; i >= 0; i--) { if (i % every == 0) keep = ML_Alloc2(msp, LIST_hd(l), keep); else clive[i] = 0; l = LIST_tl(l); }
  msp->ml_arg = keep; for (int g = 0; g < 3; g++) { InvokeGC(msp, 3); code_check(); }
  int c = sym_choose(3); for (int i = 0; i < 30; i++) { code_new(sz[(c + i) % 5 == 0 ? b : (c * 2)]); code_keep(ncode - 1); code_check(); }
  InvokeGC(msp, 2); code_check(); InvokeGC(msp, 3); code_check();
  sym_cover("done");
}
/* code objects of every size around that of a region's memory objects: one fills a region exactly, or all but a page, or needs another */
void entry_exact(void) {
  rt_init(256 * ONE_K, 3); sh_reset(); ncode = 0; msp->ml_arg = LIST_nil; static const int base[] = { 236, 490, 744, 1000 };
  int p = base[sym_choose(BOUND(3, 4))] + sym_choose(24), d = 8 * sym_choose(2), first = sym_choose(2); if (first) { code_new(64); code_keep(0); }
  code_new(p * 1024L - d); code_keep(ncode - 1); int a = ncode - 1; code_new(64); code_keep(ncode - 1); code_new(p * 1024L); code_check();
  clive[ncode - 1] = 0; int lev = 1 + sym_choose(3); InvokeGC(msp, lev); code_check(); code_new(p * 1024L); code_keep(ncode - 1); code_check();
  if (sym_choose(2)) { clive[a] = 0; ml_val_t keep = LIST_nil; for (int i = 0; i < ncode; i++) if (clive[i]) keep = ML_Alloc2(msp, cobj[i], keep); msp->ml_arg = keep; }
  for (int g = 0; g < 3; g++) { InvokeGC(msp, 3); code_check(); }
  code_new((p - 1) * 1024L); code_keep(ncode - 1); code_new(1024); code_keep(ncode - 1); code_check(); InvokeGC(msp, 3); code_check(); sym_cover("done"); }
