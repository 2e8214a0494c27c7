//@use rt.inc
//@entry strings q=60 shards=4 depth=4 covers=done
//@entry small q=40 shards=4 depth=4 covers=done
//@entry large q=90 shards=8 depth=5 covers=done,collected
//@entry tight q=120 shards=16 depth=6 steps=2000000000 covers=done,collected
//@entry shrink q=30 covers=done
//@entry stringlist q=60 shards=8 depth=6 covers=done
//@entry biglist q=60 shards=2 depth=2 covers=done
//@entry consts q=60 shards=2 depth=3 covers=done
//@entry cdata q=30 covers=done
//@bounds strings of up to 9 symbolic bytes at every alignment and up to 6000 concrete bytes; sequences of up to 40000 elements; lists of up to 1200 strings; allocation pointer anywhere, including the last position from which a C function may start (8 KB before the limit); first-generation arenas with any relation between the free space and the space needed, followed by a minor collection of a full nursery
#include "rt.inc"
/* the states a C function may be entered in: fresh, in the middle, at the last position before the limit */
static void position(int p) { Addr_t lim = (Addr_t)msp->ml_limitPtr - 8 * ONE_K - 8;
  if (p == 1) msp->ml_allocPtr += 1001; else if (p == 2) msp->ml_allocPtr = (ml_val_t *)lim; else if (p == 3) msp->ml_allocPtr = (ml_val_t *)(lim - 8); }
/* use up the first generation's string (or other) space, so that a large allocation has to collect */
static void fill_gen1(int which) {
  arena_t *ap;
  for (int i = 0; i < 400; i++) { ap = msp->ml_heap->gen[0]->arena[which == 0 ? STRING_INDX : ARRAY_INDX]; if (AVAIL_SPACE(ap) <= msp->ml_heap->allocSzB + 8200) break;
    if (which == 0) ML_AllocRaw(msp, 1000); else ML_AllocArrayData(msp, 1000, ML_unit); } }
static void fresh(ml_val_t obj, long nwords) { ml_val_t *p = PTR_MLtoC(ml_val_t, obj);
  sym_assert(isBOXED(obj) && sym_valid(p - 1, 8 * nwords + 8), "an allocated object is not backed by memory");
  sym_assert((Addr_t)(p + nwords) <= (Addr_t)msp->ml_allocPtr || (Addr_t)p >= (Addr_t)msp->ml_heap->allocBase + msp->ml_heap->allocSzB || (Addr_t)p < (Addr_t)msp->ml_heap->allocBase, "an allocated object lies in free space"); }
static void check_str(ml_val_t s, const char *v, long len) {
  sym_assert(OBJ_DESC(s) == DESC_string && REC_SEL(s, 1) == INT_CtoML(len), "string header wrong");
  ml_val_t d = REC_SEL(s, 0); long n = len / 8 + 1;
  if (len) { sym_assert(OBJ_DESC(d) == MAKE_DESC(n, DTAG_raw), "string data descriptor wrong"); fresh(d, n); fresh(s, 2); }
  const char *p = PTR_MLtoC(char, d);
  for (long i = 0; i < len; i++) sym_assert(p[i] == v[i], "string contents wrong");
  for (long i = len; i < (len ? 8 * n : 1); i++) sym_assert(p[i] == 0, "string not padded with zeros"); }
void entry_strings(void) {
  RT_INIT(); position(sym_choose(4));
  long len = sym_choose(10); char b[12];
  sym_bytes(b, len); b[len] = 0; for (long i = 0; i < len; i++) sym_assume(b[i] != 0);
  ml_val_t live = ML_Alloc1(msp, INT_CtoML(sym_bits(63))); msp->ml_arg = live; ml_val_t lv = REC_SEL(live, 0);
  ml_val_t s = ML_CString(msp, b);
  check_str(s, b, len);
  if (len == 0) { ml_val_t e = ML_CString(msp, NULL); sym_assert(REC_SEL(e, 1) == INT_CtoML(0), "string of a null pointer not empty"); }
  if (len) { ml_val_t a = ML_AllocString(msp, len); memcpy(PTR_MLtoC(char, REC_SEL(a, 0)), b, len); check_str(a, b, len);
    ml_val_t w = ML_AllocBytearray(msp, len); long n = (len + 7) / 8;
    sym_assert(OBJ_DESC(w) == DESC_word8arr && REC_SEL(w, 1) == INT_CtoML(len) && OBJ_DESC(REC_SEL(w, 0)) == MAKE_DESC(n, DTAG_raw), "byte array header wrong"); fresh(REC_SEL(w, 0), n);
    check_str(s, b, len); check_str(a, b, len); }
  sym_assert(msp->ml_arg == live && REC_SEL(live, 0) == lv, "an allocation disturbed another object");
  sym_cover("done");
}
void entry_small(void) {
  RT_INIT(); position(sym_choose(4));
  long n = 1 + sym_choose(4); ml_val_t x = INT_CtoML(sym_bits(63)), y = sym_choose(2) ? ML_Alloc1(msp, x) : x;
  ml_val_t r = ML_AllocRaw(msp, n); sym_assert(OBJ_DESC(r) == MAKE_DESC(n, DTAG_raw), "raw descriptor"); fresh(r, n);
  ml_val_t d = ML_AllocRaw64(msp, n); sym_assert(OBJ_DESC(d) == MAKE_DESC(n, DTAG_raw64), "raw64 descriptor"); fresh(d, n);
  ml_val_t f = ML_AllocRealdarray(msp, n); sym_assert(OBJ_DESC(f) == DESC_real64arr && REC_SEL(f, 1) == INT_CtoML(n) && OBJ_DESC(REC_SEL(f, 0)) == MAKE_DESC(n, DTAG_raw64), "real array header"); fresh(REC_SEL(f, 0), n);
  ml_val_t a = ML_AllocArray(msp, n, y); sym_assert(OBJ_DESC(a) == DESC_polyarr && REC_SEL(a, 1) == INT_CtoML(n) && OBJ_DESC(REC_SEL(a, 0)) == MAKE_DESC(n, DTAG_arr_data), "array header"); fresh(REC_SEL(a, 0), n);
  for (long i = 0; i < n; i++) sym_assert(REC_SEL(REC_SEL(a, 0), i) == y, "array element");
  ml_val_t l = LIST_nil; for (long i = n; i-- > 0; ) LIST_cons(msp, l, INT_CtoML(i + 100), l);
  ml_val_t v = ML_AllocVector(msp, n, l); sym_assert(OBJ_DESC(v) == DESC_polyvec && REC_SEL(v, 1) == INT_CtoML(n) && OBJ_DESC(REC_SEL(v, 0)) == MAKE_DESC(n, DTAG_vec_data), "vector header"); fresh(REC_SEL(v, 0), n);
  for (long i = 0; i < n; i++) sym_assert(REC_SEL(REC_SEL(v, 0), i) == INT_CtoML(i + 100), "vector element");
  ml_val_t all[5] = { r, d, REC_SEL(f, 0), REC_SEL(a, 0), REC_SEL(v, 0) };
  for (int i = 0; i < 5; i++) for (int j = 0; j < i; j++) sym_assert((Addr_t)all[i] - 8 >= (Addr_t)all[j] + 8 * n || (Addr_t)all[j] - 8 >= (Addr_t)all[i] + 8 * n, "objects overlap");
  InvokeGC(msp, 0);
  sym_cover("done");
}
/* sequences too large for the nursery; with the first generation full or not, with a young initial value */
void entry_large(void) {
  RT_INIT();
  static const long lens[] = { 512, 513, 700, 2000 }; long n = lens[sym_choose(4)]; int what = sym_choose(5), full = sym_choose(3);
  msp->ml_cont = ML_Alloc2(msp, INT_CtoML(11), INT_CtoML(12));
  if (full) fill_gen1(what == 3 ? 1 : 0);
  position(full == 2 ? 2 : 1);
  ml_val_t x = INT_CtoML(sym_bits(63)), live = ML_Alloc3(msp, x, x, INT_CtoML(3)); msp->ml_arg = live;
  int boxed = sym_choose(2); ml_val_t y = boxed ? ML_Alloc1(msp, x) : x;
  ml_val_t *ap0 = msp->ml_allocPtr;
  ml_val_t o = 0, d; long nw = n;
  switch (what) {
    case 0: o = d = ML_AllocRaw(msp, n); sym_assert(OBJ_DESC(d) == MAKE_DESC(n, DTAG_raw), "large raw descriptor"); break;
    case 1: o = d = ML_AllocRaw64(msp, n); sym_assert(OBJ_DESC(d) == MAKE_DESC(n, DTAG_raw64), "large raw64 descriptor"); break;
    case 2: o = ML_AllocString(msp, 8 * n - 3); d = REC_SEL(o, 0); sym_assert(OBJ_DESC(o) == DESC_string && REC_SEL(o, 1) == INT_CtoML(8 * n - 3) && OBJ_DESC(d) == MAKE_DESC(n, DTAG_raw), "large string header"); sym_assert(PTR_MLtoC(char, d)[8 * n - 3] == 0 && PTR_MLtoC(char, d)[8 * n - 1] == 0, "large string padding"); break;
    case 3: o = ML_AllocArray(msp, n, y); d = REC_SEL(o, 0); sym_assert(OBJ_DESC(o) == DESC_polyarr && REC_SEL(o, 1) == INT_CtoML(n) && OBJ_DESC(d) == MAKE_DESC(n, DTAG_arr_data), "large array header"); break;
    default: { ml_val_t l = LIST_nil; InvokeGCWithRoots(msp, 0, &y, NIL(ml_val_t *)); for (long i = n; i-- > 0; ) LIST_cons(msp, l, i == n / 2 ? y : INT_CtoML(i), l);
      ap0 = msp->ml_allocPtr; o = ML_AllocVector(msp, n, l); d = REC_SEL(o, 0); sym_assert(OBJ_DESC(o) == DESC_polyvec && REC_SEL(o, 1) == INT_CtoML(n) && OBJ_DESC(d) == MAKE_DESC(n, DTAG_vec_data), "large vector header"); }
  }
  if ((Addr_t)msp->ml_allocPtr < (Addr_t)ap0) sym_cover("collected");
  fresh(d, nw);
  if (what < 3) for (long i = 0; i < nw; i += 37) PTR_MLtoC(Word_t, d)[i] = (Word_t)x + i;
  int gcs = sym_choose(3);
  for (int g = 0; g <= gcs; g++) {
    if (g) { InvokeGCWithRoots(msp, g - 1, &o, NIL(ml_val_t *)); d = what >= 2 ? REC_SEL(o, 0) : o; fresh(d, nw); }
    live = msp->ml_arg; sym_assert(REC_SEL(live, 0) == x && REC_SEL(live, 1) == x && REC_SEL(live, 2) == INT_CtoML(3) && REC_SEL(msp->ml_cont, 1) == INT_CtoML(12), "a large allocation disturbed another object");
    for (long i = 0; i < nw; i++) { ml_val_t e = REC_SEL(d, i);
      if (what < 3) { if (i % 37 == 0 && (what != 2 || 1)) sym_assert((Word_t)e == (Word_t)x + i, "contents of a large object"); }
      else if (what == 3) { if (boxed) sym_assert(isBOXED(e) && REC_SEL(e, 0) == x && e == REC_SEL(d, 0), "element of a large array"); else sym_assert(e == x, "element of a large array"); }
      else if (i == n / 2) { if (boxed) sym_assert(isBOXED(e) && REC_SEL(e, 0) == x, "element of a large vector"); else sym_assert(e == x, "element of a large vector"); }
      else sym_assert(e == INT_CtoML(i), "element of a large vector"); } }
  sym_cover("done");
}
/* a large object when the arena has just enough or just too little room, then a full nursery of live objects */
void entry_tight(void) {
  RT_INIT(); static const long lens[] = { 513, 20000, 40000 }; int what = sym_choose(4); long n = lens[sym_choose(3)], szb = 8 * n + 8; Word_t m = sym_bits(62);
  int indx = what >= 2 ? ARRAY_INDX : STRING_INDX; long want = 0;
  static const long slack[] = { -4112, -8, 0, 8, 16, 5000 }; int sl = sym_choose(7);
  want = sl == 6 ? szb + 64 : szb + (long)msp->ml_heap->allocSzB + slack[sl];
  msp->ml_arg = LIST_nil; long fills = 0;
  /* large objects, half of them live, until the wanted room is left */
  for (int i = 0; i < 120; i++) { arena_t *ap = msp->ml_heap->gen[0]->arena[indx]; long av = (long)AVAIL_SPACE(ap) - want; if (! isACTIVE(ap) || av < 8 * 514) break;
    long k = av >= 2 * 8 * 6001 ? 6000 : av / 8 - 1 <= 6600 ? av / 8 - 1 : 6000; 
    ml_val_t o = indx == STRING_INDX ? ML_AllocRaw(msp, k) : ML_AllocArrayData(msp, k, INT_CtoML(m)); PTR_MLtoC(ml_val_t, o)[0] = INT_CtoML(i); PTR_MLtoC(ml_val_t, o)[k - 1] = INT_CtoML(m);
    if (i & 1) { o = ML_Alloc2(msp, o, INT_CtoML(k)); msp->ml_arg = ML_Alloc2(msp, o, msp->ml_arg); fills++; } }
  ml_val_t *ap0 = msp->ml_allocPtr, o;
  if (what == 3) { ml_val_t l = LIST_nil; if (n > 8000) sym_stop(); for (long i = n; i-- > 0; ) LIST_cons(msp, l, INT_CtoML(m), l); ap0 = msp->ml_allocPtr; o = ML_AllocVector(msp, n, l); o = REC_SEL(o, 0); }
  else o = what == 0 ? ML_AllocRaw(msp, n) : what == 1 ? ML_AllocRaw64(msp, n) : ML_AllocArrayData(msp, n, INT_CtoML(m));
  if ((Addr_t)msp->ml_allocPtr < (Addr_t)ap0) sym_cover("collected");
  if (what < 3) { PTR_MLtoC(ml_val_t, o)[0] = INT_CtoML(m); PTR_MLtoC(ml_val_t, o)[n - 1] = INT_CtoML(m); }
  fresh(o, n);
  msp->ml_cont = o; msp->ml_calleeSave[0] = LIST_nil; long cnt = 0;
  while ((Addr_t)msp->ml_allocPtr < (Addr_t)msp->ml_limitPtr - 1200) { ml_val_t q = indx == STRING_INDX ? ML_AllocRaw(msp, 130) : ML_AllocArrayData(msp, 130, INT_CtoML(m)); PTR_MLtoC(ml_val_t, q)[0] = PTR_MLtoC(ml_val_t, q)[129] = INT_CtoML(cnt); cnt++;
    msp->ml_calleeSave[0] = ML_Alloc2(msp, q, msp->ml_calleeSave[0]); }
  InvokeGC(msp, sym_choose(2));
  o = msp->ml_cont; sym_assert(sym_valid(PTR_MLtoC(char, o), 8 * n) && REC_SEL(o, 0) == INT_CtoML(m) && REC_SEL(o, n - 1) == INT_CtoML(m), "a large object changed");
  for (ml_val_t l = msp->ml_calleeSave[0]; l != LIST_nil; l = LIST_tl(l)) { cnt--; ml_val_t q = LIST_hd(l); sym_assert(REC_SEL(q, 0) == INT_CtoML(cnt) && REC_SEL(q, 129) == INT_CtoML(cnt), "an object allocated after a large one changed"); }
  sym_assert(cnt == 0, "a list was cut");
  for (ml_val_t l = msp->ml_arg; l != LIST_nil; l = LIST_tl(l)) { fills--; ml_val_t q = REC_SEL(LIST_hd(l), 0); long k = INT_MLtoC(REC_SEL(LIST_hd(l), 1)); sym_assert(REC_SEL(q, 0) == INT_CtoML(2 * fills + 1) && REC_SEL(q, k - 1) == INT_CtoML(m), "an object allocated before a large one changed"); }
  sym_assert(fills == 0, "a list was cut");
  sym_cover("done");
}
void entry_shrink(void) {
  RT_INIT(); position(sym_choose(2));
  static const long ns[] = { 6, 511, 512, 513, 600 }; int k = sym_choose(5), big = ns[k] > 512; long n = ns[k], m = 1 + sym_choose(6); if (k && sym_choose(2)) m += n - 6; if (m > n) sym_stop();
  ml_val_t old = ML_AllocRaw(msp, 600); for (long i = 0; i < 600; i++) PTR_MLtoC(Word_t, old)[i] = 5000 + i; msp->ml_closure = old;
  ml_val_t r = ML_AllocRaw(msp, n); for (long i = 0; i < n; i++) PTR_MLtoC(Word_t, r)[i] = 1000 + i;
  ML_ShrinkRaw(msp, r, m);
  sym_assert(OBJ_DESC(r) == MAKE_DESC(m, DTAG_raw), "descriptor of a shrunk object");
  ml_val_t q = big ? ML_AllocRaw(msp, 600) : ML_AllocRaw(msp, 3); for (long i = 0; i < 3; i++) PTR_MLtoC(Word_t, q)[i] = 7;
  for (long i = 0; i < m; i++) sym_assert(PTR_MLtoC(Word_t, r)[i] == 1000 + i, "contents of a shrunk object");
  for (long i = 0; i < 600; i++) sym_assert(PTR_MLtoC(Word_t, old)[i] == 5000 + i, "a shrink disturbed another object");
  ml_val_t big2 = ML_AllocRaw(msp, 700); memset(PTR_MLtoC(char, big2), 1, 5600);
  for (long i = 0; i < 600; i++) sym_assert(PTR_MLtoC(Word_t, old)[i] == 5000 + i, "an allocation after a shrink overlaps another object");
  msp->ml_arg = r; msp->ml_cont = q; InvokeGC(msp, sym_choose(2)); r = msp->ml_arg; q = msp->ml_cont;
  sym_assert(OBJ_DESC(r) == MAKE_DESC(m, DTAG_raw) && OBJ_DESC(q) == MAKE_DESC(big ? 600 : 3, DTAG_raw), "objects after a shrink");
  for (long i = 0; i < m; i++) sym_assert(PTR_MLtoC(Word_t, r)[i] == 1000 + i, "contents of a shrunk object");
  sym_cover("done");
}
void entry_stringlist(void) {
  RT_INIT(); position(sym_choose(4));
  char b[3][8]; char *v[4]; int n = sym_choose(4);
  for (int i = 0; i < n; i++) { long len = sym_choose(3) * 3; sym_bytes(b[i], len); b[i][len] = 0; for (long j = 0; j < len; j++) sym_assume(b[i][j] != 0); v[i] = b[i]; }
  v[n] = NULL;
  ml_val_t l = ML_CStringList(msp, v);
  for (int i = 0; i < n; i++) { sym_assert(l != LIST_nil, "string list too short"); check_str(LIST_hd(l), v[i], strlen(v[i])); l = LIST_tl(l); }
  sym_assert(l == LIST_nil, "string list too long");
  sym_cover("done");
}
static char *vv[1300]; static char bigs[6001];
void entry_biglist(void) {
  RT_INIT();
  int n = sym_choose(2) ? 500 : 1200, big = sym_choose(3); 
  for (int i = 0; i < 6000; i++) bigs[i] = 'A' + i % 26;
  static char names[4][10] = { "a", "bb", "ccccccc", "dddddddd" };
  for (int i = 0; i < n; i++) vv[i] = names[i & 3];
  if (big) { vv[10] = bigs; vv[n - 7] = bigs + 7; if (big == 2) fill_gen1(0); }
  vv[n] = NULL;
  long room = sym_choose(8);   /* any position: room for 24 to 80 bytes per string before the limit */
  if (room == 0) position(2); else if (room > 1) msp->ml_allocPtr = (ml_val_t *)((Addr_t)msp->ml_limitPtr - n * (16 + 8 * room));
  ml_val_t l = ML_CStringList(msp, vv);
  sym_assert((Addr_t)msp->ml_allocPtr <= (Addr_t)msp->ml_heap->allocBase + msp->ml_heap->allocSzB, "a string list overran the allocation space");
  for (int i = 0; i < n; i++) { sym_assert(isBOXED(l), "string list too short"); ml_val_t s = LIST_hd(l);
    sym_assert(isBOXED(s) && OBJ_DESC(s) == DESC_string && REC_SEL(s, 1) == INT_CtoML(strlen(vv[i])) && strcmp(PTR_MLtoC(char, REC_SEL(s, 0)), vv[i]) == 0, "a string of a long list is wrong"); l = LIST_tl(l); }
  sym_assert(l == LIST_nil, "string list too long");
  sym_cover("done");
}
static sys_const_t cs[700];
void entry_consts(void) {
  RT_INIT();
  int n = sym_choose(2) ? 3 : 600, room = sym_choose(9); if (room == 0) position(2); else if (room > 1) msp->ml_allocPtr = (ml_val_t *)((Addr_t)msp->ml_limitPtr - 8 * ONE_K - n * (32 + 8 * room));
  sysconst_tbl_t t; t.numConsts = n; t.consts = cs;
  static char nm[3][40] = { "E", "EXDEVICE", "a_rather_long_constant_name_of_34_b" };
  for (int i = 0; i < n; i++) { cs[i].id = i + 5; cs[i].name = nm[i % 3]; }
  long id = sym_range(0, 12); ml_val_t c = ML_SysConst(msp, &t, (int)id);
  if (id >= 5 && id < 5 + n) { sym_assert(REC_SEL(c, 0) == INT_CtoML(id), "constant found under another id"); check_str(REC_SEL(c, 1), nm[sym_concrete((id - 5) % 3)], strlen(nm[sym_concrete((id - 5) % 3)])); }
  else { sym_assert(REC_SEL(c, 0) == INT_CtoML(-1), "unknown constant not reported as such"); check_str(REC_SEL(c, 1), "<UNKNOWN>", 9); }
  ml_val_t l = ML_SysConstList(msp, &t);
  sym_assert((Addr_t)msp->ml_allocPtr <= (Addr_t)msp->ml_heap->allocBase + msp->ml_heap->allocSzB, "a constant list overran the allocation space");
  for (int i = 0; i < n; i++) { sym_assert(isBOXED(l) && REC_SEL(LIST_hd(l), 0) == INT_CtoML(i + 5), "constant list wrong"); ml_val_t s = REC_SEL(LIST_hd(l), 1); sym_assert(strcmp(PTR_MLtoC(char, REC_SEL(s, 0)), nm[i % 3]) == 0 && REC_SEL(s, 1) == INT_CtoML(strlen(nm[i % 3])), "constant name wrong"); l = LIST_tl(l); }
  sym_assert(l == LIST_nil, "constant list too long");
  sym_cover("done");
}
void entry_cdata(void) {
  RT_INIT(); position(sym_choose(4));
  long n = sym_choose(18); unsigned char b[20]; sym_bytes(b, n);
  ml_val_t d = ML_CData(msp, b, n);
  if (n == 0) sym_assert(d == ML_unit, "empty C data");
  else { sym_assert(OBJ_DESC(d) == MAKE_DESC((n + 7) / 8, DTAG_raw64), "C data descriptor"); fresh(d, (n + 7) / 8); for (long i = 0; i < n; i++) sym_assert(PTR_MLtoC(unsigned char, d)[i] == b[i], "C data contents");
    ml_val_t e = ML_AllocCData(msp, n); sym_assert(OBJ_DESC(e) == MAKE_DESC((n + 7) / 8, DTAG_raw64), "C data descriptor"); }
  Word_t w = sym_bits(64); sym_assert(*PTR_MLtoC(Word_t, ML_AllocWord64(msp, w)) == w, "boxed word");
  sym_cover("done");
}
