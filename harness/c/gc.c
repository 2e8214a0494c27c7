//@use rt.inc
//@entry shape q=100 shards=32 depth=10 covers=done
//@entry oldcell q=90 shards=16 depth=7 covers=done
//@entry roots q=30 covers=done
//@entry history q=120 shards=24 depth=14 covers=done
//@entry aged q=100 shards=24 depth=12 covers=done
//@entry cards q=60 shards=8 depth=6 covers=done
//@entry extra q=30 covers=done
//@entry grow q=150 steps=2000000000 shards=24 depth=7 covers=done,major
//@bounds graphs of 3 objects of every kind with all pointer fields, cycles included; histories of 5 steps (allocation, store, drop, collection at levels 0-3) on new and aged cells in heaps of 3 to 5 generations; arrays up to 700 elements; up to 40 rounds of 30 KB and 6 rounds of 250 KB (a full nursery) of live data; all integer and raw words are arbitrary 63/64-bit values; nursery of 256 KB
#include "rt.inc"
#include "shadow.inc"

/* any small graph, any collection level, then a second collection */
void entry_shape(void) {
  RT_INIT(); sh_reset();
  int n = 3;
  for (int i = 0; i < n; i++) { static const int last[] = { K_PAIR, K_REF, K_VEC, K_REC3 }; int k = i == 2 && sym_tier() == 0 ? last[sym_choose(3)] : sym_choose(NKINDS - 1), t0 = -1, t1 = -1;
    if (! isRaw(k)) { t0 = sym_choose(i + 1) - 1; if (nFields(k) > 1) t1 = sym_choose(i + 1) - 1; }
    sh_new(k, t0, t1); }
  for (int i = 0; i < n; i++) if (isMutable(O[i].kind)) { if (sym_choose(2)) sh_store(i, 0, n - 1); }    /* cycles */
  sh_root(sym_choose(2), n - 1);
  if (n > 1) sh_root(5, sym_choose(n) - 1);
  sh_gc(sym_choose(4));
  sh_gc(1);
  sym_cover("done");
}
/* a cell of any age is made to point at an object of any age; later collections keep the object */
void entry_oldcell(void) {
  rt_init(256 * ONE_K, 3); sh_reset();
  static const int cells[] = { K_REF, K_ARR, K_SUSP };
  int c = sh_new(cells[sym_choose(3)], -1, -1); sh_root(0, c);
  if (sym_choose(2)) sh_warm(6);
  int na = sym_choose(BOUND(5, 7)); for (int i = 0; i < na; i++) sh_gc(BOUND(2, 1) + (i > 1));
  static const int tg[] = { K_PAIR, K_REC3, K_STR, K_REF, K_CODE, K_SUSP, K_VEC };
  int x = sh_new(tg[sym_choose(BOUND(5, 7))], -1, -1); sh_root(1, x);
  int nb = sym_choose(BOUND(3, 4)); for (int i = 0; i < nb; i++) sh_gc(i);
  sh_store(c, sym_choose(O[c].nf), x); sh_root(1, -1);
  int m = BOUND(2, 3); for (int i = 0; i < m; i++) sh_gc(sym_choose(BOUND(3, 4)));
  sh_new(K_PAIR, -1, -1); sh_gc(0);
  for (int i = 0; i < nO; i++) if (O[i].kind == K_CODE) { for (int k = 0; k < 3; k++) { ml_val_t n = ML_AllocCode(msp, 1024 + 1000 * k); memset(PTR_MLtoC(char, n), 0x5a, 1024); } sh_check(); break; }
  sym_cover("done");
}
/* every register the mutator may hold a pointer in */
void entry_roots(void) {
  RT_INIT(); sh_reset();
  int mask = 0;
  for (int r = 0; r < NREG; r++) sh_root(r, sh_new(r & 1 ? K_REC3 : K_PAIR, -1, -1));
  int age = sym_choose(4); for (int i = 0; i < age; i++) sh_gc(i);
  sh_gc(sym_choose(4));
  sym_cover("done");
}

/* any short history of allocations, stores, drops and collections */
void entry_history(void) {
  rt_init(256 * ONE_K, 3); sh_reset();
  sh_root(0, sh_new(K_REF, -1, -1)); sh_root(1, sh_new(K_ARR, -1, -1));
  int n = BOUND(5, 6);
  for (int s = 0; s < n; s++) {
    int op = sym_choose(9), t;
    switch (op) {
      case 0: case 1: case 2: case 3: sh_gc(op); break;
      case 4: if (nO == MAXOBJ) sym_stop(); t = sh_new(K_REC3, rootOf[0], rootOf[1]); sh_root(2, t); break;
      case 5: if (nO == MAXOBJ) sym_stop(); t = sh_new(K_REF, rootOf[2], -1); sh_root(2, rootOf[0]); sh_root(0, t); break;
      case 6: sh_store(rootOf[0], 0, rootOf[2] >= 0 ? rootOf[2] : rootOf[1]); break;
      case 7: if (rootOf[2] < 0) sym_stop(); sh_store(rootOf[1], sym_choose(2), rootOf[2]); sh_root(2, -1); break;
      case 8: if (nO == MAXOBJ) sym_stop(); sh_store(rootOf[1], 1, sh_new(K_PAIR, rootOf[0], -1)); break;
    } }
  sh_gc(1); sh_gc(2);
  sym_cover("done");
}
/* stores into any element of large arrays, in the nursery or allocated in the first generation */
void entry_cards(void) {
  rt_init(256 * ONE_K, 3); sh_reset();
  static const int lens[] = { 70, 513, 700 }; int len = lens[sym_choose(3)];
  ml_val_t v = INT_CtoML(sym_bits(63));
  ml_val_t a = ML_AllocArray(msp, len, v); msp->ml_arg = a;
  int na = sym_choose(5); for (int i = 0; i < na; i++) { InvokeGC(msp, i < 3 ? 1 : 2); }
  static const int pos[] = { 0, 1, 31, 32, 33, 63, 64, 69 }; int p = pos[sym_choose(8)], p2 = sym_choose(2) ? len - 1 : 40;
  ml_val_t x = INT_CtoML(sym_bits(63)), y = INT_CtoML(sym_bits(63));
  ml_val_t *d = PTR_MLtoC(ml_val_t, REC_SEL(msp->ml_arg, 0));
  d[p2] = ML_Alloc1(msp, y); ML_RecordUpdate(msp, d + p2);
  if (sym_choose(2)) InvokeGC(msp, 0);
  d = PTR_MLtoC(ml_val_t, REC_SEL(msp->ml_arg, 0));
  d[p] = ML_Alloc2(msp, x, y); ML_RecordUpdate(msp, d + p);
  int m = BOUND(2, 3); for (int i = 0; i < m; i++) InvokeGC(msp, sym_choose(3));
  a = msp->ml_arg; d = PTR_MLtoC(ml_val_t, REC_SEL(a, 0));
  sym_assert(OBJ_DESC(a) == DESC_polyarr && REC_SEL(a, 1) == INT_CtoML(len), "the header of a large array changed");
  sym_assert(sym_valid(d - 1, 8 * len + 8) && d[-1] == MAKE_DESC(len, DTAG_arr_data), "the data object of a large array changed");
  for (int i = 0; i < len; i++) if (i != p && i != p2) sym_assert(d[i] == v, "an element of a large array changed");
  sym_assert(isBOXED(d[p]) && REC_SEL(d[p], 0) == x && REC_SEL(d[p], 1) == y, "an object stored in an old array was lost");
  if (p2 != p) sym_assert(isBOXED(d[p2]) && REC_SEL(d[p2], 0) == y && OBJ_DESC(d[p2]) == MAKE_DESC(1, DTAG_record), "an object stored in an old array was lost");
  sym_assert(! inFree(PTR_MLtoC(ml_val_t, d[p]), 16), "an object stored in an old array lies in the free allocation space");
  sym_cover("done");
}
/* histories on cells that already are in an older generation */
void entry_aged(void) {
  rt_init(256 * ONE_K, BOUND(3, 4)); sh_reset();
  sh_root(0, sh_new(K_ARR, -1, -1));
  sh_root(1, sh_new(K_REF, -1, -1));
  if (sym_choose(2)) sh_warm(6);
  int age = 2 + 2 * sym_choose(2); for (int i = 0; i < age; i++) sh_gc(2);
  int pre = sym_choose(3); if (pre) { sh_store(rootOf[0], 1, sh_new(K_REC3, -1, -1)); for (int i = 0; i < pre; i++) sh_gc(1); }
  int n = BOUND(4, 5);
  for (int s = 0; s < n; s++) {
    int op = sym_choose(7);
    if (nO == MAXOBJ) sym_stop();
    switch (op) {
      case 0: case 1: case 2: sh_gc(op); break;
      case 3: sh_store(rootOf[0], 0, sh_new(K_PAIR, -1, -1)); break;
      case 4: sh_store(rootOf[0], 1, sh_new(K_REC3, -1, -1)); break;
      case 5: sh_store(rootOf[0], 0, -1); break;
      case 6: sh_store(rootOf[1], 0, O[rootOf[0]].tgt[1]); break;
    } }
  sh_gc(1); sh_gc(2);
  sym_cover("done");
}
/* extra roots of the runtime's own calls */
void entry_extra(void) {
  RT_INIT(); sh_reset();
  int a = sh_new(K_PAIR, -1, -1), b = sh_new(K_REC3, a, -1), c = sh_new(K_REF, b, -1);
  sh_root(3, c);
  int age = sym_choose(3); for (int i = 0; i < age; i++) sh_gc(1);
  ml_val_t r1 = O[b].addr, r2 = O[a].addr, r3 = INT_CtoML(5);
  if (sym_choose(2)) sh_root(3, -1);
  InvokeGCWithRoots(msp, sym_choose(4), &r1, &r2, &r3, NIL(ml_val_t *));
  for (int i = 0; i < nO; i++) seen[i] = 0;
  sh_reachable(); sh_visit(b, r1); sh_visit(a, r2); if (rootOf[3] >= 0) sh_visit(c, msp->ml_varReg);
  sym_assert(r3 == INT_CtoML(5), "an extra root changed");
  sym_assert((Addr_t)msp->ml_limitPtr - (Addr_t)msp->ml_allocPtr >= 200 * ONE_K, "the allocation space is not empty after a collection");
  sym_cover("done");
}
/* live data that outgrows the first generation: nothing is lost when arenas are resized and generations collected */
static long grow_cnt; static Word_t grow_mark;
static void grow_one(int kind) {      /* one more object, of up to 136 words, in front of the list in ml_arg */
  ml_val_t o = INT_CtoML(grow_cnt), *p = msp->ml_allocPtr;
  if (kind == 0) { p[0] = MAKE_DESC(63, DTAG_record); p[1] = INT_CtoML(grow_cnt); for (int i = 2; i < 63; i++) p[i] = ML_unit; p[63] = INT_CtoML(grow_mark); o = ML_Alloc(msp, 63); }
  else if (kind == 1) { ML_AllocWrite(msp, 0, MAKE_DESC(2, DTAG_record)); ML_AllocWrite(msp, 1, INT_CtoML(grow_cnt)); ML_AllocWrite(msp, 2, INT_CtoML(grow_mark)); o = ML_Alloc(msp, 2); }
  else { o = kind == 2 ? ML_AllocRaw(msp, 130) : ML_AllocArrayData(msp, 130, INT_CtoML(grow_mark)); PTR_MLtoC(ml_val_t, o)[0] = INT_CtoML(grow_cnt); PTR_MLtoC(ml_val_t, o)[129] = INT_CtoML(grow_mark); }
  LIST_cons(msp, msp->ml_arg, o, msp->ml_arg); grow_cnt++; }
static void grow_round(int kind, long bytes) {        /* allocate the given amount of live data, then collect */
  Addr_t end = (Addr_t)msp->ml_allocPtr + bytes, lim = (Addr_t)msp->ml_limitPtr - 1200; if (end > lim) end = lim;
  while ((Addr_t)msp->ml_allocPtr < end) grow_one(kind);
  InvokeGC(msp, 0); }
static void grow_verify(int kind) {
  ml_val_t l = msp->ml_arg; long n = grow_cnt; const int last[] = { 62, 1, 129, 129 };
  while (l != LIST_nil) { n--; ml_val_t o = LIST_hd(l);
    sym_assert(inLive(PTR_MLtoC(ml_val_t, l), 16) && inLive(PTR_MLtoC(ml_val_t, o), 8 * last[kind] + 8), "an object of a long list was lost");
    sym_assert(REC_SEL(o, 0) == INT_CtoML(n) && REC_SEL(o, last[kind]) == INT_CtoML(grow_mark), "an object of a long list changed");
    l = LIST_tl(l); }
  sym_assert(n == 0, "a long list was cut"); }
void entry_grow(void) {
  rt_init(256 * ONE_K, 3); sh_reset(); grow_mark = sym_bits(62); grow_cnt = 0;
  static const long amount[] = { 30, 128, 400 }; static const int times[] = { 1, 2, 25, 40 };
  int kind = sym_choose(4), a = sym_choose(3), t = a == 0 ? 1 + sym_choose(2) : a == 1 ? sym_choose(2) : 0, more = sym_choose(BOUND(3, 6)), drop = sym_choose(3);
  if (a == 0 && sym_tier()) t = sym_choose(4);
  msp->ml_arg = LIST_nil; int g0 = msp->ml_heap->gen[0]->numGCs;
  for (int r = 0; r < times[t]; r++) grow_round(kind, amount[a] * ONE_K);
  if (drop == 1) { msp->ml_arg = LIST_nil; grow_cnt = 0; }
  for (int r = 0; r < more; r++) grow_round(kind, 400 * ONE_K);
  if (drop == 2) { msp->ml_arg = LIST_nil; grow_cnt = 0; grow_round(kind, 400 * ONE_K); grow_round(kind, 400 * ONE_K); }
  if (msp->ml_heap->gen[0]->numGCs != g0) sym_cover("major");
  grow_verify(kind);
  sym_cover("done");
}
