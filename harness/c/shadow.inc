/* A shadow of the ML objects a harness builds: what the mutator last stored, and a comparison of the heap with it. */
enum { K_PAIR, K_REC1, K_REC3, K_REF, K_ARR, K_VEC, K_STR, K_REALS, K_SUSP, K_WORD, K_CODE, K_WEAK, NKINDS };
#ifndef MAXOBJ
#define MAXOBJ 18
#endif
#define CODESZ 3000
typedef struct { int kind, nf; int tgt[3]; ml_val_t val[3]; ml_val_t addr; int dead; } obj_t;   /* tgt: -1 for a word in val */
static obj_t O[MAXOBJ]; static int nO;
#define NREG 8
static ml_val_t *reg(int i) {
  switch (i) { case 0: return &msp->ml_arg; case 1: return &msp->ml_cont; case 2: return &msp->ml_closure; case 3: return &msp->ml_varReg;
    case 4: return &msp->ml_calleeSave[0]; case 5: return &msp->ml_calleeSave[1]; case 6: return &msp->ml_calleeSave[2]; default: return &msp->ml_linkReg; } }
static int rootOf[NREG];                        /* object in each register, -1 none */
static int isRaw(int k) { return k == K_STR || k == K_REALS || k == K_WORD || k == K_CODE; }
static int nFields(int k) { switch (k) { case K_PAIR: case K_ARR: case K_VEC: case K_REALS: case K_STR: return 2; case K_REC3: return 3; default: return 1; } }
static int isMutable(int k) { return k == K_REF || k == K_ARR || k == K_SUSP; }
static void sh_reset(void) { nO = 0; for (int i = 0; i < NREG; i++) { rootOf[i] = -1; *reg(i) = ML_unit; } }
static ml_val_t fw(obj_t *o, int i) { return o->tgt[i] < 0 ? o->val[i] : O[o->tgt[i]].addr; }
/* allocate the object described by o (its fields set) in the nursery, as the mutator and the runtime do */
static void sh_build(obj_t *o) {
  ml_val_t *p = msp->ml_allocPtr;
  switch (o->kind) {
    case K_PAIR: o->addr = ML_Alloc2(msp, fw(o, 0), fw(o, 1)); break;
    case K_REC1: o->addr = ML_Alloc1(msp, fw(o, 0)); break;
    case K_REC3: o->addr = ML_Alloc3(msp, fw(o, 0), fw(o, 1), fw(o, 2)); break;
    case K_REF: o->addr = ML_RefAlloc(msp, fw(o, 0)); break;
    case K_ARR: o->addr = ML_AllocArray(msp, 2, ML_unit); PTR_MLtoC(ml_val_t, REC_SEL(o->addr, 0))[0] = fw(o, 0); PTR_MLtoC(ml_val_t, REC_SEL(o->addr, 0))[1] = fw(o, 1); break;
    case K_VEC: { ml_val_t d; p[0] = MAKE_DESC(2, DTAG_vec_data); p[1] = fw(o, 0); p[2] = fw(o, 1); d = ML_Alloc(msp, 2); o->addr = ML_AllocSeqHdr(msp, DESC_polyvec, d, 2); break; }
    case K_STR: { ml_val_t s = ML_AllocString(msp, 11); ((Word_t *)PTR_MLtoC(Word_t, REC_SEL(s, 0)))[0] = (Word_t)o->val[0]; ((Word_t *)PTR_MLtoC(Word_t, REC_SEL(s, 0)))[1] = (Word_t)o->val[1]; o->addr = s; break; }
    case K_REALS: o->addr = ML_AllocRealdarray(msp, 2); PTR_MLtoC(Word_t, REC_SEL(o->addr, 0))[0] = (Word_t)o->val[0]; PTR_MLtoC(Word_t, REC_SEL(o->addr, 0))[1] = (Word_t)o->val[1]; break;
    case K_SUSP: p[0] = DESC_unevaled_susp; p[1] = fw(o, 0); o->addr = ML_Alloc(msp, 1); break;
    case K_WEAK: p[0] = DESC_weak; p[1] = fw(o, 0); o->addr = ML_Alloc(msp, 1); break;
    case K_WORD: o->addr = ML_AllocWord64(msp, (Unsigned64_t)o->val[0]); break;
    case K_CODE: o->addr = ML_AllocCode(msp, CODESZ); PTR_MLtoC(Word_t, o->addr)[0] = (Word_t)o->val[0]; PTR_MLtoC(Word_t, o->addr)[CODESZ / 8 - 1] = (Word_t)o->val[0]; break;
  } }
/* a new object of kind k whose fields are words; raw contents and integers are symbolic */
static int sh_new(int k, int t0, int t1) {
  obj_t *o = &O[nO]; o->kind = k; o->nf = nFields(k); o->dead = 0;
  for (int i = 0; i < o->nf; i++) { int t = isRaw(k) ? -1 : i == 0 ? t0 : i == 1 ? t1 : -1;
    o->tgt[i] = t; o->val[i] = isRaw(k) ? (ml_val_t)sym_bits(64) : INT_CtoML(sym_bits(63)); }
  sh_build(o); return nO++; }
static void sh_root(int r, int i) { rootOf[r] = i; *reg(r) = i < 0 ? ML_unit : O[i].addr; }
/* objects of every arena, kept alive throughout: the older generations then have all their arenas */
static void sh_warm(int r) { int s = sh_new(K_STR, -1, -1), p = sh_new(K_PAIR, s, -1), a = sh_new(K_ARR, -1, -1); sh_root(r, sh_new(K_REC3, p, a)); }
/* the mutator's store: cell.field := object t (or a new integer), with its store-list entry */
static void sh_store(int c, int f, int t) {
  obj_t *o = &O[c]; ml_val_t *a = o->kind == K_ARR ? PTR_MLtoC(ml_val_t, REC_SEL(o->addr, 0)) + f : PTR_MLtoC(ml_val_t, o->addr) + f;
  o->tgt[f] = t; if (t < 0) o->val[f] = INT_CtoML(sym_bits(63));
  *a = fw(o, f); ML_RecordUpdate(msp, a); }
static int seen[MAXOBJ];
static void sh_visit(int i, ml_val_t w);
static int sh_reach[MAXOBJ];
static void sh_mark(int i) { if (i < 0 || sh_reach[i]) return; sh_reach[i] = 1; if (O[i].kind == K_WEAK || isRaw(O[i].kind)) return; for (int f = 0; f < O[i].nf; f++) sh_mark(O[i].tgt[f]); }
static void sh_reachable(void) { for (int i = 0; i < nO; i++) sh_reach[i] = 0; for (int r = 0; r < NREG; r++) sh_mark(rootOf[r]); }
static int inFree(const void *p, long n) { Addr_t a = (Addr_t)p; return a + n > (Addr_t)msp->ml_allocPtr && a < (Addr_t)msp->ml_limitPtr; }
/* memory that belongs to live objects: the used part of the allocation space or of a generation's arena */
static int inLive(const void *q, long n) { Addr_t a = (Addr_t)q; heap_t *h = msp->ml_heap;
  if (a >= (Addr_t)h->allocBase && a + n <= (Addr_t)msp->ml_allocPtr) return 1;
  for (int g = 0; g < h->numGens; g++) for (int j = 0; j < NUM_ARENAS; j++) { arena_t *ap = h->gen[g]->arena[j]; if (isACTIVE(ap) && a >= (Addr_t)ap->tospBase && a + n <= (Addr_t)ap->nextw) return 1; }
  return 0; }
static void sh_words(obj_t *o, ml_val_t *p, int n) {
  for (int f = 0; f < n; f++) { if (o->tgt[f] < 0) sym_assert(p[f] == o->val[f], "a word of a reachable object changed"); else sh_visit(o->tgt[f], p[f]); } }
static void sh_block(ml_val_t *p, int n, ml_val_t desc, int hasDesc) {
  sym_assert(sym_valid(p - hasDesc, 8 * (n + hasDesc)), "a reachable object lies in memory given back to the system");
  sym_assert(! inFree(p, 8 * n), "a reachable object lies in the free allocation space");
  sym_assert(inLive(p - hasDesc, 8 * (n + hasDesc)), "a reachable object lies in space that is free for new objects");
  if (hasDesc) sym_assert(p[-1] == desc, "the descriptor of a reachable object changed"); }
static void sh_visit(int i, ml_val_t w) {
  obj_t *o = &O[i]; ml_val_t *p = PTR_MLtoC(ml_val_t, w);
  sym_assert(isBOXED(w), "a reachable pointer became a non-pointer");
  if (seen[i]) { sym_assert(o->addr == w, "sharing of a reachable object is lost"); return; }
  for (int j = 0; j < nO; j++) if (seen[j]) sym_assert(O[j].addr != w, "two objects became one");
  seen[i] = 1; o->addr = w;
  switch (o->kind) {
    case K_PAIR: sh_block(p, 2, 0, 0); sh_words(o, p, 2); break;
    case K_REC1: sh_block(p, 1, MAKE_DESC(1, DTAG_record), 1); sh_words(o, p, 1); break;
    case K_REC3: sh_block(p, 3, MAKE_DESC(3, DTAG_record), 1); sh_words(o, p, 3); break;
    case K_REF: sh_block(p, 1, DESC_ref, 1); sh_words(o, p, 1); break;
    case K_SUSP: sh_block(p, 1, DESC_unevaled_susp, 1); sh_words(o, p, 1); break;
    case K_ARR: case K_VEC: case K_STR: case K_REALS: {
      sh_block(p, 2, o->kind == K_ARR ? DESC_polyarr : o->kind == K_VEC ? DESC_polyvec : o->kind == K_STR ? DESC_string : DESC_real64arr, 1);
      sym_assert(p[1] == INT_CtoML(o->kind == K_STR ? 11 : 2), "the length of a sequence changed");
      ml_val_t *d = PTR_MLtoC(ml_val_t, p[0]); sym_assert(isBOXED(p[0]), "the data pointer of a sequence became a non-pointer");
      sh_block(d, 2, o->kind == K_VEC ? MAKE_DESC(2, DTAG_vec_data) : o->kind == K_ARR ? MAKE_DESC(2, DTAG_arr_data) : o->kind == K_STR ? MAKE_DESC(2, DTAG_raw) : MAKE_DESC(2, DTAG_raw64), o->kind != K_VEC);
      sh_words(o, d, 2); break; }
    case K_WORD: sh_block(p, 1, DESC_word64, 1); sh_words(o, p, 1); break;
    case K_CODE: sym_assert(sym_valid(p, CODESZ), "a reachable code object lies in memory given back to the system"); sym_assert(p[0] == o->val[0] && p[CODESZ / 8 - 1] == o->val[0], "a reachable code object changed"); break;
    case K_WEAK: {
      sh_block(p, 1, 0, 0); ml_val_t d = p[-1]; int t = o->tgt[0];
      if (t < 0) { sym_assert(d == DESC_weak && p[0] == o->val[0], "a weak pointer to an unboxed value changed"); break; }
      if (sh_reach[t]) { sym_assert(! o->dead && d == DESC_weak, "a weak pointer was cleared although its object is reachable"); sh_visit(t, p[0]); }
      else if (o->dead || d == DESC_null_weak) { sym_assert(d == DESC_null_weak && p[0] == ML_unit, "a cleared weak pointer is malformed"); o->dead = 1; sym_cover("cleared"); }
      else { sym_assert(d == DESC_weak, "a weak pointer is malformed"); sh_visit(t, p[0]); }
      break; }
  } }
static void sh_check(void) {
  sh_reachable();
  for (int i = 0; i < nO; i++) seen[i] = 0;
  for (int r = 0; r < NREG; r++) { if (rootOf[r] < 0) sym_assert(*reg(r) == ML_unit, "a register changed"); else sh_visit(rootOf[r], *reg(r)); } }
static void sh_gc(int level) {
  InvokeGC(msp, level);
  sym_assert(msp->ml_storePtr == ML_unit, "the store list survived a collection");
  sym_assert(sym_valid(msp->ml_allocPtr, (Addr_t)msp->ml_limitPtr - (Addr_t)msp->ml_allocPtr + 8 * ONE_K), "the allocation space is not backed by memory");
  sym_assert((Addr_t)msp->ml_limitPtr - (Addr_t)msp->ml_allocPtr >= 200 * ONE_K, "the allocation space is not empty after a collection");
  sh_check(); }
