//@use rt.inc
//@entry copy q=120 shards=16 depth=8 covers=done,copied
//@entry full q=60 shards=4 depth=3 covers=done steps=90000000
//@entry words q=30 covers=done
//@entry refuse q=60 covers=refused
//@entry bad q=60 shards=4 depth=4 covers=refused,whole
//@bounds values of up to 12 objects of every kind but code (pairs, records, refs, arrays, vectors, strings, reals, words, suspensions, weak pointers), with sharing and cycles, spread over up to 3 generations of heaps of 2-3 generations, with references to C symbols, all contents symbolic; lists that fill the first generation; a blasted image cut at 12 places or with any one header word changed
#define CC_OWN_RUN
#define MAXOBJ 44
#include "cfun.inc"
#include "shadow.inc"
#include "c-globals-tbl.h"
#include "ml-heap-image.h"
int H_restoreregs(ml_state_t *m) { if (cc_state == 0) { cc_state = 1; return REQ_CALLC; } cc_exn = m->ml_closure == m->ml_exnCont; cc_state = 2; return REQ_RETURN; }
static ml_val_t hx_call(const char *fn, ml_val_t arg) { ml_val_t b = BindCFun("SMLNJ-RunT", (char *)fn); sym_assert(b != ML_unit, fn); cc_state = 0; msp->ml_arg = ML_Alloc2(msp, b, arg); RunML(msp); ml_val_t r = msp->ml_arg; msp->ml_arg = msp->ml_closure = ML_unit; return r; }
static ml_val_t hcode[4];
static void hx_init(int gens) { RecordGlobals(); InitCFunList(); rt_init(256 * ONE_K, gens); AllocGlobals(msp); RecordCSymbol("cont", PTR_CtoML(hcode)); msp->ml_exnCont = PTR_CtoML(handle_v + 1); sh_reset(); }
static ml_val_t ext(int i) { switch (i % 5) { case 0: return BindCFun("SMLNJ-RunT", "argv"); case 1: return PTR_CtoML(SysErrId); case 2: return ML_vector0; case 3: return BindCFun("POSIX-IO", "read"); default: return ML_string0; } }
static void setfield(int o, int f, ml_val_t w) { O[o].tgt[f] = -1; O[o].val[f] = w; ml_val_t *a = (O[o].kind == K_ARR || O[o].kind == K_VEC) ? PTR_MLtoC(ml_val_t, REC_SEL(O[o].addr, 0)) : PTR_MLtoC(ml_val_t, O[o].addr); a[f] = w; if (isMutable(O[o].kind)) ML_RecordUpdate(msp, a + f); }
static const int kinds[] = { K_PAIR, K_ARR, K_REF, K_REC3, K_VEC, K_STR, K_SUSP, K_REALS, K_WORD, K_REC1 };
static int is_blob(ml_val_t s) { return isBOXED(s) && OBJ_DESC(s) == DESC_string && isBOXED(REC_SEL(s, 0)) && GET_TAG(OBJ_DESC(REC_SEL(s, 0))) == DTAG_raw && sym_valid(PTR_MLtoC(char, REC_SEL(s, 0)), GET_SEQ_LEN(s)); }
static int graph(int k1, int k2, int g1, int g2, int e) {
  sh_warm(6); int x = sh_new(k1, -1, -1); if (!isRaw(k1)) setfield(x, 0, ext(e)); sh_root(3, x);
  for (int i = 0; i < g1; i++) InvokeGC(msp, i + 1); sh_check();
  int y = sh_new(k2, x, -1), s = sh_new(K_STR, -1, -1), z = sh_new(K_REC3, y, s); setfield(z, 2, ext(e + 1)); sh_root(4, z); sh_root(5, s); sh_root(7, -1);
  for (int i = 0; i < g2; i++) InvokeGC(msp, i + 1); sh_check();
  int w = sh_new(K_PAIR, z, x); if (isMutable(k1)) sh_store(x, k1 == K_ARR ? 1 : 0, w); if (k2 == K_REF && (e & 1)) sh_store(y, 0, w);
  sh_root(3, -1); return w; }
static void cont(void) { msp->ml_cont = PTR_CtoML(hcode); rootOf[1] = -1; }
static void check(void) { ml_val_t c = msp->ml_cont; sym_assert(c == PTR_CtoML(hcode), "the continuation changed"); msp->ml_cont = ML_unit; sh_check(); msp->ml_cont = c; }
static void gc(int l) { InvokeGC(msp, l); check(); }
/* blasting out leaves the heap as it was; blasting in makes an equal value out of new objects */
void entry_copy(void) {
  int gens = 2 + sym_choose(2); hx_init(gens); int k1 = kinds[sym_choose(BOUND(4, 10))], k2 = kinds[sym_choose(BOUND(6, 10))], g1 = sym_choose(gens + 1), g2 = sym_choose(gens + 1), e = sym_choose(BOUND(2, 5));
  int w = graph(k1, k2, g1, g2, e); cont(); int keep = sym_choose(2); if (keep) sh_root(3, w); 
  ml_val_t b = hx_call("blastOut", O[w].addr); sym_assert(!cc_exn, "a value cannot be blasted"); sym_assert(is_blob(b), "the blasted value is not a vector of bytes");
  long n = GET_SEQ_LEN(b); char *img = malloc(n); memcpy(img, PTR_MLtoC(char, REC_SEL(b, 0)), n); check();
  int when = sym_choose(3); int bo = -1; if (when) { msp->ml_closure = b; ml_val_t c = msp->ml_cont; InvokeGC(msp, when == 1 ? 0 : gens); b = msp->ml_closure; msp->ml_closure = ML_unit; check(); sym_assert(is_blob(b) && GET_SEQ_LEN(b) == n && memcmp(PTR_MLtoC(char, REC_SEL(b, 0)), img, n) == 0, "the blasted value changed"); }
  if (when == 2) cc_fill();
  ml_val_t v = hx_call("blastIn", b); sym_assert(!cc_exn, "a blasted value cannot be read");
  int m = nO; for (int i = 0; i < m; i++) { O[m + i] = O[i]; for (int f = 0; f < O[i].nf; f++) if (O[i].tgt[f] >= 0) O[m + i].tgt[f] += m; } nO = 2 * m;
  rootOf[2] = m + w; msp->ml_closure = v; check(); sym_cover("copied");
  for (int i = 0; i < nO; i++) if (isMutable(O[i].kind) && seen[i] && (i >= m || keep)) { int q = sh_new(K_PAIR, -1, -1); sh_store(i, 0, q); if (nO >= MAXOBJ - 2) break; }
  gc(0); gc(1); gc(gens); gc(gens); sym_cover("done"); }
static ml_val_t mk(int k, Word_t v, long n, ml_val_t l) { switch (k) { case 0: return INT_CtoML(v + n); case 1: return ML_Alloc3(msp, INT_CtoML(v), INT_CtoML(n), l); case 2: return ML_AllocWord64(msp, v + n); default: return ML_RefAlloc(msp, INT_CtoML(v + n)); } }
/* a value as large as the space for the first generation, so that there is no room for notes on what to repair */
void entry_full(void) {
  hx_init(3); int w = graph(K_ARR, K_REF, 1, 1, sym_choose(2)), k = sym_choose(4); sh_root(3, w); long n; Word_t v = 1000;
  n = k == 0 ? 9000 : 3000; int old = sym_choose(2); ml_val_t l = LIST_nil; for (int j = 0; j < n; j++) { ml_val_t o = mk(k, v, j, l); l = ML_Alloc2(msp, o, l); }
  cont(); rootOf[5] = -1; msp->ml_calleeSave[1] = l; if (old) for (int i = 0; i < 4; i++) InvokeGC(msp, i < 2 ? 1 : 2); l = msp->ml_calleeSave[1];
  ml_val_t b = hx_call("blastOut", l); sym_assert(!cc_exn && is_blob(b), "a value cannot be blasted");
  msp->ml_closure = b; for (int i = 0; i < 4; i++) { if (i == 1) { if (k == 2) cc_fill(); ml_val_t x = msp->ml_closure; x = hx_call("blastIn", x); sym_assert(!cc_exn, "a blasted value cannot be read"); msp->ml_closure = x; } if (i == 2) { ml_val_t y = LIST_nil; for (int j = 0; (char *)msp->ml_allocPtr + 100 < (char *)msp->ml_limitPtr; j++) { ml_val_t o = mk(k, v, j, y); y = ML_Alloc2(msp, o, y); } msp->ml_linkReg = y; InvokeGC(msp, 0); msp->ml_linkReg = ML_unit; } if (i == 3) InvokeGC(msp, 2 + old);
    for (int c = 0; c < (i ? 2 : 1); c++) { ml_val_t m = c ? msp->ml_closure : msp->ml_calleeSave[1]; for (long j = n - 1; j >= 0; j--, m = LIST_tl(m)) { sym_assert(isBOXED(m) && sym_valid(PTR_MLtoC(char, m), 16), "a list is lost"); ml_val_t o = LIST_hd(m); if (k) sym_assert(isBOXED(o) && sym_valid(PTR_MLtoC(char, o) - 8, 16), "an object is lost");
        sym_assert(k == 0 ? o == INT_CtoML(v + j) : k == 1 ? REC_SEL(o, 1) == INT_CtoML(j) && REC_SEL(o, 2) == LIST_tl(m) : k == 2 ? WORD64_MLtoC(o) == v + j : DEREF(o) == INT_CtoML(v + j), "an object changed"); } sym_assert(m == LIST_nil, "a list grew"); }
    ml_val_t s5 = msp->ml_calleeSave[1], s2 = msp->ml_closure; msp->ml_calleeSave[1] = msp->ml_closure = ML_unit; check(); msp->ml_calleeSave[1] = s5; msp->ml_closure = s2; }
  sym_cover("done"); }
/* values that are not objects */
void entry_words(void) { hx_init(2); cont(); Word_t w = sym_bits(63); int e = sym_choose(3); ml_val_t x = e == 0 ? INT_CtoML(w) : e == 1 ? ext(sym_choose(5)) : sh_new(K_STR, -1, -1) * 0 + O[0].addr; 
  ml_val_t b = hx_call("blastOut", x); sym_assert(!cc_exn && is_blob(b), "a value cannot be blasted"); ml_val_t y = hx_call("blastIn", b); sym_assert(!cc_exn, "a blasted value cannot be read");
  if (e < 2) sym_assert(y == x, "another value is read"); else { rootOf[2] = 0; msp->ml_closure = y; check(); } sym_cover("done"); }
/* code cannot be blasted: that is reported, and the heap is as it was */
void entry_refuse(void) { int gens = 2 + sym_choose(2); hx_init(gens); int w = graph(kinds[sym_choose(3)], K_REF, sym_choose(3), sym_choose(2), 1), c = sh_new(K_CODE, -1, -1), r = sh_new(K_REC3, c, w); sh_root(3, r); int h = sh_new(K_REC3, c, r); msp->ml_exnCont = O[h].addr; msp->ml_cont = PTR_CtoML(hcode);
  int d = sym_choose(2); for (int i = 0; i < d; i++) InvokeGC(msp, 1); ml_val_t a = d ? REC_SEL(msp->ml_exnCont, 1) : O[r].addr; hx_call("blastOut", a); sym_assert(cc_exn, "code is blasted");
  for (int i = 0; i < NREG; i++) { rootOf[i] = -1; *reg(i) = ML_unit; } msp->ml_arg = msp->ml_exnCont; rootOf[0] = h; msp->ml_exnCont = PTR_CtoML(handle_v + 1); cont(); check(); gc(0); gc(gens); sym_cover("refused"); }
/* bytes that are not a blasted value are refused */
void entry_bad(void) { hx_init(2); int w = graph(K_ARR, K_REF, sym_choose(2), 1, 1); cont(); ml_val_t b = hx_call("blastOut", O[w].addr); long n = GET_SEQ_LEN(b); sym_assert(!cc_exn, "a value cannot be blasted"); ml_image_hdr_t *h = PTR_MLtoC(ml_image_hdr_t, REC_SEL(b, 0));
  int how = sym_choose(4), bad = 1; if (how == 0) { static const int cut[] = { 1, 8, 40, 100, 150, 200 }; int c = sym_choose(12); long l = c < 6 ? n - cut[c] : c == 6 ? 0 : c == 7 ? 4 : c == 8 ? (long)sizeof *h + 8 : c == 9 ? (long)(sizeof *h + sizeof(ml_blast_hdr_t)) : c == 10 ? (long)(sizeof *h + sizeof(ml_blast_hdr_t)) + 20 : n / 2; ml_val_t s = cc_str((char *)h, l); b = s; }
  else { Unsigned32_t v = sym_bits(32); if (how == 1) { bad = v != h->byteOrder; h->byteOrder = v; } else if (how == 2) { bad = v != h->magic; h->magic = v; } else { bad = v != BLAST_IMAGE; sym_assume(v != BLAST_UNBOXED); h->kind = v; } }
  ml_val_t x = hx_call("blastIn", b); if (bad) { sym_assert(cc_exn, "bytes that are no blasted value are accepted"); sym_cover("refused"); } else { sym_assert(!cc_exn, "a blasted value is refused"); sym_cover("whole"); } }
