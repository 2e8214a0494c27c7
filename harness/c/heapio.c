//@use rt.inc
//@entry export q=120 shards=16 depth=8 covers=done,failed,repaired
//@entry image q=120 shards=16 depth=8 covers=done,resumed
//@entry bigs q=90 shards=8 depth=6 covers=done
//@entry damaged q=90 shards=8 depth=6 covers=refused,whole
//@entry fun q=90 shards=8 depth=5 covers=started,exitfail
//@entry full q=60 shards=4 depth=2 covers=done steps=60000000
//@entry symbols q=60 covers=done
//@entry names q=60 covers=ok,refused
//@bounds heaps of 2-5 generations holding up to 14 objects of every kind (pairs, records, refs, arrays, vectors, strings, reals, words, suspensions, weak pointers, code objects) in up to 4 generations, with references to C symbols, all contents symbolic; up to 24 code objects of 64 bytes to 70 KB; a failure of any one of the writes, seeks, flushes or of the close; an image cut at any of 12 places or with any one of the header words changed; names of up to 1100 characters
#define CC_OWN_RUN
#define RT_DIED
#include "cfun.inc"
#include "shadow.inc"
#include <stdio.h>
#include <sys/stat.h>
#include "c-globals-tbl.h"
#include "ml-heap-image.h"
#include "memory.h"
#include "heap-io.h"
extern ml_val_t array_v[], unlock_v[];
/* the file: a buffer; one operation may fail */
#define FCAP (3 << 20)
static char *fbuf; static long fpos, flen; static int fopened, fclosed, fwr; static char fname[1200];
enum { OK, WRITE, SEEK, FLUSH, CLOSE }; static int fail_op, fail_at, fail_n, lost;
static int failing(int op) { if (fail_op == op && fail_n++ == fail_at) { lost = 1; errno = 28; return 1; } return 0; }
FILE *H_fopen(const char *n, const char *m) { sym_assert(!fopened, "the image is opened twice"); if (m[0] == 'r' && strcmp(n, fname) != 0) return NULL;
  if (m[0] == 'w') sym_assert(strlen(n) < 1150, "name too long"); fopened = 1; fclosed = 0; fpos = 0; fwr = m[0] == 'w'; if (fwr) { if (!fbuf) fbuf = malloc(FCAP); flen = 0; strcpy(fname, n); } return (FILE *)(void *)&fopened; }
size_t H_fwrite(const void *p, size_t s, size_t n, FILE *f) { long k = s * n; sym_assert(fopened && fwr, "write to a file that is not open"); if (failing(WRITE)) return 0; sym_assert(fpos + k <= FCAP, "the image is larger than expected");
  if (fpos > flen) memset(fbuf + flen, 0, fpos - flen); memcpy(fbuf + fpos, p, k); fpos += k; if (fpos > flen) flen = fpos; return n; }
size_t H_fread(void *p, size_t s, size_t n, FILE *f) { long k = s * n; sym_assert(fopened && !fwr, "read from a file that is not open"); if (fpos + k > flen) k = fpos > flen ? 0 : flen - fpos; memcpy(p, fbuf + fpos, k); fpos += k; return k / s; }
int H_fseek(FILE *f, long o, int w) { sym_assert(fopened, "seek on a closed file"); if (failing(SEEK)) return -1; fpos = w == SEEK_SET ? o : w == SEEK_END ? flen + o : fpos + o; return 0; }
long H_ftell(FILE *f) { return fpos; }
int H_fflush(FILE *f) { if (f == (FILE *)(void *)&fopened && failing(FLUSH)) return -1; return 0; }
int H_fclose(FILE *f) { sym_assert(fopened, "a file is closed twice"); fopened = 0; fclosed = 1; if (fwr && failing(CLOSE)) return -1; return 0; }
int H_ferror(FILE *f) { return 0; }
int H_feof(FILE *f) { return 1; }
/* calling a C function whose continuation is in the heap */
int H_restoreregs(ml_state_t *m) { if (cc_state == 0) { cc_state = 1; return REQ_CALLC; } cc_exn = m->ml_closure == m->ml_exnCont; cc_state = 2; return REQ_RETURN; }
static void hx_call(const char *fn, ml_val_t arg) { ml_val_t b = BindCFun("SMLNJ-RunT", (char *)fn); sym_assert(b != ML_unit, fn); cc_state = 0; msp->ml_arg = ML_Alloc2(msp, b, arg); RunML(msp); }
static ml_val_t ext(int i) { switch (i) { case 0: return BindCFun("SMLNJ-RunT", "argv"); case 1: return PTR_CtoML(SysErrId); case 2: return ML_vector0; case 3: return BindCFun("POSIX-IO", "read"); case 4: return ML_string0; default: return PTR_CtoML(handle_v + 1); } }
static void hx_init(int gens) { RecordGlobals(); InitCFunList(); rt_init(256 * ONE_K, gens); AllocGlobals(msp); msp->ml_exnCont = PTR_CtoML(handle_v + 1); sh_reset(); fail_op = OK; }
static void setfield(int o, int f, ml_val_t w) { O[o].tgt[f] = -1; O[o].val[f] = w; ml_val_t *a = (O[o].kind == K_ARR || O[o].kind == K_VEC) ? PTR_MLtoC(ml_val_t, REC_SEL(O[o].addr, 0)) : PTR_MLtoC(ml_val_t, O[o].addr); a[f] = w; if (isMutable(O[o].kind)) ML_RecordUpdate(msp, a + f); }
/* the memory of the old process is gone */
static void old_gone(void) { heap_t *h = msp->ml_heap; for (int g = 0; g < h->numGens; g++) { if (h->gen[g]->toObj) MEM_FreeMemObj(h->gen[g]->toObj); if (h->gen[g]->fromObj) MEM_FreeMemObj(h->gen[g]->fromObj); }
  bigobj_region_t *n; for (bigobj_region_t *r = h->bigRegions; r; r = n) { n = r->next; MEM_FreeMemObj(r->memObj); } MEM_FreeMemObj(h->baseObj); }
static ml_state_t *reload(long alloc, int gens) { heap_params_t p; p.allocSz = alloc; p.numGens = gens; p.cacheGen = -1; char n[1200]; strcpy(n, fname); old_gone(); msp = ImportHeapImage(n, &p); sym_assert(!fopened, "the image is left open");
  sym_assert(msp->ml_heap->numGens >= gens, "the heap has fewer generations than asked for"); if (alloc) sym_assert(msp->ml_heap->allocSzB == alloc, "the heap's allocation space is not of the size asked for"); return msp; }
/* the root of the pervasives, the signal handler and the runtime unit, as further roots */
static int pervO, sigO; static ml_val_t pervV, sigV, unitV[4];
static void extra_roots(void) { pervO = sh_new(K_REC1, -1, -1); sigO = sh_new(K_REC3, -1, -1); pervV = O[pervO].val[0]; sigV = O[sigO].val[2]; *PTR_MLtoC(ml_val_t, PervStruct) = O[pervO].addr; ASSIGN(MLSignalHandler, O[sigO].addr); }
static void check_extra(void) { ml_val_t p = *PTR_MLtoC(ml_val_t, PervStruct), s = DEREF(MLSignalHandler), u = RunTimeCompUnit;
  sym_assert(isBOXED(p) && sym_valid(PTR_MLtoC(char, p) - 8, 16) && OBJ_DESC(p) == MAKE_DESC(1, DTAG_record) && REC_SEL(p, 0) == pervV, "the pervasive structure changed");
  sym_assert(isBOXED(s) && sym_valid(PTR_MLtoC(char, s) - 8, 32) && OBJ_DESC(s) == MAKE_DESC(3, DTAG_record) && REC_SEL(s, 2) == sigV, "the signal handler changed");
  sym_assert(isBOXED(u) && sym_valid(PTR_MLtoC(char, u) - 8, 16) && OBJ_DESC(u) == MAKE_DESC(1, DTAG_record), "the runtime unit changed"); u = REC_SEL(u, 0);
  sym_assert(isBOXED(u) && sym_valid(PTR_MLtoC(char, u) - 8, 13 * 8) && OBJ_DESC(u) == MAKE_DESC(12, DTAG_record) && REC_SEL(u, 1) == PTR_CtoML(DivId) && REC_SEL(u, 9) == PervStruct && REC_SEL(u, 11) == ML_vector0, "the runtime structure changed");
  ml_val_t r = REC_SEL(u, 0); sym_assert(isBOXED(r) && sym_valid(PTR_MLtoC(char, r) - 8, 13 * 8) && REC_SEL(r, 0) == PTR_CtoML(array_v + 1) && REC_SEL(r, 11) == PTR_CtoML(unlock_v + 1), "the vector of runtime entry points changed"); }
static void hx_check(void) { sh_check(); check_extra(); }
static void hx_gc(int l) { sh_gc(l); check_extra(); }
/* a graph with every arena and references to C symbols, spread over the generations */
static const int kinds[] = { K_PAIR, K_ARR, K_REF, K_WEAK, K_CODE, K_VEC, K_REC3, K_SUSP, K_STR, K_REALS, K_WORD };
static void graph(int k1, int k2, int g1, int g2, int e) {
  if (k2 == K_WEAK && k1 == K_CODE) sym_stop();                 /* ML code cannot make a weak pointer to a code object */
  sh_warm(6); extra_roots(); sh_root(1, sh_new(K_CODE, -1, -1));
  int x = sh_new(k1, -1, -1); if (!isRaw(k1) && k1 != K_WEAK) setfield(x, 0, ext(e)); sh_root(2, x);
  for (int i = 0; i < g1; i++) InvokeGC(msp, i + 1); sh_check();
  int y = sh_new(k2, x, -1); sh_root(3, y); int z = sh_new(K_REC3, y, x); setfield(z, 2, ext(e + 1)); sh_root(4, z);
  for (int i = 0; i < g2; i++) InvokeGC(msp, i + 1); sh_check();
  int w = sh_new(K_PAIR, z, -1); setfield(w, 1, ext((e + 2) % 6)); sh_root(5, w);
  if (isMutable(k1)) { if (e & 1) sh_store(x, 0, w); else sh_store(x, k1 == K_ARR ? 1 : 0, w); } }
static void pcs(void) { msp->ml_pc = msp->ml_cont; }
void entry_export(void) {
  int gens = 2 + sym_choose(2); hx_init(gens); int k1 = kinds[sym_choose(BOUND(5, 8))], k2 = kinds[sym_choose(BOUND(4, 11))], e = sym_choose(2) * 3;
  graph(k1, k2, sym_choose(gens + 1), sym_choose(2), e); check_extra();
  fail_op = sym_choose(5); fail_at = 0; fail_n = 0; lost = 0; if (fail_op == WRITE) { static const int at[] = { 0, 1, 2, 3, 4, 5, 6, 9, 14, 19, 24 }; fail_at = at[sym_choose(11)]; } if (fail_op == SEEK) { static const int at[] = { 0, 1, 3, 5 }; fail_at = at[sym_choose(4)]; }
  int h = sh_new(K_REC3, rootOf[1], rootOf[5]); msp->ml_exnCont = O[h].addr;
  hx_call("exportHeap", cc_str("im", 2));
  sym_assert(fclosed && !fopened, "the file of an image is left open");
  if (lost) { sym_cover("failed"); sym_assert(cc_exn, "an export is reported as successful although the image could not be written"); }
  else sym_assert(!cc_exn && msp->ml_arg == ML_false, "a successful export does not return false");
  rootOf[0] = rootOf[2] = -1; *reg(0) = *reg(2) = ML_unit;                    /* arg and closure belong to the call */
  if (cc_exn) for (int r = 0; r < NREG; r++) { rootOf[r] = -1; *reg(r) = ML_unit; }   /* a handler has its closure and nothing else */
  rootOf[0] = h; *reg(0) = msp->ml_exnCont; msp->ml_exnCont = PTR_CtoML(handle_v + 1);
  sh_check(); check_extra(); sym_cover("repaired"); hx_gc(0); hx_gc(gens); hx_gc(gens); sym_cover("done"); }
/* an image restores the same heap, and the computation goes on in it */
void entry_image(void) {
  int gens = 2 + sym_choose(2); hx_init(gens); int k1 = kinds[sym_choose(BOUND(8, 11))], k2 = kinds[sym_choose(BOUND(4, 11))], e = sym_choose(BOUND(2, 4)) * BOUND(2, 1);
  graph(k1, k2, sym_choose(gens + 1), sym_choose(gens + 1), e); msp->ml_linkReg = ML_unit; rootOf[7] = -1;
  hx_call("exportHeap", cc_str("im", 2)); no_exn("an export fails"); sym_assert(!lost && fname[0] == 'i', "another file is written");
  static const int ng[] = { 0, 0, 5 }; static const long al[] = { 0, 512 * 1024, 0 }; int v = sym_tier() ? sym_choose(3) : (k1 + k2 + e + nO) % 3;
  /* nothing of the old process is left */
  *PTR_MLtoC(ml_val_t, PervStruct) = ML_unit; ASSIGN(MLSignalHandler, ML_unit); RunTimeCompUnit = ML_unit;
  reload(al[v], ng[v]); if (!al[v]) sym_assert(msp->ml_heap->allocSzB == 256 * ONE_K, "the size of the allocation space is lost");
  sym_assert(msp->ml_arg == ML_true && msp->ml_exnCont == PTR_CtoML(handle_v + 1) && msp->ml_closure == ML_unit && msp->ml_pc == msp->ml_cont, "the saved computation would resume elsewhere or with another result"); sym_cover("resumed");
  rootOf[0] = -1; *reg(0) = ML_unit; rootOf[2] = -1; hx_check();
  /* the restored heap is a heap: it is mutated, collected and exported again */
  if (!isMutable(k1) || sym_choose(2)) for (int i = 0; i < nO; i++) if (isMutable(O[i].kind) && sh_reach[i]) { int n = sh_new(K_PAIR, -1, -1); sh_store(i, 0, n); }
  hx_gc(sym_choose(2)); if (gens > 2) hx_gc(gens - 1); hx_gc(gens); hx_gc(5); sym_cover("done"); }
/* code objects of several sizes, in several generations and regions, some of them dead */
static ml_val_t cobj[40]; static long clen[40]; static Word_t cmark[40]; static int nc;
static void lcheck(int every, int add) { ml_val_t l = msp->ml_varReg; int i = nc - 1; for (; i >= 0; i--) { if (i % every) continue; sym_assert(isBOXED(l) && sym_valid(PTR_MLtoC(char, l), 16), "a list of code objects is lost"); ml_val_t c = LIST_hd(l); l = LIST_tl(l);
    char *p = PTR_MLtoC(char, c) - (i & 1 ? 8 : 0); sym_assert(isBOXED(c) && sym_valid(p, clen[i]) && ((Word_t *)p)[0] == cmark[i] && ((Word_t *)p)[clen[i] / 8 - 1] == cmark[i], "a code object is lost"); cobj[i] = PTR_CtoML(p); } sym_assert(l == LIST_nil, "the list of code objects changed");
  for (i = 0; i < nc; i++) for (int j = 0; j < i; j++) if (i % every == 0 && j % every == 0) sym_assert((Addr_t)cobj[i] >= (Addr_t)cobj[j] + clen[j] || (Addr_t)cobj[j] >= (Addr_t)cobj[i] + clen[i], "code objects overlap"); }
static void cnew(long len) { cobj[nc] = ML_AllocCode(msp, len); clen[nc] = len; cmark[nc] = sym_bits(64); Word_t *p = PTR_MLtoC(Word_t, cobj[nc]); p[0] = p[len / 8 - 1] = cmark[nc]; msp->ml_varReg = ML_Alloc2(msp, PTR_CtoML((char *)p + (nc & 1 ? 8 : 0)), msp->ml_varReg); nc++; }
void entry_bigs(void) {
  hx_init(3); nc = 0; msp->ml_varReg = LIST_nil; static const long sz[] = { 64, 1024, 1032, 9000, 40000, 70000 }; extra_roots();
  int a = sym_choose(5), b = 1 + sym_choose(5), every = 1 + sym_choose(3), g = sym_choose(3), n = BOUND(12, 20);
  for (int i = 0; i < n; i++) { cnew(sz[i % 3 ? a : b]); if (i % 4 == 3) InvokeGC(msp, g); }
  ml_val_t keep = LIST_nil, l = msp->ml_varReg, tmp[40]; int m = 0; for (int i = nc - 1; i >= 0; i--) { if (i % every == 0) tmp[m++] = LIST_hd(l); l = LIST_tl(l); } while (m--) keep = ML_Alloc2(msp, tmp[m], keep); msp->ml_varReg = keep;
  lcheck(every, 0); InvokeGC(msp, sym_choose(4));
  hx_call("exportHeap", cc_str("im", 2)); no_exn("an export fails"); lcheck(every, 0); reload(0, 0); lcheck(every, 0); check_extra();
  InvokeGC(msp, 0); lcheck(every, 0); InvokeGC(msp, 3); lcheck(every, 0);
  int old = nc; for (int i = 0; i < 6; i++) { Word_t *p; long len = sz[(a + i) % 6]; ml_val_t c = ML_AllocCode(msp, len); for (int j = 0; j < old; j++) if (j % every == 0) sym_assert((Addr_t)c >= (Addr_t)cobj[j] + clen[j] || (Addr_t)cobj[j] >= (Addr_t)c + len, "a new code object overlaps a restored one"); p = PTR_MLtoC(Word_t, c); p[0] = p[len / 8 - 1] = 1; }
  lcheck(every, 0); InvokeGC(msp, 3); lcheck(every, 0); InvokeGC(msp, 3); lcheck(every, 0); sym_cover("done"); }
/* an image that is cut short or whose header is not that of an image is refused, never half loaded */
static int load;
void entry_damaged(void) {
  hx_init(2); graph(K_CODE, K_PAIR, sym_choose(3), 1, sym_choose(4)); msp->ml_linkReg = ML_unit; rootOf[7] = -1; hx_call("exportHeap", cc_str("im", 2)); no_exn("an export fails");
  int how = sym_choose(4); ml_image_hdr_t *h = (ml_image_hdr_t *)fbuf; int bad = 1; rt_die_ok = 1; load = 1;
  if (how == 0) { static const long cut[] = { 1, 8, 100, 1023, 4096, 8192, 12288 }; int c = sym_choose(12); long n = c < 7 ? flen - cut[c] : c == 7 ? 0 : c == 8 ? 4 : c == 9 ? (long)sizeof *h + 8 : c == 10 ? (long)(sizeof *h + sizeof(ml_heap_hdr_t)) + 3 : (long)(sizeof *h + sizeof(ml_heap_hdr_t)) + 30; if (n < 0) n = 0; flen = n; }
  else { Unsigned32_t v = sym_bits(32); if (how == 1) { bad = v != h->byteOrder; h->byteOrder = v; } else if (how == 2) { bad = v != h->magic; h->magic = v; } else { bad = v != EXPORT_HEAP_IMAGE && v != EXPORT_FN_IMAGE; sym_assume(v != EXPORT_FN_IMAGE); h->kind = v; } }
  reload(0, 0); sym_assert(!bad, "a damaged image is loaded"); rt_die_ok = 0; sym_cover("whole"); rootOf[0] = -1; *reg(0) = ML_unit; rootOf[2] = -1; hx_check(); }
static int fun_state, fun_g; static long fun_nargs; static char fun_args[3][8], *fun_argv[4];
static void fun_reload(void) {
  RunTimeCompUnit = ML_unit; ASSIGN(MLSignalHandler, ML_unit); static char *argv[4]; CmdLineArgs = argv; fun_nargs = sym_choose(3); for (int i = 0; i < fun_nargs; i++) { cc_sstr(fun_args[i], 3); argv[i] = fun_args[i]; } argv[fun_nargs] = NULL; MLCmdName = "cmd";
  reload(0, 0); sym_assert(msp->ml_exnCont == PTR_CtoML(handle_v + 1) && msp->ml_cont == PTR_CtoML(return_c) && msp->ml_pc == REC_SEL(msp->ml_closure, 0), "the exported function would not be called as a function");
  ml_val_t a = msp->ml_arg; sym_assert(isBOXED(a) && is_cstr(REC_SEL(a, 0), "cmd"), "the exported function is not given the command name"); a = REC_SEL(a, 1);
  for (int i = 0; i < fun_nargs; i++, a = LIST_tl(a)) sym_assert(isBOXED(a) && is_cstr(LIST_hd(a), fun_args[i]), "the exported function is not given its arguments"); sym_assert(a == LIST_nil, "the exported function is given more arguments");
  for (int r = 0; r < NREG; r++) { if (r != 2) { rootOf[r] = -1; *reg(r) = ML_unit; } } hx_check(); hx_gc(0); hx_gc(3); sym_cover("started"); }
static int in_fun;
void rt_died(void) { if (load) sym_cover("refused"); if (!in_fun) return; in_fun = 0;
  if (rt_exit_code == 0) { sym_assert(!lost, "the export of a function is reported as successful although the image could not be written"); sym_assert(!fopened, "the image is left open"); fun_reload(); sym_end(); }
  sym_assert(lost, "the export of a function fails"); sym_cover("exitfail"); sym_end(); }
void entry_fun(void) {
  hx_init(3); graph(kinds[sym_choose(4)], K_REF, sym_choose(3), sym_choose(2), sym_choose(3)); int c = sh_new(K_CODE, -1, -1), f = sh_new(K_REC3, c, rootOf[5]); sh_root(2, f);
  fail_op = sym_choose(5); fail_n = 0; lost = 0; fail_at = fail_op == WRITE ? sym_choose(4) * 5 : 0;
  in_fun = 1; rt_exit_code = -1; hx_call("exportFn", ML_Alloc2(msp, cc_str("im", 2), O[f].addr)); sym_fail("the export of a function returned"); }
/* the name of the image: the given one with the machine's suffix, whatever its length */
void entry_names(void) {
  hx_init(2); extra_roots(); static const int len[] = { 1, 12, 13, 14, 1009, 1010, 1011, 1012, 1023, 1024, 1025, 1100 }; int n = len[sym_choose(12)], suff = n >= 12 && sym_choose(2); char *b = malloc(1200);
  for (int i = 0; i < n; i++) b[i] = i < 40 || i > n - 5 ? (char)sym_range(33, 126) : 'x'; if (suff) memcpy(b + n - 12, ".amd64-linux", 12); b[n] = 0; 
  ml_val_t s = cc_str(b, n); hx_call("exportHeap", s);
  if (cc_exn) { sym_assert(n > 900, "a file name is refused"); sym_cover("refused"); return; }
  char w[1300]; strcpy(w, b); if (!(n > 13 && strcmp(b + n - 12, ".amd64-linux") == 0)) strcat(w, ".amd64-linux"); sym_assert(strcmp(fname, w) == 0, "the image is written under another name");
  sym_cover("ok"); if (n < 900) strcpy(fname, w); heap_params_t p; p.allocSz = 0; p.numGens = 0; p.cacheGen = -1; rt_die_ok = n > 900; msp = ImportHeapImage(b, &p); check_extra(); }
/* the restored heap has room: the allocation space is filled with live objects after the image is loaded */
void entry_full(void) {
  hx_init(3); graph(K_ARR, K_REF, 1, 1, 1); int k = sym_choose(4); long n; msp->ml_linkReg = ML_unit; rootOf[7] = -1; hx_call("exportHeap", cc_str("im", 2)); no_exn("an export fails"); reload(0, 0); Word_t v = 1000 + 7 * sym_choose(2);
  ml_val_t l = LIST_nil; for (n = 0; (char *)msp->ml_allocPtr + 100 < (char *)msp->ml_limitPtr; n++) { ml_val_t o;
    switch (k) { case 0: o = INT_CtoML(v + n); break; case 1: o = ML_Alloc3(msp, INT_CtoML(v), INT_CtoML(n), l); break; case 2: o = ML_AllocWord64(msp, v + n); break; default: o = ML_RefAlloc(msp, INT_CtoML(v + n)); } l = ML_Alloc2(msp, o, l); }
  for (int i = 0; i < 2; i++) { msp->ml_varReg = l; InvokeGC(msp, i == 1 ? 2 : 0); l = msp->ml_varReg; ml_val_t m = l; for (long j = n - 1; j >= 0; j--, m = LIST_tl(m)) { sym_assert(isBOXED(m) && sym_valid(PTR_MLtoC(char, m), 16), "a list made after the image was loaded is lost"); ml_val_t o = LIST_hd(m);
      if (k) sym_assert(isBOXED(o) && sym_valid(PTR_MLtoC(char, o) - 8, 16), "an object made after the image was loaded is lost"); 
      sym_assert(k == 0 ? o == INT_CtoML(v + j) : k == 1 ? REC_SEL(o, 1) == INT_CtoML(j) && REC_SEL(o, 2) == LIST_tl(m) : k == 2 ? WORD64_MLtoC(o) == v + j : DEREF(o) == INT_CtoML(v + j), "an object made after the image was loaded changed"); } sym_assert(m == LIST_nil, "a list made after the image was loaded grew"); }
  check_extra(); sym_cover("done"); }
/* any number of C symbols in any order */
static ml_val_t syms[200][2]; static char snames[200][8];
void entry_symbols(void) {
  hx_init(2); extra_roots(); static const int ns[] = { 1, 31, 32, 33, 63, 64, 65, 66, 127, 130, 170 }; int n = ns[sym_choose(11)], st = 1 + 2 * sym_choose(3), co = sym_choose(2); /* co: pairs of names with equal hash values */
  for (int i = 0; i < n; i++) { snames[i][0] = 's'; snames[i][1] = 'a' + i / 26; snames[i][2] = 'a' + i % 26; snames[i][3] = 0; if (co) { snames[i][0] = 'A' + 4 * (i & 1); snames[i][1] = 'a' + i / 52; snames[i][2] = 'a' + i / 2 % 26; snames[i][3] = 'p' - 15 * (i & 1); snames[i][4] = 0; } RecordCSymbol(snames[i], PTR_CtoML(syms[i])); }
  ml_val_t l = LIST_nil; for (int i = 0; i < n; i++) l = ML_Alloc2(msp, PTR_CtoML(syms[i * st % n]), l); for (int i = 0; i < n; i++) l = ML_Alloc2(msp, PTR_CtoML(syms[i]), l); msp->ml_varReg = l;
  hx_call("exportHeap", cc_str("im", 2)); no_exn("an export fails");
  for (int w = 0; w < 2; w++) { l = msp->ml_varReg; for (int i = n - 1; i >= 0; i--, l = LIST_tl(l)) sym_assert(isBOXED(l) && LIST_hd(l) == PTR_CtoML(syms[i]), "a C symbol changed"); for (int i = n - 1; i >= 0; i--, l = LIST_tl(l)) sym_assert(isBOXED(l) && LIST_hd(l) == PTR_CtoML(syms[i * st % n]), "a C symbol changed"); sym_assert(l == LIST_nil, "a list of C symbols changed"); check_extra(); if (!w) reload(0, 0); }
  sym_cover("done"); }
