//@use rt.inc
//@use cfun.inc
//@entry gcctl q=60 shards=16 depth=7 covers=done,gc,cache
//@entry counter q=60 shards=8 depth=6 covers=read,twice,reset
//@entry args q=40 shards=4 depth=5 covers=done,shift
//@entry rec q=60 shards=8 depth=6 covers=concat,refuse,unit
//@entry exec q=40 shards=2 depth=3 covers=done
//@entry info q=40 shards=2 depth=4 covers=known,unknown
//@entry prof q=60 shards=8 depth=6 covers=tick,off,refuse
//@entry fp q=40 shards=4 depth=4 covers=round,math
//@entry uncaught q=60 shards=8 depth=6 covers=int,str,other,trace
//@entry debug q=40 covers=done
//@entry collect q=40 covers=done
//@entry request q=60 shards=8 depth=6 covers=alloc,bind
//@bounds gcControl lists of 1 to 3 commands with any integer argument, two calls; 1 to 5 counted events; up to 3 arguments of 3 symbolic characters; records of 1 to 40 fields of any age; code objects of 1 to 5000 bytes; names of up to 13 symbolic characters; up to 4 profiling events; exceptions with names, values and traces of up to 2100 characters; requests for objects of 0 to 3000 elements
#define RT_OWN_DIE
#define CC_OWN_RUN
#define RT_OWN_SAYDEBUG
static int req, rq_n;
#include "cfun.inc"
#include <signal.h>
#include <sys/time.h>
#include <fenv.h>
#include <stdio.h>
#include "tags.h"
#include "profile.h"
#define RT "SMLNJ-RunT"
static char died[8192]; static int ndied, want_die; static void chk_die(void);
void Die(const char *f, ...) { va_list ap; va_start(ap, f); if (!want_die) sym_fail(f); vsnprintf(died, sizeof died, f, ap); va_end(ap); ndied++; chk_die(); sym_end(); }
static long sawroom; static int reqgc; static char said[64]; static int saying, nsaid; void SayDebug(const char *f, ...) { if (!saying) return; va_list ap; va_start(ap, f); vsnprintf(said, sizeof said, f, ap); va_end(ap); nsaid++; }
int H_restoreregs(ml_state_t *m) {
  if (cc_state == 0) { cc_state = 1; return reqgc ? REQ_GC : req ? req : REQ_CALLC; }
  sym_assert((Addr_t)m->ml_allocPtr <= (Addr_t)m->ml_heap->allocBase + m->ml_heap->allocSzB, "the runtime overran the allocation space");
  sawroom = (long)((Addr_t)HEAP_LIMIT(m->ml_heap) - (Addr_t)m->ml_allocPtr); cc_walk(m->ml_arg, 0);
  if (m->ml_closure == m->ml_exnCont) cc_exn = 1;
  else sym_assert(m->ml_pc == PTR_CtoML(cc_cont + 1) && m->ml_cont == PTR_CtoML(cc_cont + 1), "the runtime does not return to the continuation");
  cc_state = 2; return REQ_RETURN; }

static void gc(int l) { msp->ml_calleeSave[0] = cc_live; msp->ml_calleeSave[1] = msp->ml_calleeSave[2] = ML_unit; InvokeGC(msp, l); cc_live = msp->ml_calleeSave[0]; }
/* gcControl: each command, in order, does what it says; cells get the answers */
static const char *ops[] = { "DoGC", "SetVMCache", "NumGens", "NurserySize", "AllGC", "Messages", "LimitHeap", "SigThreshold", "nothing" };
static long ngc(int g) { gc_stats_t s; GetGCStats(msp, &s); return s.numGCs[g]; }
void entry_gcctl(void) { cc_init(); sc_reset(); long cache = 2;
  int calls = 1 + sym_choose(2);
  for (int c = 0; c < calls; c++) { int n = 1 + sym_choose(calls == 1 ? 3 : BOUND(1, 2)), op[3]; long x[3]; ml_val_t l = LIST_nil, cells = LIST_nil, before = msp->ml_varReg;
    for (int i = 0; i < n; i++) { op[i] = sym_choose(calls == 2 ? 2 : 9); x[i] = op[i] < 2 ? sym_choose(BOUND(5, 17)) - 1 : (long)sym_range(-3, 3000000000l); }
    for (int i = n - 1; i >= 0; i--) { ml_val_t s = ML_CString(msp, (char *)ops[op[i]]), r, cmd; REF_ALLOC(msp, r, INT_CtoML(x[i])); REC_ALLOC2(msp, cmd, s, r); LIST_cons(msp, l, cmd, l); LIST_cons(msp, cells, r, cells); }
    msp->ml_varReg = cells; int mess = GCMessages, unl = UnlimitedHeap; long th = msp->ml_vproc->vp_gcSigThreshold; long g0 = ngc(0), g[15]; for (int k = 0; k <= 5; k++) g[k] = ngc(k);
    cc_position(sym_choose(2)); ml_val_t v = cc_call(RT, "gcControl", l); no_exn("gcControl raised"); sym_assert(v == ML_unit, "gcControl result");
    cells = msp->ml_varReg; long lev = -1, gcs = 0, d;
    for (int i = 0; i < n; i++, cells = LIST_tl(cells)) { d = INT_MLtoC(DEREF(LIST_hd(cells)));
      switch (op[i]) {
      case 0: gcs++; { long L = x[i] < 0 ? 0 : x[i] > 5 ? 5 : x[i]; if (L > lev) lev = L; } sym_assert(d == x[i], "DoGC changed its argument"); sym_cover("gc"); break;
      case 1: sym_assert(d == cache, "SetVMCache does not give the previous setting"); cache = x[i] < 0 ? 0 : x[i] > MAX_NUM_GENS ? MAX_NUM_GENS : x[i]; sym_cover("cache"); break;
      case 2: sym_assert(d == 5, "NumGens"); break;
      case 3: sym_assert(d == 256 * ONE_K, "NurserySize"); break;
      case 4: gcs++; lev = 5; break;
      case 5: mess = x[i] > 0; break;
      case 6: unl = !(x[i] > 0); break;
      case 7: th = x[i] < 0 ? 0 : x[i]; break;
      default: sym_assert(d == x[i], "an unknown command changed its argument"); } }
    sym_assert(!GCMessages == !mess && !UnlimitedHeap == !unl, "Messages or LimitHeap set wrongly");
    if (!(th > 0x7fffffff)) sym_assert(msp->ml_vproc->vp_gcSigThreshold == th, "the signal threshold is set wrongly");
    sym_assert(ngc(0) - g0 >= gcs, "fewer collections than asked for"); sym_assert(ngc(0) - g0 <= gcs + 2, "more collections than asked for"); for (int k = 1; k <= lev; k++) sym_assert(ngc(k) > g[k], "a generation was not collected");
    if (lev < 1 && gcs == 0) sym_assert(ngc(1) == g[1], "a generation was collected unasked"); }
  sym_cover("done"); }

/* the counters: exactly what was allocated and collected since the last reset, however often they are read */
typedef ml_val_t (*cfn_t)(ml_state_t *, ml_val_t);
static cfn_t cfn(const char *lib, const char *fn) { ml_val_t b = BindCFun((char *)lib, (char *)fn); sym_assert(b != ML_unit, fn);
#ifdef INDIRECT_CFUNC
  return (cfn_t)PTR_MLtoC(cfunc_binding_t, b)->cfunc;
#else
  return (cfn_t)PTR_MLtoC(void, b);
#endif
}
void entry_counter(void) { cc_init(); long bytes = 0, big = 0, minor = 0, lv[6] = { 0 }; int reads = 0, ev = 1 + sym_choose(BOUND(4, 5)), upto = 0;
  ml_val_t (*rd)(ml_state_t *, ml_val_t) = cfn(RT, "gcCounterRead"), (*rs)(ml_state_t *, ml_val_t) = cfn(RT, "gcCounterReset");
#define CUR ((Addr_t)msp->ml_allocPtr - (Addr_t)msp->ml_heap->allocBase)
  for (int i = 0; i <= ev; i++) {
    switch (i == ev ? 4 : sym_choose(5)) {
    case 0: ML_Alloc3(msp, ML_unit, ML_unit, ML_unit); break;
    case 1: { long g0 = msp->ml_heap->numMinorGCs, c0 = CUR; ML_AllocRaw(msp, 600); if (msp->ml_heap->numMinorGCs != g0) sym_stop(); big += 601 * 8; bytes += 0 * c0; break; }
    case 2: { int L = sym_choose(3); bytes += CUR; minor++; for (int k = 1; k <= L; k++) lv[k]++; InvokeGC(msp, L); break; }
    case 3: { int full = sym_choose(2); msp->ml_arg = ML_unit; rs(msp, full ? ML_true : ML_false); bytes = -(long)CUR; big = minor = 0; for (int k = 0; k < 6; k++) lv[k] = 0; upto = 0; sym_cover("reset"); break; }
    default: { long b = bytes + CUR; ml_val_t r = rd(msp, ML_unit); sym_assert(is_rec(r, 6), "the counters are not a record of six"); long sc = INT_MLtoC(REC_SEL(r, 0)); sym_cover("read"); if (reads++) sym_cover("twice");
      long a = INT_MLtoC(REC_SEL(r, 1)) * sc, a1 = INT_MLtoC(REC_SEL(r, 3)) * sc; sym_assert(sc > 0 && a >= b && a < b + sc, "the bytes counted are not the bytes allocated in the nursery"); sym_assert(a1 >= big && a1 < big + sc, "the bytes counted are not the bytes allocated in the first generation");
      sym_assert(REC_SEL(r, 2) == OPTION_NONE, "a count of stores that is not kept"); ml_val_t l = REC_SEL(r, 5); if (minor == 0) sym_assert(l == LIST_nil, "collections counted that did not happen");
      for (int k = 0; minor && k < 6; k++) { long c = 0; if (l != LIST_nil) { c = INT_MLtoC(LIST_hd(l)); l = LIST_tl(l); } if (k == 0) sym_assert(c == minor, "minor collections miscounted"); else if (k < 2 || lv[k]) sym_assert(c >= lv[k] && c <= minor, "major collections miscounted"); }
      sym_assert(!minor || l == LIST_nil, "too many generations counted"); break; } } } }

static char as[3][8]; static long an[3]; static char *av[4];
static void is_list(ml_val_t l, int from, int n) { for (int i = from; i < n; i++) { sym_assert(isBOXED(l), "an argument is missing"); sym_assert(is_str(LIST_hd(l), as[i], an[i]), "another argument"); l = LIST_tl(l); } sym_assert(l == LIST_nil, "arguments too many"); }
void entry_args(void) { cc_init(); int n = sym_choose(4), k = sym_choose(4); for (int i = 0; i < n; i++) { an[i] = cc_sstr(as[i], i == 0 ? 3 : 1); av[i] = as[i]; } av[n] = NULL; char *raw[] = { "sml", "x", NULL }; MLCmdName = as[0]; if (!n) an[0] = cc_sstr(as[0], 3);
  CmdLineArgs = av; RawArgs = raw; for (int i = 0; i < k; i++) { ml_val_t v = cc_call(RT, "shiftArgv", ML_unit); no_exn("shiftArgv raised"); sym_assert(v == ML_unit, "shiftArgv result"); if (i < n) sym_cover("shift"); }
  cc_position(sym_choose(3)); ml_val_t v = cc_call(RT, "argv", ML_unit); no_exn("argv raised"); is_list(v, k < n ? k : n, n);
  v = cc_call(RT, "rawArgv", ML_unit); no_exn("rawArgv raised"); sym_assert(isBOXED(v) && is_cstr(LIST_hd(v), "sml"), "rawArgv"); v = LIST_tl(v); sym_assert(isBOXED(v) && is_cstr(LIST_hd(v), "x") && LIST_tl(v) == LIST_nil, "rawArgv is not the whole command line");
  v = cc_call(RT, "cmdName", ML_unit); no_exn("cmdName raised"); sym_assert(is_str(v, as[0], an[0]), "another command name"); sym_cover("done"); }

static ml_val_t mkrec(long n, ml_val_t *w) { ML_AllocWrite(msp, 0, MAKE_DESC(n, DTAG_record)); for (long i = 0; i < n; i++) ML_AllocWrite(msp, i + 1, w[i] = INT_CtoML(sym_bits(63))); return ML_Alloc(msp, n); }
void entry_rec(void) { cc_init(); static const long ns[] = { 1, 2, 3, 5, 40 }; ml_val_t w[2][40], r[2]; long n[2]; int bad = 0, same_ = 0;
  if (sym_choose(8) == 0) { ml_val_t o = sym_choose(2) ? INT_CtoML(sym_bits(63)) : mkrec(2, w[0]); msp->ml_varReg = ML_Alloc1(msp, o); cc_position(sym_choose(3)); ml_val_t v = cc_call(RT, "record1", o); no_exn("record1 raised"); sym_assert(is_rec(v, 1) && REC_SEL(v, 0) == REC_SEL(msp->ml_varReg, 0), "record1"); return; }
  for (int i = 0; i < 2; i++) { int k = sym_choose(9); n[i] = k < 5 ? ns[k] : 0;
    if (k < 5) r[i] = mkrec(n[i], w[i]); else if (k == 5) r[i] = ML_unit; else { bad++; if (k == 6) r[i] = INT_CtoML(5); else if (k == 7) r[i] = cc_str("abc", 3); else REF_ALLOC(msp, r[i], INT_CtoML(7)); }
    msp->ml_varReg = ML_Alloc2(msp, r[0], i ? r[1] : ML_unit); if (i == 0 && k >= 5 && k != 5) n[0] = -1;
    if (sym_choose(2)) { gc(sym_choose(3)); } r[0] = REC_SEL(msp->ml_varReg, 0); r[1] = REC_SEL(msp->ml_varReg, 1); }
  ml_val_t a = ML_Alloc2(msp, r[0], r[1]); cc_position(sym_choose(3)); ml_val_t v = cc_call(RT, "recordConcat", a); r[0] = REC_SEL(msp->ml_varReg, 0); r[1] = REC_SEL(msp->ml_varReg, 1);
  if (r[0] == ML_unit) { no_exn("recordConcat raised"); sym_assert(v == r[1], "concatenation with unit"); sym_cover("unit"); }
  else if (r[1] == ML_unit) { no_exn("recordConcat raised"); sym_assert(v == r[0], "concatenation with unit"); }
  else if (bad) { is_msgerr(); sym_cover("refuse"); }
  else { no_exn("recordConcat raised"); sym_assert(is_rec(v, n[0] + n[1]), "the concatenation has another length"); for (long i = 0; i < n[0]; i++) sym_assert(REC_SEL(v, i) == w[0][i] && REC_SEL(r[0], i) == w[0][i], "a field of the first record"); for (long i = 0; i < n[1]; i++) sym_assert(REC_SEL(v, n[0] + i) == w[1][i] && REC_SEL(r[1], i) == w[1][i], "a field of the second record"); if (n[0] + n[1] == 2) sym_assert(v != r[0], "not a new record"); sym_cover("concat"); } }

void entry_exec(void) { cc_init(); static const long ns[] = { 1, 8, 100, 5000 }; long n = ns[sym_choose(4)], e = sym_range(0, 4999); sym_assume(e < n); cc_position(sym_choose(3)); ml_val_t v = cc_call(RT, "allocCode", INT_CtoML(n)); no_exn("allocCode raised");
  sym_assert(isBOXED(v) && OBJ_DESC(v) == DESC_word8arr && REC_SEL(v, 1) == INT_CtoML(n), "the code object has another length"); char *q = PTR_MLtoC(char, REC_SEL(v, 0)); sym_assert(sym_valid(q, n), "the code object is not backed by memory"); q[0] = 1; q[n - 1] = 2;
  msp->ml_varReg = v; if (sym_choose(2)) gc(1 + sym_choose(2)); v = msp->ml_varReg; ml_val_t a = ML_Alloc2(msp, v, INT_CtoML(e)); ml_val_t f = cc_call(RT, "mkExec", a); no_exn("mkExec raised"); sym_assert(is_rec(f, 1), "mkExec makes no closure"); sym_assert(REC_SEL(f, 0) == PTR_CtoML(q + e), "the closure does not start at the entry point");
  sym_assert(q[n - 1] == 2 && REC_SEL(msp->ml_varReg, 0) == PTR_CtoML(q), "code was changed or moved"); sym_cover("done"); }

static const char *inf[][2] = { { "OS_NAME", "Linux" }, { "OS_VERSION", "<unknown>" }, { "HEAP_SUFFIX", "amd64-linux" }, { "ARCH_NAME", "AMD64" }, { "HAS_SOFT_POLL", "NO" }, { "HAS_MP", "NO" } };
void entry_info(void) { cc_init(); char b[16]; long n; int k = sym_choose(7); if (k < 6) { strcpy(b, inf[k][0]); n = strlen(b); if (sym_choose(2)) { int j = sym_choose(n); b[j] = (char)sym_bits(8); sym_assume(b[j] != 0); } } else n = cc_sstr(b, 13);
  ml_val_t a = cc_str(b, n); cc_position(sym_choose(3)); ml_val_t v = cc_call(RT, "sysInfo", a); no_exn("sysInfo raised"); int is = -1; for (int i = 0; i < 6; i++) if (strcmp(inf[i][0], b) == 0) is = i;
  if (is < 0) { sym_assert(v == OPTION_NONE, "an unknown item is answered"); sym_cover("unknown"); } else { sym_assert(is_some(v) && is_cstr(REC_SEL(v, 0), inf[is][1]), "another answer to sysInfo"); sym_cover("known"); } }

/* profiling */
static struct sigaction act[65]; static struct itimerval itv; static int nitv; static long ret;
int H_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (o) *o = act[s]; if (a) act[s] = *a; return 0; }
int H_sigfillset(sigset_t *s) { memset(s, 255, sizeof *s); return 0; }
int H_sigemptyset(sigset_t *s) { memset(s, 0, sizeof *s); return 0; }
int H_setitimer(int w, const struct itimerval *n, struct itimerval *o) { sc_add("setitimer", w, 0, 0, 0); itv = *n; nitv++; return sc_fail(ret); }
#define PF "SMLNJ-Prof"
void entry_prof(void) { cc_init(); sc_reset(); Word_t m[2][4]; int cur = -1; ml_val_t arr[2]; int nr = NumCRoots; if (BindCFun(PF, "setTimeArray") == ML_unit) sym_fail("no SMLNJ-Prof");
  for (int k = 0; k < 2; k++) { ml_val_t d = ML_AllocRaw(msp, 4); for (int i = 0; i < 4; i++) PTR_MLtoC(Word_t, d)[i] = m[k][i] = sym_bits(64); SEQHDR_ALLOC(msp, arr[k], DESC_word8arr, d, 4); }
  msp->ml_varReg = ML_Alloc2(msp, arr[0], arr[1]); int ev = 1 + sym_choose(BOUND(3, 4)); ml_val_t v;
  for (int e = 0; e < ev; e++) switch (sym_choose(5)) {
    case 0: { int k = sym_choose(2); ml_val_t o, a = REC_SEL(msp->ml_varReg, k); OPTION_SOME(msp, o, a); v = cc_call(PF, "setTimeArray", o); no_exn("setTimeArray raised"); sym_assert(v == ML_unit, "setTimeArray result"); cur = k; break; }
    case 1: v = cc_call(PF, "setTimeArray", OPTION_NONE); no_exn("setTimeArray raised"); cur = -1; sym_assert(act[SIGVTALRM].sa_handler == SIG_DFL, "profiling signals are still handled"); sym_cover("off"); break;
    case 2: { sc_n = 0; ret = sym_range(-1, 0); int on = sym_choose(2); v = cc_call(PF, "setTimer", on ? ML_true : ML_false); if (on && cur < 0) { is_msgerr(); sym_assert(sc_n == 0, "the timer was set without an array"); sym_cover("refuse"); break; }
      sc_t *c = sc_only("setitimer"); sym_assert(c->a[0] == ITIMER_VIRTUAL, "another timer"); long us = on ? PROFILE_QUANTUM_US : 0; sym_assert(itv.it_interval.tv_sec == 0 && itv.it_value.tv_sec == 0 && itv.it_interval.tv_usec == us && itv.it_value.tv_usec == us, "another profiling interval");
      if (ret < 0) is_syserr(); else no_exn("setTimer raised"); break; }
    case 3: gc(sym_choose(3)); break;
    default: if (cur < 0) break; { long i = sym_choose(4); ASSIGN(ProfCurrent, INT_CtoML(i)); sym_assert(act[SIGVTALRM].sa_sigaction != 0 && act[SIGVTALRM].sa_handler != SIG_IGN && act[SIGVTALRM].sa_handler != SIG_DFL, "profiling ticks are not handled"); act[SIGVTALRM].sa_sigaction(SIGVTALRM, NULL, NULL); m[cur][i]++; sym_cover("tick"); } }
  gc(1); for (int k = 0; k < 2; k++) { ml_val_t a = REC_SEL(msp->ml_varReg, k); sym_assert(OBJ_DESC(a) == DESC_word8arr, "the array was destroyed"); for (int i = 0; i < 4; i++) sym_assert(PTR_MLtoC(Word_t, REC_SEL(a, 0))[i] == m[k][i], "the counts are not the ticks"); }
  if (cur < 0) sym_assert(NumCRoots == nr, "a root was left behind or lost"); v = cc_call(PF, "getQuantum", ML_unit); sym_assert(v == INT_CtoML(PROFILE_QUANTUM_US), "another quantum"); }

/* floating point services */
static int rmode, rset; static const int modes[] = { FE_TONEAREST, FE_TOWARDZERO, FE_UPWARD, FE_DOWNWARD };
int H_fegetround(void) { return rmode; }
int H_fesetround(int m) { rmode = m; rset++; return 0; }
static double fa, fr; static int fc; static double fcall(int k, double x) { fc = k; fa = x; return fr; }
double H_cos(double x) { return fcall(0, x); } double H_sin(double x) { return fcall(1, x); } double H_exp(double x) { return fcall(2, x); } double H_log(double x) { return fcall(3, x); } double H_sqrt(double x) { return fcall(4, x); } double H_atan(double x) { return fcall(5, x); }
void entry_fp(void) { cc_init(); int k = sym_choose(2), i = sym_choose(4); ml_val_t v, o; 
  if (k == 0) { rmode = modes[sym_choose(4)]; o = OPTION_NONE; int set = sym_choose(2); if (set) OPTION_SOME(msp, o, INT_CtoML(i)); int was = rmode; cc_position(sym_choose(3)); v = cc_call("SMLNJ-Math", "ctlRoundingMode", o); no_exn("ctlRoundingMode raised");
    if (set) sym_assert(rmode == modes[i] && rset == 1, "another rounding mode was set"); else { sym_assert(rmode == was && rset == 0, "asking for the rounding mode set it"); int j = 0; while (modes[j] != was) j++; sym_assert(v == INT_CtoML(j), "another rounding mode is reported"); } sym_cover("round"); }
  else { static const char *fn[] = { "cos64", "sin64", "exp64", "log64", "sqrt64", "atan64" }; int f = sym_choose(6); Word_t x = sym_bits(64), y = sym_bits(64), z; memcpy(&fr, &y, 8); fc = -1; double d; memcpy(&d, &x, 8); REAL64_ALLOC(msp, o, d); cc_position(sym_choose(3)); v = cc_call("SMLNJ-Math", fn[f], o); no_exn("a function raised");
    if (f == 4 && fc < 0) return; sym_assert(fc == f, "another function"); memcpy(&z, &fa, 8); sym_assert(z == x, "another argument"); sym_assert(isBOXED(v) && OBJ_DESC(v) == DESC_reald, "no real number"); memcpy(&z, PTR_MLtoC(char, v), 8); sym_assert(z == y, "another result"); sym_cover("math"); } }

/* an exception that nothing handles ends the program with its name and value */
static const char *xname; static char xval[2200]; static int xk;
static char *has(char *s, const char *p, long n) { for (; *s; s++) if (strncmp(s, p, n) == 0) return s; return NULL; }
static void chk_die(void) { sym_assert(has(died, xname, strlen(xname)) != NULL, "the name of the exception is not reported"); long n = strlen(xval); if (xk < 2) sym_assert(has(died, xval, n > 200 ? 200 : n) != NULL, "the value of the exception is not reported"); }
void entry_uncaught(void) { cc_init(); want_die = 1; static const long ls[] = { 0, 5, 900, 1019, 1022, 1023, 2100 }; static const char *nm[] = { "Fail", "A_long_name_of_an_exception_that_goes_on_and_on" }; xname = nm[sym_choose(2)]; xk = sym_choose(3); ml_val_t v;
  if (xk == 0) { long x = sym_choose(2) ? 42 : -7; snprintf(xval, 40, "%ld", x); v = INT_CtoML(x); sym_cover("int"); } else if (xk == 1) { long n = ls[sym_choose(7)]; memset(xval, 'v', n); xval[n] = 0; v = cc_str(xval, n); sym_cover("str"); } else { v = ML_Alloc3(msp, ML_unit, ML_unit, ML_unit); sym_cover("other"); }
  ml_val_t tr = LIST_nil; int nt = sym_choose(3); for (int i = 0; i < nt; i++) { char t[2200]; long n = ls[1 + sym_choose(6)]; memset(t, 't', n); t[n] = 0; ml_val_t s = cc_str(t, n); LIST_cons(msp, tr, s, tr); sym_cover("trace"); }
  ml_val_t name = cc_str(xname, strlen(xname)), id, e; REF_ALLOC(msp, id, name); EXN_ALLOC(msp, e, id, v, tr); req = REQ_EXN; cc_state = 0; msp->ml_arg = e; RunML(msp); sym_fail("an uncaught exception is ignored"); }

/* requests of ML code */
void entry_request(void) { cc_init(); static const long ns[] = { 1, 2, 8, 9, 511, 512, 3000 }; int k = sym_choose(6); long n = ns[sym_choose(7)]; cc_cont[0] = MAKE_DESC(1, DTAG_record); cc_cont[1] = PTR_CtoML(rt_exn_code + 2); Word_t x = sym_bits(63); static const int rq[] = { REQ_ALLOC_STRING, REQ_ALLOC_BYTEARRAY, REQ_ALLOC_REALDARRAY, REQ_ALLOC_ARRAY, REQ_ALLOC_VECTOR, REQ_BIND_CFUN }; req = rq[k]; ml_val_t a = INT_CtoML(n), l = LIST_nil;
  if (k == 3) a = ML_Alloc2(msp, a, INT_CtoML(x)); else if (k == 4) { n = 1 + sym_choose(4); for (long i = n - 1; i >= 0; i--) LIST_cons(msp, l, INT_CtoML(x + i), l); a = ML_Alloc2(msp, INT_CtoML(n), l); }
  else if (k == 5) { int g = sym_choose(4); a = ML_Alloc2(msp, ML_CString(msp, g == 1 ? "none" : RT), ML_CString(msp, g == 2 ? "none" : g == 3 ? "argv" : "record1")); n = g; }
  msp->ml_calleeSave[0] = cc_live; msp->ml_calleeSave[1] = msp->ml_calleeSave[2] = ML_unit; msp->ml_arg = a; msp->ml_cont = PTR_CtoML(cc_cont + 1); msp->ml_closure = ML_unit; msp->ml_exnCont = PTR_CtoML(rt_exn_cont + 1); cc_state = 0; cc_position(sym_choose(3)); RunML(msp); ml_val_t v = msp->ml_arg; no_exn("a request raised");
  sym_assert(isBOXED(msp->ml_calleeSave[0]) && REC_SEL(msp->ml_calleeSave[0], 0) == cc_liveval, "a request disturbed another object");
  if (k == 5) { sym_assert(v == (n == 1 || n == 2 ? ML_unit : BindCFun(RT, n == 3 ? "argv" : "record1")), "another function is bound"); sym_assert((v == ML_unit) == (n == 1 || n == 2), "binding"); sym_cover("bind"); return; }
  ml_val_t ds[] = { DESC_string, DESC_word8arr, DESC_real64arr, DESC_polyarr, DESC_polyvec }; sym_assert(isBOXED(v) && OBJ_DESC(v) == ds[k] && REC_SEL(v, 1) == INT_CtoML(n), "another object than asked for"); ml_val_t *q = PTR_MLtoC(ml_val_t, REC_SEL(v, 0));
  sym_assert(sym_valid(q, k < 2 ? n : n * 8), "the object is not backed by memory"); if (k == 3) sym_assert(q[0] == INT_CtoML(x) && q[n / 2] == INT_CtoML(x) && q[n - 1] == INT_CtoML(x), "the elements"); if (k == 4) for (long i = 0; i < n; i++) sym_assert(q[i] == INT_CtoML(x + i), "the elements"); sym_cover("alloc"); }
/* a debug message comes out as it is */
void entry_debug(void) { cc_init(); char b[8]; int n = 1 + sym_choose(4); for (int i = 0; i < n; i++) { static const char cs[] = "%sdnx5"; b[i] = cs[sym_choose(6)]; } b[n] = 0; cc_position(sym_choose(3)); saying = 1; nsaid = 0; ml_val_t v = cc_call(RT, "debug", cc_str(b, n)); saying = 0; no_exn("a debug message raised"); sym_assert(v == ML_unit && nsaid == 1 && strcmp(said, b) == 0, "a debug message is not printed as it is"); sym_cover("done"); }
/* a program that runs out of space is given space, with everything it holds */
static vproc_state_t vp0;
void entry_collect(void) { cc_init(); memset(&vp0, 0, sizeof vp0); vp0.vp_state = msp; msp->ml_vproc = &vp0; cc_cont[0] = MAKE_DESC(1, DTAG_record); cc_cont[1] = PTR_CtoML(rt_exn_code + 2); Word_t x = sym_bits(63); int n = sym_choose(2) ? 40 : 3; ml_val_t l = LIST_nil; for (int i = 0; i < n; i++) LIST_cons(msp, l, INT_CtoML(x + i), l);
  reqgc = 1; msp->ml_calleeSave[0] = cc_live; msp->ml_calleeSave[1] = msp->ml_calleeSave[2] = ML_unit; msp->ml_arg = l; msp->ml_cont = PTR_CtoML(cc_cont + 1); msp->ml_closure = ML_unit; msp->ml_linkReg = msp->ml_pc = PTR_CtoML(cc_cont + 1); msp->ml_exnCont = PTR_CtoML(rt_exn_cont + 1); cc_state = 0; msp->ml_allocPtr = (ml_val_t *)(((Addr_t)HEAP_LIMIT(msp->ml_heap) & ~(Addr_t)7) + 8 * sym_choose(4)); sawroom = 0; RunML(msp); no_exn("running out of space raised");
  sym_assert(sawroom >= 8 * ONE_K, "a program that needs space is resumed without any"); l = msp->ml_arg; for (int i = n - 1; i >= 0; i--, l = LIST_tl(l)) sym_assert(isBOXED(l) && LIST_hd(l) == INT_CtoML(x + i), "a program loses its data"); sym_assert(l == LIST_nil && REC_SEL(msp->ml_calleeSave[0], 0) == cc_liveval, "a program loses its data"); sym_cover("done"); }
