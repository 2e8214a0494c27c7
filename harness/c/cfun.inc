/* Calling the C functions the way ML code does: bound by name, called through RunML with REQ_CALLC; the system calls they make are
 * stand-ins that log their arguments and return symbolic results. */
#define RT_OWN_RUN
#include "rt.inc"
#include "ml-request.h"
#include "c-library.h"
#include "tags.h"
static int cc_state, cc_exn, cc_errno;
#define PK_MAX 40
/* the last position from which RunML calls a C function without collecting first, and positions around it */
static void cc_position(int p) { Addr_t lim = (Addr_t)msp->ml_limitPtr - 8 * ONE_K;
  if (p == 1) msp->ml_allocPtr = (ml_val_t *)((lim & ~(Addr_t)7) - 32); else if (p == 2) msp->ml_allocPtr = (ml_val_t *)((lim & ~(Addr_t)7) + 64); }
/* use up the first generation's space for strings, so that a large allocation has to collect */
static void cc_fill(void) { for (int i = 0; i < 400; i++) { arena_t *ap = msp->ml_heap->gen[0]->arena[STRING_INDX]; if (AVAIL_SPACE(ap) <= msp->ml_heap->allocSzB + 4300) break; ML_AllocRaw(msp, 520); } }
static ml_val_t cc_live, cc_liveval;
static ml_val_t cc_cont[3];
/* no object reachable from a result may lie in the free part of the allocation space */
static void cc_walk(ml_val_t v, int depth) {
  for (;;) { if (! isBOXED(v)) return; Addr_t a = PTR_MLtoADDR(v), base = (Addr_t)msp->ml_heap->allocBase; if (a < base || a >= base + msp->ml_heap->allocSzB) return;
    sym_assert(a < (Addr_t)msp->ml_allocPtr, "a result refers to free space"); Word_t d = (Word_t)OBJ_DESC(v); if (! isDESC(d)) return; int t = GET_TAG(d); long n = t == DTAG_record ? (long)GET_LEN(d) : t == DTAG_vec_hdr || t == DTAG_arr_hdr ? 1 : 0; if (n == 0 || n > 64 || depth > 8) return;
    for (long i = 0; i < n - 1; i++) cc_walk(REC_SEL(v, i), depth + 1); v = REC_SEL(v, n - 1); } }
#ifndef CC_OWN_RUN
int H_restoreregs(ml_state_t *m) {
  if (cc_state == 0) { cc_state = 1; return REQ_CALLC; }
  sym_assert((Addr_t)m->ml_allocPtr <= (Addr_t)m->ml_heap->allocBase + m->ml_heap->allocSzB, "a C function overran the allocation space");
  cc_walk(m->ml_arg, 0);
  if (m->ml_closure == m->ml_exnCont) cc_exn = 1;
  else { sym_assert(m->ml_pc == PTR_CtoML(cc_cont + 1) && m->ml_cont == PTR_CtoML(cc_cont + 1), "a C call does not return to its continuation"); }
  cc_state = 2; return REQ_RETURN; }
#endif
/* call lib.fn(arg); the result, or the packet of the exception raised, is in msp->ml_arg afterwards */
static ml_val_t cc_call(const char *lib, const char *fn, ml_val_t arg) {
  ml_val_t b = BindCFun((char *)lib, (char *)fn); sym_assert(b != ML_unit, fn);
  cc_cont[0] = MAKE_DESC(1, DTAG_record); cc_cont[1] = PTR_CtoML(rt_exn_code + 2);
  cc_state = 0; cc_exn = 0;
  msp->ml_calleeSave[0] = cc_live; msp->ml_calleeSave[1] = msp->ml_calleeSave[2] = ML_unit;
  msp->ml_arg = ML_Alloc2(msp, b, arg); msp->ml_cont = PTR_CtoML(cc_cont + 1); msp->ml_closure = ML_unit; msp->ml_exnCont = PTR_CtoML(rt_exn_cont + 1);
  RunML(msp);
  cc_live = msp->ml_calleeSave[0]; sym_assert(isBOXED(cc_live) && REC_SEL(cc_live, 0) == cc_liveval, "a C call disturbed another object");
  return msp->ml_arg; }
static void cc_init(void) { RT_INIT(); cc_liveval = INT_CtoML(sym_bits(63)); cc_live = ML_Alloc1(msp, cc_liveval); }
static ml_val_t cc_str(const char *s, long n) { ml_val_t r = n ? ML_AllocString(msp, n) : ML_string0; if (n) memcpy(PTR_MLtoC(char, REC_SEL(r, 0)), s, n); return r; }
/* a symbolic C string of 0..max characters */
static long cc_sstr(char *b, int max) { long n = sym_choose(max + 1); sym_bytes(b, n); for (long i = 0; i < n; i++) sym_assume(b[i] != 0); b[n] = 0; return n; }
static ml_val_t cc_w64(Word_t w) { return ML_AllocWord64(msp, w); }
static int is_str(ml_val_t s, const char *v, long n) {
  if (!(isBOXED(s) && OBJ_DESC(s) == DESC_string && REC_SEL(s, 1) == INT_CtoML(n))) return 0;
  ml_val_t d = REC_SEL(s, 0); int ok = 1; if (n && GET_TAG(OBJ_DESC(d)) != DTAG_raw) return 0;
  if (!sym_valid(PTR_MLtoC(char, d), n + 1)) return 0; const char *p = PTR_MLtoC(char, d);
  for (long i = 0; i < n; i++) ok &= p[i] == v[i];
  return ok & (p[n] == 0); }
static int is_cstr(ml_val_t s, const char *v) { return is_str(s, v, strlen(v)); }
static int is_w64(ml_val_t w, Word_t v) { return isBOXED(w) && OBJ_DESC(w) == DESC_word64 && WORD64_MLtoC(w) == v; }
static int is_rec(ml_val_t r, long n) { return isBOXED(r) && (n == 2 ? 1 : OBJ_DESC(r) == MAKE_DESC(n, DTAG_record)); }
static int is_some(ml_val_t r) { return isBOXED(r) && OBJ_DESC(r) == MAKE_DESC(1, DTAG_record); }
static void no_exn(const char *m) { sym_assert(!cc_exn, m); }
static char cc_msg[] = "message of the error";
char *H_strerror(int e) { sym_assert(e == cc_errno, "the message of another error is reported"); return cc_msg; }
static ml_val_t exn_arg(void) { ml_val_t e = msp->ml_arg; sym_assert(is_rec(e, 3) && REC_SEL(e, 0) == PTR_CtoML(SysErrId), "the exception is not SysErr"); ml_val_t a = REC_SEL(e, 1); sym_assert(isBOXED(a), "SysErr carries no pair"); return a; }
/* a failed system call was reported: SysErr(message, SOME errno) */
static void is_syserr(void) { sym_assert(cc_exn, "a failed system call is not reported as an exception"); ml_val_t a = exn_arg();
  sym_assert(is_cstr(REC_SEL(a, 0), cc_msg), "SysErr does not carry the system's message"); ml_val_t o = REC_SEL(a, 1); sym_assert(is_some(o) && REC_SEL(o, 0) == INT_CtoML(cc_errno), "SysErr does not carry the error number"); }
/* another error was reported: SysErr(some message, NONE) */
static void is_msgerr(void) { sym_assert(cc_exn, "an error is not reported as an exception"); ml_val_t a = exn_arg(); sym_assert(isBOXED(REC_SEL(a, 0)) && OBJ_DESC(REC_SEL(a, 0)) == DESC_string && REC_SEL(a, 1) == OPTION_NONE, "SysErr malformed"); }
/* the log of system calls */
typedef struct { const char *f; long a[6]; char s[2][64]; } sc_t;
static sc_t sc_log[16]; static int sc_n;
static sc_t *sc_add(const char *f, long a, long b, long c, long d) { sym_assert(sc_n < 16, "too many system calls"); sc_t *p = &sc_log[sc_n++]; p->f = f; p->a[0] = a; p->a[1] = b; p->a[2] = c; p->a[3] = d; return p; }
static void sc_copy(sc_t *p, int k, const char *s) { int i = 0; if (s) for (; i < 62 && s[i]; i++) p->s[k][i] = s[i]; p->s[k][i] = 0; }
static long sc_fail(long r) { if (r < 0) errno = cc_errno; return r; }
static void sc_reset(void) { sc_n = 0; cc_errno = (int)sym_range(1, 133); }
static sc_t *sc_only(const char *f) { sym_assert(sc_n == 1 && strcmp(sc_log[0].f, f) == 0, "not exactly the one expected system call"); return &sc_log[0]; }
static int same(const char *a, const char *b, long n) { int ok = 1; for (long i = 0; i <= n; i++) ok &= a[i] == b[i]; return ok; }
