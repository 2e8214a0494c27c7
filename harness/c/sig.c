//@use rt.inc
//@use cfun.inc
//@traced kernel/run-ml.c mach-dep/unix-signal.c mach-dep/signal-util.c
//@entry deliver q=120 t=1200 shards=8 tshards=16 depth=7 covers=two,same,different,inruntime,inhandler,gcinhandler
//@entry gcsig q=60 shards=4 depth=5 covers=signalled,below,disabled
//@entry order q=60 shards=4 depth=5 covers=done
//@entry resume q=60 covers=done
//@entry masks q=90 shards=8 depth=6 covers=none,all,some,get
//@entry states q=60 shards=4 depth=6 covers=enable,ignore,default,gc
//@entry misc q=60 shards=2 depth=3 covers=list,pause
//@entry fault q=60 covers=overflow
//@bounds up to 2 signals (3 in the thorough tier) out of 2, each arriving before any access to the signal state made by the C code, at any of the points of the entry to ML code, while ML code runs, while its handler runs, and while it is interrupted itself unless blocked; collections inside and outside handlers; every register content; every set of masked signals drawn from the table by 4 bits and 3 fixed ones; every pending set of the whole table (counts of 0 to 3 for five signals)
#define CC_OWN_RUN
#include "cfun.inc"
#include <signal.h>
#include <ucontext.h>
#include "system-signals.h"
#include "ml-globals.h"
#define SG "SMLNJ-Signals"
extern vproc_state_t *VProc[];
static struct sigaction act[65]; static sigset_t blocked; static int nblk;
/* signal sets are 64 bits */
static unsigned long *w(const sigset_t *s) { return (unsigned long *)s; }
int H_sigemptyset(sigset_t *s) { w(s)[0] = 0; return 0; }
int H_sigfillset(sigset_t *s) { w(s)[0] = ~0UL; return 0; }
int H_sigaddset(sigset_t *s, int n) { if (n < 1 || n > 64) { errno = EINVAL; return -1; } w(s)[0] |= 1UL << (n - 1); return 0; }
int H_sigdelset(sigset_t *s, int n) { if (n < 1 || n > 64) { errno = EINVAL; return -1; } w(s)[0] &= ~(1UL << (n - 1)); return 0; }
int H_sigismember(const sigset_t *s, int n) { if (n < 1 || n > 64) { errno = EINVAL; return -1; } return (w(s)[0] >> (n - 1)) & 1; }
static int nset, lasthow; static unsigned long procmask, lastmask;
int H_sigprocmask(int how, const sigset_t *s, sigset_t *o) { if (o) w(o)[0] = procmask; if (s) { nset++; lasthow = how; lastmask = w(s)[0]; } return 0; }
static int nact;
int H_sigaction(int n, const struct sigaction *a, struct sigaction *o) { sym_assert(n >= 1 && n < 65, "sigaction of another signal"); if (o) *o = act[n]; if (a) { act[n] = *a; nact++; } return 0; }
static int npause; int H_pause(void) { npause++; errno = EINTR; return -1; }
/* delivery */
static int budget, got[65], live, depth, inruntime, indeliver, zeroed, h_in, mlcode; static ucontext_t uc;
static const int sigs[] = { SIGINT, SIGALRM, SIGUSR1 };
static void arrive(void) {
  if (!live || budget == 0) return; int can[2], n = 0;
  for (int i = 0; i < 2; i++) if (!depth || (indeliver != sigs[i] || act[sigs[i]].sa_flags & SA_NODEFER) && !H_sigismember(&blocked, sigs[i])) can[n++] = sigs[i];
  if (n == 0 || !sym_choose(2)) return; int s = can[n == 1 ? 0 : sym_choose(2)];
  budget--; got[s]++; sigset_t ob = blocked; int oi = indeliver; blocked = act[s].sa_mask; indeliver = s; depth++; uc.uc_mcontext.gregs[REG_R14] = 77;
  if (!mlcode) { inruntime = 1; if (0) sym_cover("x"); }
  act[s].sa_sigaction(s, NULL, &uc); depth--; blocked = ob; indeliver = oi; if (uc.uc_mcontext.gregs[REG_R14] == 0) zeroed = 1; }
/* the counts of signals that never arrive are left alone by the handler: accesses to them commute with any arrival */
static void tr(void *p) { char *a = p, *v = (char *)VProc[0]; if (!(live && a >= v && a < v + sizeof(vproc_state_t))) return; char *c = (char *)VProc[0]->vp_sigCounts; if (a >= c && a < c + sizeof VProc[0]->vp_sigCounts) { long i = (a - c) / sizeof(sig_count_t); if (i != SIGINT && i != SIGALRM) return; } arrive(); }
unsigned long __sancov_lowest_stack_;
void __sanitizer_cov_load1(void *p) { tr(p); } void __sanitizer_cov_load2(void *p) { tr(p); } void __sanitizer_cov_load4(void *p) { tr(p); } void __sanitizer_cov_load8(void *p) { tr(p); } void __sanitizer_cov_load16(void *p) { tr(p); }
void __sanitizer_cov_store1(void *p) { tr(p); } void __sanitizer_cov_store2(void *p) { tr(p); } void __sanitizer_cov_store4(void *p) { tr(p); } void __sanitizer_cov_store8(void *p) { tr(p); } void __sanitizer_cov_store16(void *p) { tr(p); }
/* the program that is interrupted: nine registers */
static ml_val_t code0[4], regs[9], obj; static Word_t objval; static int mode, runs, gcs, hgcs, delivered[65], order[16], norder, hdone, lastcode, lastn; static int egc, flood, nflood; static ml_val_t hk, hclos[2], handlerclos;
static void setregs(ml_state_t *m) { m->ml_arg = regs[0]; m->ml_cont = regs[1]; m->ml_closure = regs[2]; m->ml_linkReg = regs[3]; m->ml_pc = regs[4]; m->ml_exnCont = regs[5]; for (int i = 0; i < 3; i++) m->ml_calleeSave[i] = regs[6 + i]; }
static void chkregs(ml_state_t *m) { sym_assert(isBOXED(m->ml_arg) && REC_SEL(m->ml_arg, 0) == INT_CtoML(objval) && REC_SEL(m->ml_arg, 1) == INT_CtoML(7), "the interrupted computation lost an object");
  sym_assert((m->ml_cont == regs[1]) & (m->ml_closure == regs[2]) & (m->ml_linkReg == regs[3]) & (m->ml_pc == regs[4]) & (m->ml_exnCont == regs[5]) & (m->ml_calleeSave[0] == regs[6]) & (m->ml_calleeSave[1] == regs[7]) & (m->ml_calleeSave[2] == regs[8]), "the interrupted computation does not resume with its registers"); }
static int leave(ml_state_t *m, int r) { vproc_state_t *v = m->ml_vproc; arrive(); v->vp_inMLFlag = 0; mlcode = 0; arrive(); return r; }
/* what the assembly code does when control passes to ML code, and the ML code that runs then */
int H_restoreregs(ml_state_t *m) { vproc_state_t *v = m->ml_vproc; int zero = 0; sym_assert(++runs < 60, "signals are delivered without end");
  if (mode == 9) { if (cc_state == 0) { cc_state = 1; return REQ_CALLC; } if (m->ml_closure == m->ml_exnCont) cc_exn = 1; cc_state = 2; return REQ_RETURN; }
  mlcode = 0; arrive(); v->vp_inMLFlag = 1; arrive(); if (v->vp_totalSigCount.nReceived != v->vp_totalSigCount.nHandled) { arrive(); if (v->vp_inSigHandler == 0) { arrive(); v->vp_handlerPending = 1; zero = 1; } }
  mlcode = 1; zeroed = 0;
  if (m->ml_pc == PTR_CtoML(sigh_resume)) { sym_assert(mode == 2, "a computation is resumed out of turn"); mode = 0; sym_assert(m->ml_closure == hk, "another continuation is thrown to"); return leave(m, REQ_SIG_RESUME); }
  if (m->ml_closure == handlerclos && m->ml_pc == PTR_CtoML(code0 + 2) && mode == 0) { mode = 1; hdone = 0; sym_assert(!h_in, "a handler is interrupted by another handler"); h_in = 1; ml_val_t a = m->ml_arg; sym_assert(is_rec(a, 3), "argument of the handler"); long c = REC_SELINT(a, 0), n = REC_SELINT(a, 1); sym_assert(c >= 1 && c < SIGMAP_SZ && n > 0, "a signal or count that does not exist"); delivered[c] += n; lastcode = c; lastn = n; if (norder < 16) order[norder++] = c; sym_assert(m->ml_cont == PTR_CtoML(return_c) || m->ml_cont != ML_unit, "the handler has no continuation"); }
  if (mode == 1) { arrive(); if (flood && lastcode == flood && nflood > 0) { nflood--; got[flood]++; act[flood].sa_sigaction(flood, NULL, &uc); } if (hgcs > 0) { hgcs--; if (lastcode != RUNSIG_GC) egc++; sym_cover("gcinhandler"); return leave(m, REQ_GC); } sym_assert(!(zero || zeroed), "a handler is interrupted by another handler"); hk = REC_SEL(m->ml_arg, 2); m->ml_arg = hk; mode = 2; h_in = 0; return leave(m, REQ_SIG_RETURN); }
  sym_assert(mode == 0, "control returns out of turn"); chkregs(m); arrive(); if (zero || zeroed) return leave(m, REQ_GC); if (gcs > 0) { gcs--; egc++; return leave(m, REQ_GC); }
  live = 0; v->vp_inMLFlag = 0; return REQ_RETURN; }
static void start(void) { cc_init(); for (int i = 0; i < 3; i++) SetSignalState(msp->ml_vproc, sigs[i], ML_SIG_ENABLED); hclos[0] = MAKE_DESC(1, DTAG_record); hclos[1] = PTR_CtoML(code0 + 2); handlerclos = PTR_CtoML(hclos + 1); ASSIGN(MLSignalHandler, handlerclos);
  objval = sym_bits(62); regs[0] = ML_Alloc2(msp, INT_CtoML(objval), INT_CtoML(7)); for (int i = 1; i < 9; i++) regs[i] = INT_CtoML(sym_bits(63)); regs[4] = PTR_CtoML(code0); setregs(msp); mode = 0; }
void entry_deliver(void) { start(); sc_reset(); int n = budget = BOUND(2, 3); gcs = sym_choose(2); hgcs = 0; if (!gcs) hgcs = sym_choose(2); if (sym_choose(2)) cc_position(1); live = 1; RunML(msp);
  for (int s = 1; s < 65; s++) sym_assert(delivered[s] == got[s], "a signal is lost, or delivered more often than it arrived"); if (got[SIGINT] + got[SIGALRM] == 2) { sym_cover("two"); sym_cover(got[SIGINT] == 1 ? "different" : "same"); } if (inruntime) sym_cover("inruntime"); if (norder > 1) sym_cover("inhandler"); sym_assert(!msp->ml_vproc->vp_inSigHandler & !msp->ml_vproc->vp_handlerPending, "the signal state is not clear in the end"); (void)n; }
void entry_gcsig(void) { start(); sc_reset(); vproc_state_t *v = msp->ml_vproc; int en = sym_choose(2), th = sym_choose(3), lev = sym_choose(3), other = sym_choose(2); gcs = sym_choose(2); hgcs = sym_choose(3); SetSignalState(v, RUNSIG_GC, en ? ML_SIG_ENABLED : ML_SIG_IGNORE); sym_assert(GetSignalState(v, RUNSIG_GC) == (en ? ML_SIG_ENABLED : ML_SIG_IGNORE), "state of the GC signal"); v->vp_gcSigThreshold = th; v->vp_inMLFlag = 0; InvokeGC(msp, lev); regs[0] = msp->ml_arg; if (other) { got[SIGINT]++; act[SIGINT].sa_sigaction(SIGINT, NULL, &uc); } RunML(msp); int k = delivered[RUNSIG_GC];
  if (!en) { sym_assert(k == 0, "a disabled GC signal is delivered"); sym_cover("disabled"); } else if (lev >= th) { sym_assert(k >= 1, "a GC signal is lost"); sym_cover("signalled"); } else if (th > 1 && k == 0) sym_cover("below"); if (en && th == 0) sym_assert(k == 1 + egc, "the GC signal is not delivered once for each collection outside its own handler"); if (en && th == 2 && lev < 2) sym_assert(k == 0, "a GC signal for a collection below the threshold");
  for (int s = 1; s < 65; s++) if (s != RUNSIG_GC) sym_assert(delivered[s] == got[s], "another signal"); }
/* several signals pending: each is handled once with its count, and none twice before the others */
void entry_order(void) { start(); sc_reset(); vproc_state_t *v = msp->ml_vproc; static const int ss[] = { SIGHUP, SIGINT, SIGALRM, SIGIO, SIGUSR2 }; int tot = 0, kinds = 0; for (int i = 0; i < 5; i++) { int c = sym_choose(3); if (i == 4 && c == 2) c = 3; SetSignalState(v, ss[i], ML_SIG_ENABLED); for (int j = 0; j < c; j++) act[ss[i]].sa_sigaction(ss[i], NULL, &uc); got[ss[i]] = c; tot += c; kinds += c > 0; } v->vp_nextPendingSig = MIN_SYSTEM_SIG + sym_choose(SIGMAP_SZ - MIN_SYSTEM_SIG); if (sym_choose(2)) { flood = ss[sym_choose(5)]; nflood = 2; }
  RunML(msp); for (int s = 1; s < 65; s++) sym_assert(delivered[s] == got[s], "a signal is lost, or delivered more often than it arrived"); if (!flood) sym_assert(norder == kinds, "the arrivals of one signal are not handled together"); for (int i = 0, c = 0; i < norder; i++) { if (order[i] == flood) c++; else sym_assert(c <= 1, "a pending signal is overtaken again and again by one that keeps arriving"); } sym_cover("done"); }
void entry_resume(void) { start(); sc_reset(); ml_val_t k = MakeResumeCont(msp, (ml_val_t *)sigh_resume); sym_assert(is_rec(k, 10) && GET_CODE_ADDR(k) == PTR_CtoML(sigh_resume), "resumption closure"); for (int i = 1; i < 9; i++) { *(&msp->ml_arg) = ML_unit; } msp->ml_arg = k; msp->ml_cont = msp->ml_linkReg = msp->ml_pc = msp->ml_exnCont = msp->ml_closure = ML_unit; for (int i = 0; i < 3; i++) msp->ml_calleeSave[i] = ML_unit; InvokeGC(msp, sym_choose(3)); msp->ml_closure = msp->ml_arg; LoadResumeState(msp); chkregs(msp); sym_cover("done"); }
static ml_val_t sigc(int n) { ml_val_t s = cc_str("x", 1); return ML_Alloc2(msp, INT_CtoML(n), s); }
static const int all[] = { SIGHUP, SIGINT, SIGQUIT, SIGUSR1, SIGUSR2, SIGPIPE, SIGALRM, SIGTERM, SIGCHLD, SIGCONT, SIGTSTP, SIGTTIN, SIGTTOU, SIGURG, SIGVTALRM, SIGWINCH, SIGIO };
static const char *names[] = { "HUP", "INT", "QUIT", "USR1", "USR2", "PIPE", "ALRM", "TERM", "CHLD", "CONT", "TSTP", "TTIN", "TTOU", "URG", "VTALRM", "WINCH", "IO" };
#define NALL 17
#define B(n) (1UL << ((n) - 1))
void entry_masks(void) { cc_init(); sc_reset(); mode = 9; int p = sym_choose(2), k = sym_choose(4); ml_val_t v; static unsigned long allm; allm = 0; for (int i = 0; i < NALL; i++) allm |= B(all[i]); procmask = 0;
  if (k == 0) { cc_position(p); v = cc_call(SG, "setSigMask", OPTION_NONE); sym_assert(nset == 1 && lasthow == SIG_SETMASK && lastmask == 0, "the mask is not cleared"); sym_cover("none"); }
  else if (k == 1) { ml_val_t o; OPTION_SOME(msp, o, LIST_nil); cc_position(p); v = cc_call(SG, "setSigMask", o); sym_assert(nset == 1 && lasthow == SIG_SETMASK && (lastmask & allm) == allm, "not every signal is masked"); sym_cover("all"); }
  else if (k == 2) { ml_val_t l = LIST_nil, o; unsigned long want = 0; int bits = sym_choose(32); if (!bits) sym_stop(); static const int some[] = { SIGHUP, SIGINT, SIGALRM, SIGTERM, SIGIO }; for (int i = 0; i < 5; i++) if (bits >> i & 1) { ml_val_t c = sigc(some[i]); LIST_cons(msp, l, c, l); want |= B(some[i]); } OPTION_SOME(msp, o, l); cc_position(p); v = cc_call(SG, "setSigMask", o); sym_assert(nset == 1 && lasthow == SIG_SETMASK && lastmask == want, "other signals are masked"); sym_cover("some"); }
  else { int bits = sym_choose(19); procmask = bits == 16 ? allm : bits == 17 ? ~0UL : bits == 18 ? allm & ~B(all[sym_choose(NALL)]) : (bits & 1 ? B(SIGHUP) : 0) | (bits & 2 ? B(SIGINT) : 0) | (bits & 4 ? B(SIGALRM) : 0) | (bits & 8 ? B(SIGIO) : 0) | (sym_choose(2) ? B(SIGSEGV) : 0); cc_position(p); v = cc_call(SG, "getSigMask", ML_unit); no_exn("raised"); sym_assert(nset == 0, "asking for the mask sets it"); sym_cover("get");
    unsigned long m = procmask & allm; if (m == 0) { sym_assert(v == OPTION_NONE, "signals are reported as masked"); return; } sym_assert(is_some(v), "no signal is reported as masked"); v = REC_SEL(v, 0); if (m == allm) { sym_assert(v == LIST_nil, "not all signals are reported as masked"); return; } sym_assert(v != LIST_nil, "all signals are reported as masked");
    unsigned long seen = 0; int n = 0; for (; v != LIST_nil; v = LIST_tl(v)) { sym_assert(isBOXED(v) && n++ < 40, "the list of masked signals"); ml_val_t c = LIST_hd(v); long id = REC_SELINT(c, 0); int f = 0; for (int i = 0; i < NALL; i++) if (all[i] == id) { f = 1; sym_assert(is_cstr(REC_SEL(c, 1), names[i]), "another name"); } sym_assert(f && !(seen & B(id)), "a masked signal is reported twice or does not exist"); seen |= B(id); } sym_assert(seen == m, "other signals are reported as masked"); return; }
  no_exn("raised"); sym_assert(v == ML_unit, "result"); }
void entry_states(void) { cc_init(); sc_reset(); mode = 9; int p = sym_choose(2), i = sym_choose(NALL + 1), st = sym_choose(3), n = i < NALL ? all[i] : RUNSIG_GC; ml_val_t c = sigc(n), a = ML_Alloc2(msp, c, INT_CtoML(st)); cc_position(p); ml_val_t v = cc_call(SG, "setSigState", a); no_exn("raised"); sym_assert(v == ML_unit, "result");
  if (n == RUNSIG_GC) { sym_assert(nact == 0 && msp->ml_vproc->vp_gcSigState == st, "state of the GC signal"); sym_cover("gc"); }
  else { sym_assert(nact == 1, "not one action is set"); if (st == 0) { sym_assert(act[n].sa_handler == SIG_IGN, "not ignored"); sym_cover("ignore"); } else if (st == 1) { sym_assert(act[n].sa_handler == SIG_DFL, "not the default action"); sym_cover("default"); } else { sym_assert(act[n].sa_handler != SIG_IGN && act[n].sa_handler != SIG_DFL && (act[n].sa_flags & SA_SIGINFO) && !(act[n].sa_flags & SA_RESETHAND), "no handler"); sym_assert(w(&act[n].sa_mask)[0] == ~0UL, "a handler could be interrupted by a signal"); sym_cover("enable"); } for (int j = 1; j < 65; j++) if (j != n) sym_assert(act[j].sa_handler == SIG_DFL, "the state of another signal is changed"); }
  c = sigc(n); mode = 9; v = cc_call(SG, "getSigState", c); no_exn("raised"); sym_assert(v == INT_CtoML(st), "another state is reported"); }
void entry_misc(void) { cc_init(); sc_reset(); mode = 9; cc_position(sym_choose(2)); if (sym_choose(2)) { ml_val_t v = cc_call(SG, "pause", ML_unit); no_exn("pause raised"); sym_assert(v == ML_unit && npause == 1, "pause"); sym_cover("pause"); return; }
  ml_val_t v = cc_call(SG, "listSignals", ML_unit); no_exn("raised"); unsigned long seen = 0; int n = 0, gc = 0; for (; v != LIST_nil; v = LIST_tl(v)) { sym_assert(isBOXED(v) && n++ < 40, "the list of signals"); ml_val_t c = LIST_hd(v); long id = REC_SELINT(c, 0); if (id == RUNSIG_GC) { sym_assert(is_cstr(REC_SEL(c, 1), "GC"), "name of the GC signal"); gc++; continue; } for (int i = 0; i < NALL; i++) if (all[i] == id) { sym_assert(is_cstr(REC_SEL(c, 1), names[i]), "another name"); sym_assert(!(seen & B(id)), "listed twice"); seen |= B(id); } } for (int i = 0; i < NALL; i++) sym_assert(seen & B(all[i]), names[i]); sym_assert(gc == 1, "the GC signal is not listed"); sym_cover("list"); }
/* an arithmetic trap in ML code becomes Overflow at the place of the trap */
void entry_fault(void) { cc_init(); sc_reset(); InitFaultHandlers(); vproc_state_t *v = msp->ml_vproc; v->vp_inMLFlag = 1; static unsigned char buf[16]; int fpe = sym_choose(2); for (int i = 0; i < 16; i++) buf[i] = sym_bits(8); if (!fpe) { buf[6] = 0xcd; buf[7] = 0x04; } memset(&uc, 0, sizeof uc); uc.uc_mcontext.gregs[REG_RIP] = (long)(buf + 8); int s = fpe ? SIGFPE : SIGSEGV; sym_assert(act[s].sa_sigaction != NULL && (act[s].sa_flags & SA_SIGINFO), "no handler for traps"); act[s].sa_sigaction(s, NULL, &uc); sym_assert(msp->ml_faultExn == OverflowId && msp->ml_faultPC == (Word_t)(buf + 8) && uc.uc_mcontext.gregs[REG_RIP] == (long)request_fault, "a trap is not turned into Overflow"); sym_cover("overflow"); }
