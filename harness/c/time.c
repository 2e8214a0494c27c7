//@use rt.inc
//@use cfun.inc
//@entry now q=60 covers=done
//@entry cpu q=60 shards=2 depth=2 covers=forward,back
//@entry gctimer q=60 covers=done,carry,borrow
//@entry tm q=60 shards=2 depth=4 covers=local,gm,fail
//@entry mktime q=60 covers=ok,invalid
//@entry fmt q=90 shards=4 depth=6 covers=given,normal,before,invalid,fail,long
//@entry offset q=60 covers=now,given,fail
//@entry itimer q=60 covers=none,some,fail
//@entry itick q=60 covers=ok,fail
//@bounds wall clocks of 0 to 2^33 seconds, processor times of 0 to 2^30 seconds going forwards or backwards, every microsecond; every field of a broken-down time of 31 bits; times of 64 bits; timer intervals below 9*10^9 seconds; lengths of collections below 1000 s; formats of 0 to 2 arbitrary characters and results of 1 to 3, 510 and 511 characters; time zones of 31 bits; allocation pointer fresh, at the last position before a collection, and past it
#define RT_OWN_TIME
#include "cfun.inc"
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include "ml-timer.h"
#include "vproc-state.h"
#define DT "SMLNJ-Date"
static struct timeval ut, st, wall; static int live, nset; static struct itimerval itv; static int itwhich, outc;
int H_getrusage(int who, struct rusage *r) { memset(r, 0, sizeof *r); sym_assert(who == RUSAGE_SELF, "the time of another process"); r->ru_utime = ut; r->ru_stime = st; return 0; }
int H_gettimeofday(struct timeval *t, void *z) { *t = wall; return 0; }
static struct timeval symtv(long max) { struct timeval t; t.tv_sec = sym_range(0, max); t.tv_usec = sym_range(0, 999999); return t; }
static struct timeval tvadd(struct timeval a, struct timeval b) { a.tv_sec += b.tv_sec; a.tv_usec += b.tv_usec; if (a.tv_usec >= 1000000) { a.tv_usec -= 1000000; a.tv_sec++; } return a; }
static Word_t ns(struct timeval t) { return t.tv_sec * 1000000000UL + t.tv_usec * 1000UL; }
void entry_now(void) { cc_init(); sc_reset(); wall = symtv(1L << 33); cc_position(sym_choose(3)); ml_val_t v = cc_call("SMLNJ-Time", "timeofday", ML_unit); no_exn("raised"); sym_assert(is_w64(v, ns(wall)), "another time of day"); sym_cover("done"); }
static int notbefore(struct timeval a, struct timeval b) { return a.tv_sec > b.tv_sec || a.tv_sec == b.tv_sec && a.tv_usec >= b.tv_usec; }
/* the time is what the system says; if that should go backwards, time stands still or goes on */
static void cputime(Time_t v, struct timeval t, struct timeval t0) { struct timeval w = { v.seconds, v.uSeconds }; if (notbefore(t, t0)) sym_assert((v.seconds == t.tv_sec) & (v.uSeconds == t.tv_usec), "processor time: not what the system says"); else sym_assert(notbefore(w, t0), "processor time runs backwards"); }
static Word_t tns(Time_t t) { return 1000000000UL * (Word_t)(long)t.seconds + 1000UL * (Word_t)(long)t.uSeconds; }
void entry_cpu(void) { cc_init(); sc_reset(); vproc_state_t *v = msp->ml_vproc; struct timeval z = { 0, 0 }, u1 = symtv(1 << 30), s1 = symtv(1 << 30); ut = u1; st = s1; Time_t a, b, a2, b2, g = { (int)sym_range(0, 1 << 30), (int)sym_range(0, 999999) }; GetCPUTime(&a, &b); cputime(a, u1, z); cputime(b, s1, z);
  ut = symtv(1 << 30); st = symtv(1 << 30); GetCPUTime(&a2, NULL); GetCPUTime(NULL, &b2); cputime(a2, ut, u1); cputime(b2, st, s1); *v->vp_gcTime = g; cc_position(sym_choose(2)); ml_val_t r = cc_call("SMLNJ-Time", "gettime", ML_unit); no_exn("raised"); sym_assert(is_rec(r, 3), "result");
  sym_assert(is_w64(REC_SEL(r, 0), tns(a2)), "user time"); sym_assert(is_w64(REC_SEL(r, 1), tns(b2)), "system time"); sym_assert(is_w64(REC_SEL(r, 2), tns(g)), "time for collections"); sym_cover(notbefore(ut, u1) ? "forward" : "back"); }
/* the time between start and stop is added to the time spent in collections */
void entry_gctimer(void) { cc_init(); sc_reset(); vproc_state_t *v = msp->ml_vproc; ResetTimers(v); sym_assert(v->vp_gcTime->seconds == 0 && v->vp_gcTime->uSeconds == 0, "the timer is not reset"); Time_t g = { (int)sym_range(0, 1 << 20), (int)sym_range(0, 1000000) }; *v->vp_gcTime = g; int want = sym_choose(2); struct timeval t0 = symtv(1 << 20), d = symtv(1000); if (want) { static const int us0[] = { 0, 1, 500000, 999999 }; t0.tv_usec = us0[sym_choose(4)]; t0.tv_sec = sym_choose(2) * 100000; static const int us1[] = { 0, 1, 999, 1000, 500000, 999999 }; d.tv_sec = sym_choose(3); d.tv_usec = us1[sym_choose(6)]; } ut = t0; StartGCTimer(v); ut = tvadd(t0, d); long ms = -1; StopGCTimer(v, want ? &ms : NULL); if (want) sym_assert(ms == d.tv_sec * 1000 + d.tv_usec / 1000, "milliseconds of a collection"); if (ut.tv_usec < t0.tv_usec) sym_cover("borrow"); long us = g.uSeconds + d.tv_usec, ds = v->vp_gcTime->seconds - g.seconds - d.tv_sec, du = v->vp_gcTime->uSeconds - us; sym_assert((ds == 0) & (du == 0) | (ds == 1) & (du == -1000000) | (ds == 2) & (du == -2000000), "the time spent in collections"); sym_assert((v->vp_gcTime->uSeconds >= 0) & (v->vp_gcTime->uSeconds <= 1000000), "microseconds"); if (us >= 1000000) sym_cover("carry"); sym_cover("done"); }
static struct tm tmv; static int tmfail; static time_t tmt; static int ntm; static char tmwhich;
static void symtm(struct tm *t) { memset(t, 0, sizeof *t); t->tm_sec = sym_range(0, 60); t->tm_min = sym_range(0, 59); t->tm_hour = sym_range(0, 23); t->tm_mday = sym_range(1, 31); t->tm_mon = sym_range(0, 11); t->tm_year = (int)sym_range(0, 1 << 29) - 2000; t->tm_wday = sym_range(0, 6); t->tm_yday = sym_range(0, 365); t->tm_isdst = (int)sym_range(0, 2) - 1; }
struct tm *H_gmtime_r(const time_t *t, struct tm *r) { ntm++; tmt = *t; tmwhich = 'g'; if (tmfail & 1) { errno = cc_errno; return NULL; } *r = tmv; r->tm_isdst = 0; return r; }
struct tm *H_localtime_r(const time_t *t, struct tm *r) { ntm++; tmt = *t; tmwhich = 'l'; if (tmfail & 2) { errno = cc_errno; return NULL; } *r = tmv; return r; }
static ml_val_t tmrec(const struct tm *t) { ML_AllocWrite(msp, 0, MAKE_DESC(9, DTAG_record)); const int f[9] = { t->tm_sec, t->tm_min, t->tm_hour, t->tm_mday, t->tm_mon, t->tm_year + 1900, t->tm_wday, t->tm_yday, t->tm_isdst }; for (int i = 0; i < 9; i++) ML_AllocWrite(msp, i + 1, INT_CtoML(f[i])); return ML_Alloc(msp, 9); }
void entry_tm(void) { cc_init(); sc_reset(); int local = sym_choose(2); symtm(&tmv); if (!local) tmv.tm_isdst = 0; tmfail = sym_choose(2) ? 3 : 0; Word_t t = sym_bits(64); ml_val_t a = cc_w64(t); cc_position(sym_choose(3)); ml_val_t r = cc_call(DT, local ? "localTime" : "gmTime", a); sym_assert(ntm == 1 && tmwhich == (local ? 'l' : 'g') && tmt == (time_t)(t / 1000000000UL), "another time is broken down"); if (tmfail) { is_syserr(); sym_cover("fail"); return; } no_exn("raised"); sym_assert(is_rec(r, 9), "not a record of nine fields");
  sym_assert((REC_SEL(r, 0) == INT_CtoML(tmv.tm_sec)) & (REC_SEL(r, 1) == INT_CtoML(tmv.tm_min)) & (REC_SEL(r, 2) == INT_CtoML(tmv.tm_hour)) & (REC_SEL(r, 3) == INT_CtoML(tmv.tm_mday)) & (REC_SEL(r, 4) == INT_CtoML(tmv.tm_mon)) & (REC_SEL(r, 5) == INT_CtoML(tmv.tm_year + 1900)) & (REC_SEL(r, 6) == INT_CtoML(tmv.tm_wday)) & (REC_SEL(r, 7) == INT_CtoML(tmv.tm_yday)) & (REC_SEL(r, 8) == INT_CtoML(tmv.tm_isdst)), "a field of the date"); sym_cover(local ? "local" : "gm"); }
/* mktime: fails without touching the structure, or normalises it */
static struct tm mkin, mkout; static int nmk, mkfail; static time_t mkret;
time_t H_mktime(struct tm *t) { nmk++; mkin = *t; if (mkfail) return -1; *t = mkout; return mkret; }
static int sametm(const struct tm *a, const struct tm *b, int all) { int ok = (a->tm_sec == b->tm_sec) & (a->tm_min == b->tm_min) & (a->tm_hour == b->tm_hour) & (a->tm_mday == b->tm_mday) & (a->tm_mon == b->tm_mon) & (a->tm_year == b->tm_year) & (a->tm_isdst == b->tm_isdst); if (all) ok &= (a->tm_wday == b->tm_wday) & (a->tm_yday == b->tm_yday); return ok; }
void entry_mktime(void) { cc_init(); sc_reset(); symtm(&tmv); symtm(&mkout); mkfail = sym_choose(2); mkret = (time_t)sym_range(0, 1L << 34) - (1L << 33); if (mkfail) mkret = -1; ml_val_t a = tmrec(&tmv); cc_position(sym_choose(3)); ml_val_t r = cc_call(DT, "mkTime", a); sym_assert(nmk == 1 && sametm(&mkin, &tmv, 0), "another date is converted"); if (mkret < 0) { is_msgerr(); sym_cover("invalid"); return; } no_exn("raised"); sym_assert(is_w64(r, (Word_t)mkret * 1000000000UL), "another time"); sym_cover("ok"); }
static char fm[8], resb[600]; static long rn; static struct tm fin; static int nfm;
size_t H_strftime(char *b, size_t max, const char *f, const struct tm *t) { nfm++; fin = *t; sym_assert(same(f, fm, strlen(fm)), "another format"); sym_assert(max <= 512 && sym_valid(b, max), "the buffer is smaller than said"); if (rn + 1 > (long)max) return 0; memcpy(b, resb, rn); b[rn] = 0; return rn; }
void entry_fmt(void) { cc_init(); sc_reset(); symtm(&tmv); symtm(&mkout); sym_assume(mkout.tm_isdst >= 0); mkfail = sym_choose(2); mkret = (time_t)sym_range(0, 1L << 34) - (1L << 33); long n = cc_sstr(fm, 2); int rk = sym_choose(6); rn = rk < 4 ? rk : rk == 4 ? 511 : 512; sym_bytes(resb, rn < 4 ? rn : 4); for (long i = 0; i < 4 && i < rn; i++) sym_assume(resb[i] != 0); for (long i = 4; i < rn; i++) resb[i] = 'x'; ml_val_t f = cc_str(fm, n), d = tmrec(&tmv), a = ML_Alloc2(msp, f, d); cc_position(sym_choose(2)); ml_val_t r = cc_call(DT, "strfTime", a);
  int norm = tmv.tm_isdst < 0; if (norm) { sym_assert(nmk == 1 && sametm(&mkin, &tmv, 0), "another date is normalised"); if (mkfail) { is_msgerr(); sym_cover("invalid"); return; } } else sym_assert(nmk == 0, "a complete date is changed"); sym_assert(nfm == 1, "not one date is formatted"); sym_assert(sametm(&fin, norm ? &mkout : &tmv, 1), "another date is formatted");
  if (rn == 0 || rn > 511) { is_msgerr(); sym_cover("fail"); return; } no_exn("raised"); sym_assert(is_str(r, resb, rn), "another text"); sym_cover(norm ? mkret < 0 ? "before" : "normal" : "given"); if (rn > 500) sym_cover("long"); }
time_t H_time(time_t *t) { if (t) *t = wall.tv_sec; return wall.tv_sec; }
void entry_offset(void) { cc_init(); sc_reset(); int now = sym_choose(2); symtm(&tmv); mkout = tmv; tmfail = sym_choose(4); wall = symtv(1L << 33); Word_t t = sym_bits(64), s = now ? wall.tv_sec : t / 1000000000UL; long off = sym_range(0, 200000) - 100000; mkret = s + off; ml_val_t a = now ? ML_unit : cc_w64(t); cc_position(sym_choose(2)); ml_val_t r = cc_call(DT, now ? "localOffset" : "localOffsetForTime", a); sym_assert(tmt == (time_t)s, "the offset of another time"); if (tmfail) { is_syserr(); sym_cover("fail"); return; } no_exn("raised"); struct tm w = tmv; sym_assert(nmk == 1 && sametm(&mkin, &w, 0), "the offset is computed from another date"); sym_assert(r == INT_CtoML(off), "another offset"); sym_cover(now ? "now" : "given"); }
int H_setitimer(__itimer_which_t w, const struct itimerval *n, struct itimerval *o) { nset++; itwhich = w; itv = *n; return (int)sc_fail(outc ? -1 : 0); }
void entry_itimer(void) { cc_init(); sc_reset(); int some = sym_choose(2); outc = sym_choose(2); Word_t ts = sym_range(0, 9000000000L), tu = sym_range(0, 999999), t = ts * 1000000000UL + tu * 1000UL + sym_range(0, 999); ml_val_t a = OPTION_NONE; if (some) { a = cc_w64(t); OPTION_SOME(msp, a, a); } else t = ts = tu = 0; cc_position(sym_choose(3)); ml_val_t r = cc_call("SMLNJ-RunT", "setIntTimer", a); sym_assert(nset == 1 && itwhich == ITIMER_REAL, "not the one timer is set"); Word_t us = itv.it_value.tv_usec; sym_assert(us < 1000000, "a malformed interval"); sym_assert((itv.it_value.tv_sec == (long)ts) & (us == tu), "another interval"); sym_assert((itv.it_interval.tv_sec == itv.it_value.tv_sec) & (itv.it_interval.tv_usec == itv.it_value.tv_usec), "the interval is not repeated"); if (outc) { is_syserr(); sym_cover("fail"); return; } no_exn("raised"); sym_assert(r == ML_unit, "result"); sym_cover(some ? "some" : "none"); }
static struct timespec res; int H_clock_getres(clockid_t c, struct timespec *t) { sym_assert(c == CLOCK_REALTIME, "another clock"); if (outc) { errno = cc_errno; return -1; } *t = res; return 0; }
void entry_itick(void) { cc_init(); sc_reset(); outc = sym_choose(2); res.tv_sec = sym_range(0, 100); res.tv_nsec = sym_range(0, 999999999); cc_position(sym_choose(2)); ml_val_t r = cc_call("SMLNJ-RunT", "itick", ML_unit); if (outc) { if (!cc_exn) sym_assert(is_w64(r, 10000000), "another resolution"); else is_syserr(); sym_cover("fail"); return; } no_exn("raised"); sym_assert(isBOXED(r) && OBJ_DESC(r) == DESC_word64 && WORD64_MLtoC(r) > 0 || res.tv_sec == 0 && res.tv_nsec == 0, "no resolution"); sym_cover("ok"); }
