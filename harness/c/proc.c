//@use rt.inc
//@use cfun.inc
//@entry ids q=60 shards=2 depth=4 covers=done
//@entry setids q=60 covers=done
//@entry groups q=90 covers=done,many,fail
//@entry names q=60 shards=2 depth=4 covers=some,none
//@entry uname q=60 covers=done,fail
//@entry conf q=60 shards=2 depth=5 covers=some,none,fail,unknown,intr
//@entry clock q=60 covers=done,fail
//@entry env q=60 shards=2 depth=4 covers=some,none,list
//@entry exec q=90 shards=4 depth=5 covers=plain,env,path,many
//@entry wait q=60 covers=exited,signaled,stopped,none,fail,other
//@entry child q=60 covers=fork,kill,pause,exit
//@entry sleep q=60 covers=alarm,sleep,woken
//@bounds every process, user and group number, every error number, every child status; names, variables and arguments of 0 to 3 arbitrary characters (and concrete ones of up to 5000); up to 2000 groups (12000 in the thorough tier); argument and environment lists of up to 3 strings and of 700 and 3000; every sleep time and remaining time; allocation pointer fresh, at the last position before a collection, and past it
#define RT_DIED
#define RT_OWN_SYSCONF
#include "cfun.inc"
#include <unistd.h>
#include <limits.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/times.h>
#include <sys/utsname.h>
#include <time.h>
#include <stdio.h>
#define PE "POSIX-ProcEnv"
#define PP "POSIX-Process"
static long ret;
#define N0(t, f) t H_##f(void) { sc_add(#f, 0, 0, 0, 0); return (t)sc_fail(ret); }
N0(pid_t, getpid) N0(pid_t, getppid) N0(pid_t, getpgrp) N0(pid_t, setsid) N0(pid_t, fork)
#define NU(t, f) t H_##f(void) { sc_add(#f, 0, 0, 0, 0); return (t)ret; }
NU(uid_t, getuid) NU(uid_t, geteuid) NU(gid_t, getgid) NU(gid_t, getegid)
void entry_ids(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), k = sym_choose(8); static const char *fs[] = { "getpid", "getppid", "getpgrp", "setsid", "getuid", "geteuid", "getgid", "getegid" };
  ret = k == 3 ? sym_range(-1, 0x7fffffff) : k < 3 ? sym_range(0, 0x7fffffff) : (long)sym_bits(32); cc_position(p); ml_val_t v = cc_call(PE, fs[k], ML_unit); sc_only(fs[k]);
  if (k == 3 && ret < 0) is_syserr(); else { no_exn("raised"); sym_assert(k < 4 ? v == INT_CtoML(ret) : is_w64(v, ret), "another process, user or group"); } sym_cover("done"); }
int H_setuid(uid_t u) { sc_add("setuid", u, 0, 0, 0); return sc_fail(ret); }
int H_setgid(gid_t u) { sc_add("setgid", u, 0, 0, 0); return sc_fail(ret); }
int H_setpgid(pid_t a, pid_t b) { sc_add("setpgid", a, b, 0, 0); return sc_fail(ret); }
static void unit_or_err(ml_val_t v) { if (ret < 0) is_syserr(); else { no_exn("a successful operation raised an exception"); sym_assert(v == ML_unit, "the result is not unit"); } }
void entry_setids(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), k = sym_choose(3); Word_t u = sym_bits(32); long a = sym_range(-0x80000000l, 0x7fffffff), b = sym_range(-0x80000000l, 0x7fffffff); ret = sym_range(-1, 0); static const char *fs[] = { "setuid", "setgid", "setpgid" };
  ml_val_t w = cc_w64(u), r = ML_Alloc2(msp, INT_CtoML(a), INT_CtoML(b)); cc_position(p); ml_val_t v = cc_call(PE, fs[k], k == 2 ? r : w); sc_t *c = sc_only(fs[k]);
  sym_assert(k == 2 ? c->a[0] == a && c->a[1] == b : (Unsigned32_t)c->a[0] == (Unsigned32_t)u, "another process, user or group is set"); unit_or_err(v); sym_cover("done"); }
static long ngr; static int grfail; static gid_t gr[66000];
static int grshort, grasked;   /* grshort: the system knows more groups than the usual limit, and refuses until asked how many */
int H_getgroups(int n, gid_t *l) { if (grfail && (grfail < 2 || grasked)) { if (n == 0) return ngr; errno = cc_errno; return -1; } if (n == 0) { grasked = 1; return ngr; } if (grshort && !grasked) { errno = EINVAL; return -1; } if (n < ngr) { errno = EINVAL; return -1; } sym_assert(sym_valid(l, n * sizeof(gid_t)), "getgroups into memory that is not there"); memcpy(l, gr, ngr * sizeof(gid_t)); return ngr; }
void entry_groups(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); static const long ns[] = { 0, 1, 4, 210, 2000, 12000 }; ngr = ns[sym_choose(sym_tier() ? 6 : 5)]; grfail = sym_choose(2); if (grfail) sym_assume(cc_errno != EINVAL);
  for (long i = 0; i < ngr; i++) gr[i] = i < 4 ? (gid_t)sym_bits(32) : 1000 + i; grasked = 0; grshort = sym_choose(2); if (grfail && grshort && ngr > 0 && sym_choose(2)) grfail = 2; cc_position(p); ml_val_t v = cc_call(PE, "getgroups", ML_unit); if (grfail) { is_syserr(); sym_cover("fail"); return; }
  no_exn("getgroups raised"); int ok = 1; for (long i = 0; i < ngr; i++) { sym_assert(v != LIST_nil && isBOXED(v), "groups are missing"); ok &= is_w64(LIST_hd(v), gr[i]); v = LIST_tl(v); } sym_assert(ok, "other groups"); sym_assert(v == LIST_nil, "too many groups"); if (ngr > 200) sym_cover("many"); sym_cover("done"); }
static char nm[6000]; static int isnull; static long nmlen;
char *H_getlogin(void) { sc_add("getlogin", 0, 0, 0, 0); return isnull ? NULL : nm; }
char *H_ttyname(int fd) { sc_add("ttyname", fd, 0, 0, 0); return isnull ? NULL : nm; }
char *H_ctermid(char *b) { sc_add("ctermid", 0, 0, 0, 0); if (isnull == 1) return NULL; if (isnull == 2) { if (b) b[0] = 0; return ""; } if (b) { memcpy(b, nm, nmlen + 1); return b; } return nm; }
int H_isatty(int fd) { sc_add("isatty", fd, 0, 0, 0); return (int)ret; }
void entry_names(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), k = sym_choose(4); isnull = sym_choose(k == 2 ? 3 : 2); nmlen = k == 2 ? cc_sstr(nm, 3) : sym_choose(2) ? 5000 : cc_sstr(nm, 3); if (nmlen > 3) { memset(nm, 'x', nmlen); nm[nmlen] = 0; } if (k == 2 && nmlen == 0) sym_stop();
  long fd = sym_range(0, 0x7fffffff); ret = sym_range(0, 1); cc_position(p); static const char *fs[] = { "getlogin", "ttyname", "ctermid", "isatty" }; ml_val_t v = cc_call(PE, fs[k], k == 1 || k == 3 ? INT_CtoML(fd) : ML_unit); sc_t *c = sc_only(fs[k]);
  if (k == 1 || k == 3) sym_assert(c->a[0] == fd, "another descriptor");
  if (k == 3) { no_exn("isatty raised"); sym_assert(v == (ret ? ML_true : ML_false), "isatty result"); return; }
  if (isnull) { is_msgerr(); sym_cover("none"); } else { no_exn("raised"); sym_assert(is_str(v, nm, nmlen), "another name"); sym_cover("some"); } }
static struct utsname un;
int H_uname(struct utsname *u) { if (ret < 0) { errno = cc_errno; return -1; } *u = un; return 0; }
void entry_uname(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); ret = sym_choose(2) - 1; char *fs[] = { un.sysname, un.nodename, un.release, un.version, un.machine }; static const char *ks[] = { "sysname", "nodename", "release", "version", "machine" }; int big = sym_choose(5);
  for (int i = 0; i < 5; i++) { if (i == big) { memset(fs[i], 'b', sizeof un.sysname - 1); fs[i][sizeof un.sysname - 1] = 0; } else { sym_bytes(fs[i], 2); sym_assume((fs[i][0] != 0) & (fs[i][1] != 0)); fs[i][2] = 0; } }
  cc_position(p); ml_val_t v = cc_call(PE, "uname", ML_unit); if (ret < 0) { is_syserr(); sym_cover("fail"); return; } no_exn("uname raised"); int seen = 0, n = 0;
  for (; v != LIST_nil; v = LIST_tl(v)) { sym_assert(isBOXED(v) && n++ < 5, "the list of names"); ml_val_t pr = LIST_hd(v); for (int i = 0; i < 5; i++) if (is_cstr(REC_SEL(pr, 0), ks[i])) { seen |= 1 << i; sym_assert(is_cstr(REC_SEL(pr, 1), fs[i]), "another system name"); } }
  sym_assert(seen == 31, "a system name is missing"); sym_cover("done"); }
static int sc_name, sc_intr, sc_on;
long H_sysconf(int name) { if (!sc_on) return 4096; sym_assert(name == sc_name, "another system value is asked for"); if (sc_intr) { sc_intr = 0; errno = EINTR; return -1; } if (ret == -2) return -1; return sc_fail(ret); }
void entry_conf(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); static const struct { const char *n; int v; } t[] = { {"ARG_MAX", _SC_ARG_MAX}, {"CHILD_MAX", _SC_CHILD_MAX}, {"CLK_TCK", _SC_CLK_TCK}, {"JOB_CONTROL", _SC_JOB_CONTROL}, {"NGROUPS_MAX", _SC_NGROUPS_MAX}, {"OPEN_MAX", _SC_OPEN_MAX}, {"SAVED_IDS", _SC_SAVED_IDS}, {"STREAM_MAX", _SC_STREAM_MAX}, {"TZNAME_MAX", _SC_TZNAME_MAX}, {"VERSION", _SC_VERSION}, {"PAGESIZE", _SC_PAGESIZE}, {"NPROCESSORS_ONLN", _SC_NPROCESSORS_ONLN}, {"2_VERSION", _SC_2_VERSION}, {"XOPEN_VERSION", _SC_XOPEN_VERSION}, {"NO_SUCH", 0}, {"", 0}, {"ARG_MA", 0} };
  int i = sym_choose(17), out = sym_choose(3); sc_intr = sym_choose(2); if (cc_errno == EINTR) sym_stop(); ret = out == 0 ? sym_range(0, 0x7fffffffffff) : out == 1 ? -1 : -2; sc_name = t[i].v; errno = 9; int intr = sc_intr;
  ml_val_t a = cc_str(t[i].n, strlen(t[i].n)); cc_position(p); if (i >= 14) cc_errno = EINVAL; sc_on = 1; ml_val_t v = cc_call(PE, "sysconf", a);
  if (i >= 14) { is_syserr(); sym_cover("unknown"); return; } if (intr) sym_cover("intr");
  if (out == 0) { no_exn("sysconf raised"); sym_assert(is_w64(v, ret), "another system value"); sym_cover("some"); } else if (out == 2) { is_msgerr(); sym_cover("none"); } else { is_syserr(); sym_cover("fail"); } }
static struct tms tm_; 
clock_t H_times(struct tms *t) { if (ret < 0) { errno = cc_errno; return -1; } *t = tm_; return ret; }
time_t H_time(time_t *t) { if (t) *t = ret; return ret; }
void entry_clock(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); cc_position(p); ret = sym_range(0, 0x7fffffff);
  if (sym_choose(2)) { ml_val_t v = cc_call(PE, "time", ML_unit); no_exn("time raised"); sym_assert(v == INT_CtoML(ret), "another time"); return; }
  if (sym_choose(2)) { ret = -1; cc_call(PE, "times", ML_unit); is_syserr(); sym_cover("fail"); return; }
  tm_.tms_utime = sym_range(0, 0x7fffffff); tm_.tms_stime = sym_range(0, 0x7fffffff); tm_.tms_cutime = sym_range(0, 0x7fffffff); tm_.tms_cstime = sym_range(0, 0x7fffffff); ml_val_t v = cc_call(PE, "times", ML_unit); no_exn("times raised"); sym_assert(is_rec(v, 5), "times record");
  sym_assert((REC_SEL(v, 0) == INT_CtoML(ret)) & (REC_SEL(v, 1) == INT_CtoML(tm_.tms_utime)) & (REC_SEL(v, 2) == INT_CtoML(tm_.tms_stime)) & (REC_SEL(v, 3) == INT_CtoML(tm_.tms_cutime)) & (REC_SEL(v, 4) == INT_CtoML(tm_.tms_cstime)), "process times"); sym_cover("done"); }
char *H_getenv(const char *n) { sc_copy(sc_add("getenv", 0, 0, 0, 0), 0, n); return isnull ? NULL : nm; }
extern char **environ;
void entry_env(void) {
  cc_init(); sc_reset(); int p = sym_choose(3);
  if (sym_choose(2)) { static char es[3][8], *ev[4]; int n = sym_choose(4); for (int i = 0; i < n; i++) { cc_sstr(es[i], 2); ev[i] = es[i]; } ev[n] = NULL; environ = ev; cc_position(p); ml_val_t v = cc_call(PE, "environ", ML_unit); no_exn("environ raised");
    for (int i = 0; i < n; i++) { sym_assert(v != LIST_nil && is_cstr(LIST_hd(v), es[i]), "another environment"); v = LIST_tl(v); } sym_assert(v == LIST_nil, "a longer environment"); sym_cover("list"); return; }
  isnull = sym_choose(2); nmlen = sym_choose(2) ? 5000 : cc_sstr(nm, 3); if (nmlen > 3) { memset(nm, 'x', nmlen); nm[nmlen] = 0; } char b[8]; long n = cc_sstr(b, 3); ml_val_t a = cc_str(b, n); cc_position(p); ml_val_t v = cc_call(PE, "getenv", a); sc_t *c = sc_only("getenv"); sym_assert(same(c->s[0], b, n), "another variable"); no_exn("getenv raised");
  if (isnull) { sym_assert(v == OPTION_NONE, "a variable that is not there has a value"); sym_cover("none"); } else { sym_assert(is_some(v) && is_str(REC_SEL(v, 0), nm, nmlen), "another value of the variable"); sym_cover("some"); } }
/* exec: the argument and environment vectors that the system gets */
static char xa[4][8], xe[4][8], xp[8]; static long xpn; static int nxa, nxe, nmany; static int xcalled;
static void chkvec(char *const *v, char (*x)[8], int n, const char *m) { sym_assert(sym_valid(v, (n + 1) * sizeof *v), m); int ok = 1; for (int i = 0; i < n; i++) { sym_assert(v[i] != NULL, m); ok &= i < 4 ? same(v[i], x[i], strlen(x[i])) : v[i][0] == 'm' && v[i][1] == 0; } sym_assert(ok && v[n] == NULL, m); }
int H_execv(const char *p, char *const *a) { sc_add("exec", 0, 0, 0, 0); sym_assert(same(p, xp, xpn), "another program is run"); chkvec(a, xa, nxa, "other arguments"); errno = cc_errno; return -1; }
int H_execvp(const char *p, char *const *a) { sc_add("execp", 0, 0, 0, 0); sym_assert(same(p, xp, xpn), "another program is run"); chkvec(a, xa, nxa, "other arguments"); errno = cc_errno; return -1; }
int H_execve(const char *p, char *const *a, char *const *e) { sc_add("exece", 0, 0, 0, 0); sym_assert(same(p, xp, xpn), "another program is run"); chkvec(a, xa, nxa, "other arguments"); chkvec(e, xe, nxe, "another environment"); errno = cc_errno; return -1; }
static ml_val_t mklist(char (*x)[8], int n) { ml_val_t l = LIST_nil, m = cc_str("m", 1), s; for (int i = n - 1; i >= 0; i--) { s = i < 4 ? cc_str(x[i], strlen(x[i])) : m; LIST_cons(msp, l, s, l); } return l; }
void entry_exec(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), k = sym_choose(3); static const int ns[] = { 0, 1, 3, 700, 3000 }; nxa = ns[sym_choose(4)]; nxe = k == 1 ? ns[sym_choose(5)] : 0; xpn = cc_sstr(xp, 2);
  for (int i = 0; i < nxa && i < 4; i++) if (i == 0) cc_sstr(xa[i], 2); else { xa[i][0] = 'a' + i; xa[i][1] = 0; } for (int i = 0; i < nxe && i < 4; i++) if (i == 0) cc_sstr(xe[i], 2); else { xe[i][0] = 'p' + i; xe[i][1] = 0; }
  if (sym_choose(2)) cc_fill();
  ml_val_t a = mklist(xa, nxa), e = mklist(xe, nxe), s = cc_str(xp, xpn), r = k == 1 ? ML_Alloc3(msp, s, a, e) : ML_Alloc2(msp, s, a);
  cc_position(p); static const char *fs[] = { "exec", "exece", "execp" }; cc_call(PP, fs[k], r); sc_only(fs[k]); is_syserr(); sym_cover(k == 0 ? "plain" : k == 1 ? "env" : "path"); if (nxa + nxe > 500) sym_cover("many"); }
static int wst;
pid_t H_waitpid(pid_t p, int *s, int o) { sc_add("waitpid", p, o, 0, 0); if (ret >= 0) *s = wst; return sc_fail(ret); }
void entry_wait(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); long pid = sym_range(-0x80000000l, 0x7fffffff); Word_t o = sym_bits(31); ret = sym_range(-1, 0x7fffffff); wst = (int)sym_bits(16); ml_val_t w = cc_w64(o), a = ML_Alloc2(msp, INT_CtoML(pid), w); cc_position(p);
  ml_val_t v = cc_call(PP, "waitpid", a); sc_t *c = sc_only("waitpid"); sym_assert((c->a[0] == pid) & (c->a[1] == (long)o), "waits for another process");
  if (ret < 0) { is_syserr(); sym_cover("fail"); return; } if (ret == 0) { no_exn("waitpid raised though no child has changed"); sym_assert(is_rec(v, 3) && REC_SEL(v, 0) == INT_CtoML(0), "a child reported though none has changed"); sym_cover("none"); return; }
  int lo = wst & 0x7f, hi = (wst >> 8) & 0xff, how, val; if (lo == 0) { how = 0; val = hi; sym_cover("exited"); } else if (lo == 0x7f && (wst & 0xff) == 0x7f) { how = 2; val = hi; sym_cover("stopped"); } else if (lo != 0x7f) { how = 1; val = lo; sym_cover("signaled"); } else { is_msgerr(); sym_cover("other"); return; }
  no_exn("waitpid raised"); sym_assert(is_rec(v, 3) && (REC_SEL(v, 0) == INT_CtoML(ret)) & (REC_SEL(v, 1) == INT_CtoML(how)) & (REC_SEL(v, 2) == INT_CtoML(val)), "another child, or another way it ended"); }
int H_kill(pid_t p, int s) { sc_add("kill", p, s, 0, 0); return sc_fail(ret); }
int H_pause(void) { sc_add("pause", 0, 0, 0, 0); errno = EINTR; return -1; }
static long excode;
void rt_died(void) { sym_assert(rt_exit_code == excode, "the process exits with another code"); sym_cover("exit"); }
void entry_child(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); ml_val_t v; long a = sym_range(-0x80000000l, 0x7fffffff), b = sym_range(0, 64); sc_t *c;
  switch (sym_choose(4)) {
  case 0: ret = sym_range(-1, 0x7fffffff); cc_position(p); v = cc_call(PP, "fork", ML_unit); sc_only("fork"); if (ret < 0) is_syserr(); else { no_exn("fork raised"); sym_assert(v == INT_CtoML(ret), "fork result"); } sym_cover("fork"); break;
  case 1: ret = sym_range(-1, 0); v = ML_Alloc2(msp, INT_CtoML(a), INT_CtoML(b)); cc_position(p); v = cc_call(PP, "kill", v); c = sc_only("kill"); sym_assert((c->a[0] == a) & (c->a[1] == b), "another process is signalled"); unit_or_err(v); sym_cover("kill"); break;
  case 2: ret = 0; cc_position(p); v = cc_call(PP, "pause", ML_unit); sc_only("pause"); unit_or_err(v); sym_cover("pause"); break;
  default: excode = sym_range(0, 255); rt_die_ok = 1; cc_position(p); cc_call(PP, "exit", INT_CtoML(excode)); sym_fail("exit returned");
  } }
static struct timespec slp, rem_; static int woken;
unsigned H_alarm(unsigned s) { sc_add("alarm", s, 0, 0, 0); return (unsigned)ret; }
int H_nanosleep(const struct timespec *a, struct timespec *b) { sc_add("nanosleep", a->tv_sec, a->tv_nsec, 0, 0); if (woken) { *b = rem_; errno = EINTR; return -1; } return 0; }
void entry_sleep(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); long s = sym_range(0, 0x7fffffff), n = sym_range(0, 999999999), q = sym_range(0, 0x7fffffff), r = sym_range(0, 999999999); ml_val_t w = cc_w64(s * 1000000000ul + n); cc_position(p); sc_t *c;
  if (sym_choose(2)) { ret = q; ml_val_t v = cc_call(PP, "alarm", w); c = sc_only("alarm"); no_exn("alarm raised"); sym_assert(c->a[0] == s, "the alarm is set for another time"); sym_assert(is_w64(v, q * 1000000000ul), "another remaining time"); sym_cover("alarm"); return; }
  woken = sym_choose(2); rem_.tv_sec = q; rem_.tv_nsec = r; ml_val_t v = cc_call(PP, "sleep", w); c = sc_only("nanosleep"); no_exn("sleep raised"); sym_assert((c->a[0] == s) & (c->a[1] == n), "another time to sleep"); sym_assert(is_w64(v, woken ? q * 1000000000ul + r : 0), "another remaining time"); sym_cover(woken ? "woken" : "sleep"); }
