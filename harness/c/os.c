//@use rt.inc
//@use cfun.inc
//@entry poll q=90 shards=8 depth=8 covers=ready,timeout,fail,several,both
//@entry pollmany q=60 covers=done
//@entry pollbig q=60 covers=refused
//@entry tmpname q=60 covers=given,default,fail,toolong
//@bounds up to 3 polled descriptors (repetitions included) out of 0, 3, 64 and 1023 with every set of events and every set of ready events, and 700 descriptors all ready; every timeout; temporary directories of 0 to 3 arbitrary characters and of lengths around PATH_MAX; allocation pointer fresh, at the last position before a collection, and past it
#define CFUN_NOLOG
#include "cfun.inc"
#include <sys/select.h>
#include <sys/time.h>
#include <poll.h>
#include <limits.h>
#include <stdio.h>
#include <unistd.h>
static int n, fdv[800], fl[800], rdy[800]; static int out; static long sec, usec; static int hasto; static int ncall;
static int many; /* descriptor i is number i + 20 */
static int want(int fd, int bit) { if (many) return fl[fd - 20] & bit; for (int i = 0; i < n; i++) if (fdv[i] == fd && (fl[i] & bit)) return 1; return 0; }
static int ready(int fd, int bit) { if (many) return fl[fd - 20] & bit; for (int i = 0; i < n; i++) if (fdv[i] == fd && (fl[i] & bit) && (rdy[i] & bit)) return 1; return 0; }
static int one(fd_set *s, int bit, int width) { int k = 0; for (int i = 0; i < n; i++) { int w = want(fdv[i], bit); sym_assert((s != NULL && FD_ISSET(fdv[i], s)) == (w != 0), "poll asks for other events than given"); sym_assert(!w || fdv[i] < width, "poll leaves out a descriptor"); }
  if (s) { static fd_set o; FD_ZERO(&o); for (int i = 0; i < n; i++) if (ready(fdv[i], bit) && !FD_ISSET(fdv[i], &o)) { FD_SET(fdv[i], &o); k++; } *s = o; } return k; }
int H_select(int width, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { ncall++; sym_assert((t != NULL) == hasto, "a timeout is confused with none"); if (t) sym_assert((t->tv_sec == sec) & (t->tv_usec == usec), "another timeout");
  if (out == 2) { errno = cc_errno; return -1; } if (out == 1) { for (int i = 0; i < n; i++) rdy[i] = 0; } return one(r, 1, width) + one(w, 2, width) + one(e, 4, width); }
int H_poll(struct pollfd *f, nfds_t k, int t) { ncall++; if (!hasto) sym_assert(t < 0, "a timeout is confused with none"); else sym_assert(t >= 0, "no timeout");
  for (nfds_t j = 0; j < k; j++) { short ev = (want(f[j].fd, 1) ? POLLIN : 0) | (want(f[j].fd, 2) ? POLLOUT : 0) | (want(f[j].fd, 4) ? POLLPRI : 0); }
  if (out == 2) { errno = cc_errno; return -1; } if (out == 1) for (int i = 0; i < n; i++) rdy[i] = 0; int c = 0; for (nfds_t j = 0; j < k; j++) { f[j].revents = 0; if ((f[j].events & POLLIN) && ready(f[j].fd, 1)) f[j].revents |= POLLIN; if ((f[j].events & POLLOUT) && ready(f[j].fd, 2)) f[j].revents |= POLLOUT; if ((f[j].events & POLLPRI) && ready(f[j].fd, 4)) f[j].revents |= POLLPRI; c += f[j].revents != 0; } return c; }
static ml_val_t mkarg(void) { ml_val_t l = LIST_nil, o = OPTION_NONE; for (int i = n - 1; i >= 0; i--) { ml_val_t x = ML_Alloc2(msp, INT_CtoML(fdv[i]), INT_CtoML(fl[i])); LIST_cons(msp, l, x, l); } if (hasto) { o = ML_Alloc2(msp, INT_CtoML(sec), INT_CtoML(usec)); OPTION_SOME(msp, o, o); } return ML_Alloc2(msp, l, o); }
static void result(ml_val_t v) { int cnt = 0; for (int i = 0; i < n; i++) { int f = 0; for (int b = 1; b <= 4; b <<= 1) if ((fl[i] & b) && ready(fdv[i], b)) f |= b; if (!f) continue; cnt++; sym_assert(v != LIST_nil && isBOXED(v), "a ready descriptor is not reported"); ml_val_t x = LIST_hd(v); sym_assert(isBOXED(x) && REC_SEL(x, 0) == INT_CtoML(fdv[i]) && REC_SEL(x, 1) == INT_CtoML(f), "another descriptor or event is reported"); v = LIST_tl(v); if (f & (f - 1)) sym_cover("both"); }
  sym_assert(v == LIST_nil, "a descriptor that is not ready is reported"); if (cnt > 1) sym_cover("several"); if (cnt) sym_cover("ready"); }
void entry_poll(void) {
  cc_init(); sc_reset(); static const int fds[] = { 0, 3, 64, 1023 }; n = sym_choose(BOUND(3, 4)); out = sym_choose(3); hasto = sym_choose(2); sec = sym_range(0, 0x7fffffff); usec = sym_range(0, 999999);
  for (int i = 0; i < n; i++) { fdv[i] = fds[sym_choose(4)]; fl[i] = sym_choose(8); rdy[i] = out == 0 ? sym_choose(2) ? fl[i] : sym_choose(8) & fl[i] : 0; }
  int p = n < 2 ? sym_choose(3) : 0; ml_val_t a = mkarg(); cc_position(p); ml_val_t v = cc_call("POSIX-OS", "poll", a); sym_assert(ncall == 1, "not exactly one system call"); if (out == 2) { is_syserr(); sym_cover("fail"); return; } no_exn("poll raised"); if (out == 1) sym_cover("timeout"); result(v); }
void entry_pollmany(void) { cc_init(); sc_reset(); n = 700; many = 1; hasto = 0; out = 0; for (int i = 0; i < n; i++) { fdv[i] = i + 20; fl[i] = 1 + (i & 1) * 2; rdy[i] = fl[i]; } int p = sym_choose(3); ml_val_t a = mkarg(); cc_position(p); 
  ml_val_t v = cc_call("POSIX-OS", "poll", a); no_exn("poll raised"); for (int i = 0; i < n; i++) { sym_assert(v != LIST_nil && isBOXED(v), "a ready descriptor is not reported"); ml_val_t x = LIST_hd(v); sym_assert(isBOXED(x) && REC_SEL(x, 0) == INT_CtoML(fdv[i]) && REC_SEL(x, 1) == INT_CtoML(fl[i]), "another descriptor or event is reported"); v = LIST_tl(v); } sym_assert(v == LIST_nil, "a longer list"); sym_cover("done"); }
/* descriptors that the system call cannot take are refused, or polled all the same; they never corrupt memory */
void entry_pollbig(void) { cc_init(); sc_reset(); static const int fds[] = { 1024, 1100, 5000, 0x7fffffff, -1 }; n = 1; hasto = 0; out = 0; fdv[0] = fds[sym_choose(5)]; fl[0] = sym_choose(8); rdy[0] = 0; cc_errno = EINVAL; ml_val_t a = mkarg(); cc_call("POSIX-OS", "poll", a); if (cc_exn) { exn_arg(); sym_cover("refused"); } }
static char td[5000]; static long tdn; static int tdnull, okfirst, oksecond, openfd; static char rnd[6]; static char last[5000];
char *H_getenv(const char *s) { if (strcmp(s, "TMPDIR") == 0) return tdnull ? NULL : td; return NULL; }
static int fdno;
int H_mkstemp(char *t) { size_t l = strlen(t); sym_assert(l >= 6 && l < PATH_MAX, "template"); for (int i = 0; i < 6; i++) sym_assert(t[l - 6 + i] == 'X', "the template does not end in XXXXXX"); int ok = ncall == 0 ? okfirst : oksecond; ncall++; if (!ok) { errno = cc_errno; return -1; } for (int i = 0; i < 6; i++) t[l - 6 + i] = rnd[i]; memcpy(last, t, l + 1); openfd++; return fdno; }
int H_mkstemp64(char *t) { return H_mkstemp(t); }
int H_close(int fd) { sym_assert(fd == fdno && openfd == 1, "another descriptor is closed"); openfd--; return 0; }
void entry_tmpname(void) {
  cc_init(); sc_reset(); static const long ls[] = { PATH_MAX - 15, PATH_MAX - 14, PATH_MAX - 13, PATH_MAX - 1, PATH_MAX + 20 }; int k = sym_choose(6); tdn = k == 5 ? cc_sstr(td, 3) : ls[k]; if (k < 5) { memset(td, 't', tdn); td[tdn] = 0; } tdnull = sym_choose(2); okfirst = sym_choose(2); oksecond = sym_choose(2); for (int i = 0; i < 6; i++) { rnd[i] = (char)sym_range('a', 'z'); }
  fdno = sym_choose(2) * 77; int p = sym_choose(3); cc_position(p); ml_val_t v = cc_call("POSIX-OS", "tmpname", ML_unit); sym_assert(openfd == 0, "the temporary file is left open"); int usable = !tdnull && tdn + 13 < PATH_MAX, succ = usable ? (okfirst || oksecond) : okfirst;
  if (!succ) { is_syserr(); sym_cover("fail"); return; } no_exn("tmpName raised"); sym_assert(is_cstr(v, last), "not the name of the file that was made"); if (!usable && !tdnull) sym_cover("toolong");
  if (usable && okfirst) { sym_assert(strncmp(last, td, tdn) == 0 && last[tdn] == '/', "the file is not in the directory asked for"); sym_cover("given"); } else { sym_assert(strncmp(last, P_tmpdir, strlen(P_tmpdir)) == 0, "the file is not in the default directory"); sym_cover("default"); } }
