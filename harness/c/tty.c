//@use rt.inc
//@use cfun.inc
//@entry simple q=60 shards=2 depth=4 covers=done
//@entry getattr q=60 covers=done,fail
//@entry setattr q=60 covers=done,fail,speed
//@entry winsz q=60 covers=some,none
//@bounds every descriptor, argument, attribute word, control character, speed and error number; allocation pointer fresh, at the last position before a collection, and past it
#include "cfun.inc"
#include <termios.h>
#include <unistd.h>
#include <sys/ioctl.h>
#define TTY "POSIX-TTY"
static long ret;
#define F2(f, t) int H_##f(int a, t b) { sc_add(#f, a, b, 0, 0); return sc_fail(ret); }
F2(tcflow, int) F2(tcflush, int) F2(tcsendbreak, int) F2(tcsetpgrp, pid_t)
int H_tcdrain(int a) { sc_add("tcdrain", a, 0, 0, 0); return sc_fail(ret); }
pid_t H_tcgetpgrp(int a) { sc_add("tcgetpgrp", a, 0, 0, 0); return sc_fail(ret); }
static void unit_or_err(ml_val_t v) { if (ret < 0) is_syserr(); else { no_exn("a successful operation raised an exception"); sym_assert(v == ML_unit, "the result is not unit"); } }
void entry_simple(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), k = sym_choose(6); static const char *fs[] = { "tcflow", "tcflush", "tcsendbreak", "tcsetpgrp", "tcdrain", "tcgetpgrp" }; long fd = sym_range(0, 0x7fffffff), x = sym_range(-0x80000000l, 0x7fffffff); ret = k == 5 ? sym_range(-1, 0x7fffffff) : sym_range(-1, 0);
  ml_val_t a = k >= 4 ? INT_CtoML(fd) : ML_Alloc2(msp, INT_CtoML(fd), INT_CtoML(x)); cc_position(p); ml_val_t v = cc_call(TTY, fs[k], a); sc_t *c = sc_only(fs[k]); sym_assert(c->a[0] == fd && (k >= 4 || c->a[1] == x), "another terminal or argument");
  if (k == 5) { if (ret < 0) is_syserr(); else { no_exn("tcgetpgrp raised"); sym_assert(v == INT_CtoML(ret), "another process group"); } } else unit_or_err(v); sym_cover("done"); }
static struct termios at, got; static int nget, nset; static long gfd, sfd, sact;
int H_tcgetattr(int fd, struct termios *t) { gfd = fd; nget++; if (ret < 0) { errno = cc_errno; return -1; } *t = at; return 0; }
int H_tcsetattr(int fd, int act, const struct termios *t) { sfd = fd; sact = act; nset++; got = *t; return sc_fail(ret); }
speed_t H_cfgetispeed(const struct termios *t) { return t->c_ispeed; }
speed_t H_cfgetospeed(const struct termios *t) { return t->c_ospeed; }
static int badspeed;
int H_cfsetispeed(struct termios *t, speed_t s) { if (badspeed == 1) { errno = cc_errno; return -1; } t->c_ispeed = s; return 0; }
int H_cfsetospeed(struct termios *t, speed_t s) { if (badspeed == 2) { errno = cc_errno; return -1; } t->c_ospeed = s; return 0; }
void entry_getattr(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); long fd = sym_range(0, 0x7fffffff); ret = sym_choose(2) - 1; at.c_iflag = (tcflag_t)sym_bits(32); at.c_oflag = (tcflag_t)sym_bits(32); at.c_cflag = (tcflag_t)sym_bits(32); at.c_lflag = (tcflag_t)sym_bits(32); at.c_ispeed = (speed_t)sym_bits(32); at.c_ospeed = (speed_t)sym_bits(32); sym_bytes(at.c_cc, NCCS);
  cc_position(p); ml_val_t v = cc_call(TTY, "tcgetattr", INT_CtoML(fd)); sym_assert(nget == 1 && gfd == fd, "another terminal"); if (ret < 0) { is_syserr(); sym_cover("fail"); return; }
  no_exn("tcgetattr raised"); sym_assert(is_rec(v, 7), "the attributes are not a record of 7 fields"); sym_assert(is_w64(REC_SEL(v, 0), at.c_iflag) & is_w64(REC_SEL(v, 1), at.c_oflag) & is_w64(REC_SEL(v, 2), at.c_cflag) & is_w64(REC_SEL(v, 3), at.c_lflag), "other flags"); sym_assert(is_str(REC_SEL(v, 4), (char *)at.c_cc, NCCS), "other control characters"); sym_assert(is_w64(REC_SEL(v, 5), at.c_ispeed) & is_w64(REC_SEL(v, 6), at.c_ospeed), "another speed"); sym_cover("done"); }
void entry_setattr(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); long fd = sym_range(0, 0x7fffffff), act = sym_range(0, 3); ret = sym_choose(2) - 1; badspeed = sym_choose(3); Word_t w[6]; for (int i = 0; i < 6; i++) w[i] = sym_bits(32); char cc[NCCS]; sym_bytes(cc, NCCS);
  ml_val_t f[6]; for (int i = 0; i < 6; i++) f[i] = cc_w64(w[i]); ml_val_t s = cc_str(cc, NCCS); ML_AllocWrite(msp, 0, MAKE_DESC(7, DTAG_record)); for (int i = 0; i < 4; i++) ML_AllocWrite(msp, i + 1, f[i]); ML_AllocWrite(msp, 5, s); ML_AllocWrite(msp, 6, f[4]); ML_AllocWrite(msp, 7, f[5]); ml_val_t r = ML_Alloc(msp, 7), a = ML_Alloc3(msp, INT_CtoML(fd), INT_CtoML(act), r);
  cc_position(p); ml_val_t v = cc_call(TTY, "tcsetattr", a); if (badspeed) { is_syserr(); sym_assert(nset == 0, "attributes set though a speed is refused"); sym_cover("speed"); return; }
  sym_assert(nset == 1 && (sfd == fd) & (sact == act), "another terminal or action"); int ok = (got.c_iflag == (tcflag_t)w[0]) & (got.c_oflag == (tcflag_t)w[1]) & (got.c_cflag == (tcflag_t)w[2]) & (got.c_lflag == (tcflag_t)w[3]) & (got.c_ispeed == (speed_t)w[4]) & (got.c_ospeed == (speed_t)w[5]); for (int i = 0; i < NCCS; i++) ok &= got.c_cc[i] == (cc_t)cc[i]; sym_assert(ok, "other attributes are set"); unit_or_err(v); sym_cover(ret < 0 ? "fail" : "done"); }
static struct winsize ws;
int H_ioctl(int fd, unsigned long req, ...) { va_list ap; va_start(ap, req); struct winsize *w = va_arg(ap, struct winsize *); va_end(ap); sc_add("ioctl", fd, req, 0, 0); if (ret < 0) { errno = cc_errno; return -1; } *w = ws; return 0; }
void entry_winsz(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); long fd = sym_range(0, 0x7fffffff); ret = sym_choose(2) - 1; ws.ws_row = sym_bits(16); ws.ws_col = sym_bits(16); cc_position(p); ml_val_t v = cc_call(TTY, "getwinsz", INT_CtoML(fd)); sc_t *c = sc_only("ioctl"); sym_assert(c->a[0] == fd && c->a[1] == TIOCGWINSZ, "another terminal"); no_exn("getwinsz raised");
  if (ret < 0) { sym_assert(v == OPTION_NONE, "a size though there is none"); sym_cover("none"); } else { sym_assert(is_some(v), "no size"); ml_val_t q = REC_SEL(v, 0); sym_assert(isBOXED(q) && REC_SEL(q, 0) == INT_CtoML(ws.ws_row) && REC_SEL(q, 1) == INT_CtoML(ws.ws_col), "another window size"); sym_cover("some"); } }
