//@use rt.inc
//@use cfun.inc
//@entry calls q=60 shards=8 depth=6 covers=done,fail
//@entry options q=60 shards=8 depth=6 covers=get,set,fail,linger
//@entry recv q=90 shards=8 depth=7 covers=data,empty,fail,peek,oob
//@entry recvbig q=60 shards=4 depth=5 covers=done
//@entry send q=90 shards=8 depth=7 covers=send,sendto,fail
//@entry names q=60 shards=8 depth=6 covers=done,fail
//@entry inet q=60 shards=4 depth=5 covers=done
//@entry unixaddr q=60 shards=4 depth=5 covers=done,refused
//@entry family q=60 shards=4 depth=5 covers=known,list
//@bounds every descriptor, option value, port, address byte and error number; transfers of 0 to 12 symbolic bytes with any shorter count and of 4000 to 6000 bytes; socket addresses of 0 to 128 bytes; Unix paths of 0 to 3 arbitrary characters and of lengths around the limit; allocation pointer fresh, at the last position before a collection, and past it
#include "cfun.inc"
#include <unistd.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#define SO "SMLNJ-Sockets"
static long ret; static int opt; static struct linger lin; static char abuf[1100]; static socklen_t alen; static char data[8]; static char snd[32]; static long seenopt; static int optset; static struct linger seenlin;
int H_socket(int d, int t, int p) { sc_add("socket", d, t, p, 0); return sc_fail(ret); }
int H_socketpair(int d, int t, int p, int v[2]) { sc_add("socketpair", d, t, p, 0); if (ret >= 0) { v[0] = opt; v[1] = (int)seenopt; } return sc_fail(ret); }
int H_listen(int s, int n) { sc_add("listen", s, n, 0, 0); return sc_fail(ret); }
int H_shutdown(int s, int n) { sc_add("shutdown", s, n, 0, 0); return sc_fail(ret); }
int H_close(int s) { sc_add("close", s, 0, 0, 0); return sc_fail(ret); }
static void addr_in(sc_t *c, const void *a, socklen_t n) { c->a[4] = n; sym_assert(n <= 64 && sym_valid(a, n), "the address is not within its vector"); memcpy(c->s[0], a, n); }
int H_bind(int s, const struct sockaddr *a, socklen_t n) { addr_in(sc_add("bind", s, 0, 0, 0), a, n); return sc_fail(ret); }
int H_connect(int s, const struct sockaddr *a, socklen_t n) { addr_in(sc_add("connect", s, 0, 0, 0), a, n); return sc_fail(ret); }
static void addr_out(void *a, socklen_t *n) { sym_assert(*n >= 128 && sym_valid(a, *n), "no room for an address"); memcpy(a, abuf, alen); *n = alen; }
int H_accept(int s, struct sockaddr *a, socklen_t *n) { sc_add("accept", s, 0, 0, 0); if (ret >= 0) addr_out(a, n); return sc_fail(ret); }
int H_getsockname(int s, struct sockaddr *a, socklen_t *n) { sc_add("getsockname", s, 0, 0, 0); if (ret >= 0) addr_out(a, n); return sc_fail(ret); }
int H_getpeername(int s, struct sockaddr *a, socklen_t *n) { sc_add("getpeername", s, 0, 0, 0); if (ret >= 0) addr_out(a, n); return sc_fail(ret); }
int H_getsockopt(int s, int l, int o, void *v, socklen_t *n) { sc_add("getsockopt", s, l, o, *n); sym_assert(sym_valid(v, *n), "no room for an option"); if (ret >= 0) { if (o == SO_LINGER) { sym_assert(*n == sizeof lin, "size of an option"); memcpy(v, &lin, sizeof lin); } else { sym_assert(*n == sizeof(int), "size of an option"); memcpy(v, &opt, sizeof opt); } } return sc_fail(ret); }
int H_setsockopt(int s, int l, int o, const void *v, socklen_t n) { sc_add("setsockopt", s, l, o, n); sym_assert(sym_valid(v, n), "option"); if (o == SO_LINGER) { sym_assert(n == sizeof lin, "size of an option"); memcpy(&seenlin, v, sizeof lin); } else { int x; sym_assert(n == sizeof(int), "size of an option"); memcpy(&x, v, sizeof x); seenopt = x; } return sc_fail(ret); }
int H_ioctl(int s, unsigned long r, ...) { va_list ap; va_start(ap, r); int *p = va_arg(ap, int *); va_end(ap); sc_add("ioctl", s, r, 0, 0); if (r == FIONBIO) seenopt = *p; else if (ret >= 0) *p = opt; return sc_fail(ret); }
int H_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long x = va_arg(ap, long); va_end(ap); sc_add("fcntl", fd, cmd, x, 0); return sc_fail(ret); }
static long big; static unsigned char pat(long i) { return (unsigned char)(i * 7 + 3); }
static ssize_t rcv(void *b, size_t n) { sym_assert(sym_valid(b, n), "data received into memory that does not hold the requested number of bytes"); if (ret > 0) { if (big) for (long i = 0; i < ret; i++) ((char *)b)[i] = pat(i); else memcpy(b, snd, ret); } return sc_fail(ret); }
ssize_t H_recv(int s, void *b, size_t n, int f) { sc_add("recv", s, n, f, 0); return rcv(b, n); }
ssize_t H_recvfrom(int s, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { sc_add("recvfrom", s, n, f, 0); if (ret >= 0) addr_out(a, l); return rcv(b, n); }
ssize_t H_send(int s, const void *b, size_t n, int f) { sc_add("send", s, n, f, 0); sym_assert(sym_valid(b, n), "data sent from memory that does not hold the requested number of bytes"); memcpy(snd, b, n); return sc_fail(ret); }
ssize_t H_sendto(int s, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { addr_in(sc_add("sendto", s, n, f, 0), a, l); sym_assert(sym_valid(b, n), "data sent from memory that does not hold the requested number of bytes"); memcpy(snd, b, n); return sc_fail(ret); }
static long anfd(void) { return sym_range(0, 0x7fffffff); }
static long anint(void) { return sym_range(-0x80000000L, 0x7fffffff); }
/* a Word8Vector: a sequence header over raw bytes */
static int is_bytes(ml_val_t s, const char *v, long n) { if (!(isBOXED(s) && OBJ_DESC(s) == DESC_word8vec && REC_SEL(s, 1) == INT_CtoML(n))) return 0; if (n == 0) return 1; ml_val_t d = REC_SEL(s, 0); if (!isBOXED(d) || (GET_TAG(OBJ_DESC(d)) != DTAG_raw && GET_TAG(OBJ_DESC(d)) != DTAG_raw64) || !sym_valid(PTR_MLtoC(char, d), n)) return 0; int ok = 1; for (long i = 0; i < n; i++) ok &= PTR_MLtoC(char, d)[i] == v[i]; return ok; }
static ml_val_t bytes(const char *s, long n) { if (n == 0) return ML_string0; ml_val_t d = ML_AllocRaw(msp, (n + 7) / 8), r; memset(PTR_MLtoC(char, d), 0x55, (n + 7) / 8 * 8); memcpy(PTR_MLtoC(char, d), s, n); SEQHDR_ALLOC(msp, r, DESC_word8vec, d, n); return r; }
static void some_addr(void) { static const int ls[] = { 16, 0, 2, 128 }; alen = ls[sym_choose(4)]; sym_bytes(abuf, alen < 16 ? alen : 16); for (unsigned i = 16; i < alen; i++) abuf[i] = i; }
static void unit_or_err(ml_val_t v) { if (ret < 0) { is_syserr(); sym_cover("fail"); } else { no_exn("raised"); sym_assert(v == ML_unit, "result is not unit"); } }
static void int_or_err(ml_val_t v) { if (ret < 0) { is_syserr(); sym_cover("fail"); } else { no_exn("raised"); sym_assert(v == INT_CtoML(ret), "another number is reported"); } }
static ml_val_t int3(long a, long b, long c) { ml_val_t r; REC_ALLOC3(msp, r, INT_CtoML(a), INT_CtoML(b), INT_CtoML(c)); return r; }
void entry_calls(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), k = sym_choose(10); long a = anint(), b = anint(), c = anint(), fd = anfd(); ret = sym_choose(2) ? -1 : 0; ml_val_t v, x; sc_t *s;
  switch (k) {
  case 0: if (ret == 0) ret = anfd(); x = int3(a, b, c); cc_position(p); v = cc_call(SO, "socket", x); s = sc_only("socket"); sym_assert((s->a[0] == a) & (s->a[1] == b) & (s->a[2] == c), "another socket is made"); int_or_err(v); break;
  case 1: x = int3(a, b, c); opt = (int)anfd(); seenopt = anfd(); cc_position(p); v = cc_call(SO, "socketPair", x); s = sc_only("socketpair"); sym_assert((s->a[0] == a) & (s->a[1] == b) & (s->a[2] == c), "another pair is made"); if (ret < 0) is_syserr(); else { no_exn("raised"); sym_assert(is_rec(v, 2) && (REC_SEL(v, 0) == INT_CtoML(opt)) & (REC_SEL(v, 1) == INT_CtoML(seenopt)), "another pair is reported"); } break;
  case 2: x = ML_Alloc2(msp, INT_CtoML(fd), INT_CtoML(a)); cc_position(p); v = cc_call(SO, "listen", x); s = sc_only("listen"); sym_assert((s->a[0] == fd) & (s->a[1] == a), "listen with other arguments"); unit_or_err(v); break;
  case 3: a = sym_choose(3); x = ML_Alloc2(msp, INT_CtoML(fd), INT_CtoML(a)); cc_position(p); v = cc_call(SO, "shutdown", x); s = sc_only("shutdown"); sym_assert((s->a[0] == fd) & (s->a[1] == a), "shutdown with other arguments"); unit_or_err(v); break;
  case 4: cc_position(p); v = cc_call(SO, "close", INT_CtoML(fd)); s = sc_only("close"); sym_assert(s->a[0] == fd, "another descriptor is closed"); unit_or_err(v); break;
  case 5: case 6: { char ad[40]; int n = sym_choose(2) ? 16 : 5; sym_bytes(ad, n); x = bytes(ad, n); x = ML_Alloc2(msp, INT_CtoML(fd), x); cc_position(p); const char *f = k == 5 ? "bind" : "connect"; v = cc_call(SO, f, x); s = sc_only(f); sym_assert((s->a[0] == fd) & (s->a[4] == n), "another descriptor or length of address"); int ok = 1; for (int i = 0; i < n; i++) ok &= s->s[0][i] == ad[i]; sym_assert(ok, "another address"); unit_or_err(v); break; }
  case 7: { int on = sym_choose(2); x = ML_Alloc2(msp, INT_CtoML(fd), on ? ML_true : ML_false); ret = ret < 0 ? -1 : 0; cc_position(p); v = cc_call(SO, "setNBIO", x); s = &sc_log[0];
    if (sc_n == 1 && strcmp(s->f, "ioctl") == 0) sym_assert((s->a[0] == fd) & (s->a[1] == FIONBIO) & ((seenopt != 0) == on), "another blocking mode is set"); else sym_assert(0, "not the call that sets the blocking mode"); unit_or_err(v); break; }
  case 8: opt = (int)anint(); cc_position(p); v = cc_call(SO, "getNREAD", INT_CtoML(fd)); s = sc_only("ioctl"); sym_assert((s->a[0] == fd) & (s->a[1] == FIONREAD), "another question"); if (ret < 0) is_syserr(); else { no_exn("raised"); sym_assert(v == INT_CtoML(opt), "another count"); } break;
  case 9: opt = (int)anint(); cc_position(p); v = cc_call(SO, "getATMARK", INT_CtoML(fd)); s = sc_only("ioctl"); sym_assert((s->a[0] == fd) & (s->a[1] == SIOCATMARK), "another question"); if (ret < 0) is_syserr(); else { no_exn("raised"); sym_assert(v == (opt ? ML_true : ML_false), "another answer"); } break;
  } sym_cover("done"); }
void entry_options(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); static const struct { const char *n; int l, o, k; } os[] = { {"ctlDEBUG", SOL_SOCKET, SO_DEBUG, 0}, {"ctlREUSEADDR", SOL_SOCKET, SO_REUSEADDR, 0}, {"ctlKEEPALIVE", SOL_SOCKET, SO_KEEPALIVE, 0}, {"ctlDONTROUTE", SOL_SOCKET, SO_DONTROUTE, 0}, {"ctlBROADCAST", SOL_SOCKET, SO_BROADCAST, 0}, {"ctlOOBINLINE", SOL_SOCKET, SO_OOBINLINE, 0}, {"ctlNODELAY", IPPROTO_TCP, TCP_NODELAY, 0}, {"ctlSNDBUF", SOL_SOCKET, SO_SNDBUF, 1}, {"ctlRCVBUF", SOL_SOCKET, SO_RCVBUF, 1}, {"ctlLINGER", SOL_SOCKET, SO_LINGER, 2}, {"getERROR", SOL_SOCKET, SO_ERROR, 3}, {"getTYPE", SOL_SOCKET, SO_TYPE, 4} };
  int k = sym_choose(12), set = os[k].k < 3 ? sym_choose(2) : 0; long fd = anfd(), w = anint(); opt = (int)anint(); ret = sym_choose(2) ? -1 : 0; ml_val_t v, x, o = OPTION_NONE; int onoff = sym_choose(2); lin.l_onoff = onoff ? (int)anint() : 0; if (onoff) sym_assume(lin.l_onoff != 0); lin.l_linger = (int)anint();
  if (os[k].k >= 3) { if (os[k].k == 4) { static const int ts[] = { SOCK_STREAM, SOCK_DGRAM, SOCK_RAW, SOCK_RDM, SOCK_SEQPACKET, 77 }; opt = ts[sym_choose(6)]; } x = INT_CtoML(fd); }
  else { if (set) { ml_val_t y = os[k].k == 0 ? ((w & 1) ? ML_true : ML_false) : INT_CtoML(w); if (os[k].k == 2) { y = OPTION_NONE; if (onoff) OPTION_SOME(msp, y, INT_CtoML(w)); } OPTION_SOME(msp, o, y); } x = ML_Alloc2(msp, INT_CtoML(fd), o); }
  cc_position(p); v = cc_call(SO, os[k].n, x); sc_t *s = sc_only(set ? "setsockopt" : "getsockopt"); sym_assert((s->a[0] == fd) & (s->a[1] == os[k].l) & (s->a[2] == os[k].o), "another option of another socket");
  if (set) { if (os[k].k == 0) sym_assert((seenopt != 0) == (w & 1), "another setting"); else if (os[k].k == 1) sym_assert(seenopt == w, "another size"); else sym_assert(((seenlin.l_onoff != 0) == onoff) & (!onoff | (seenlin.l_linger == w)), "another linger time"); }
  if (ret < 0) { is_syserr(); sym_cover("fail"); return; } no_exn("raised"); if (set) { sym_cover("set"); return; }
  switch (os[k].k) { case 0: case 3: sym_assert(v == (opt ? ML_true : ML_false), "another setting is reported"); break; case 1: sym_assert(v == INT_CtoML(opt), "another size is reported"); break;
  case 2: if (!onoff) sym_assert(v == OPTION_NONE, "lingering is reported"); else { sym_assert(is_some(v) && REC_SEL(v, 0) == INT_CtoML(lin.l_linger), "another linger time is reported"); sym_cover("linger"); } break;
  default: { static const struct { int v; const char *n; } ty[] = { {SOCK_STREAM, "STREAM"}, {SOCK_DGRAM, "DGRAM"}, {SOCK_RAW, "RAW"}, {SOCK_RDM, "RDM"}, {SOCK_SEQPACKET, "SEQPACKET"} }; sym_assert(isBOXED(v), "no constant"); if (opt == 77) sym_assert(REC_SEL(v, 0) == INT_CtoML(-1), "an unknown type is known"); else for (int i = 0; i < 5; i++) if (ty[i].v == opt) sym_assert(REC_SEL(v, 0) == INT_CtoML(opt) && is_cstr(REC_SEL(v, 1), ty[i].n), "another type of socket"); } }
  sym_cover("get"); }
void entry_recv(void) {
  cc_init(); sc_reset(); int p = sym_choose(2), k = sym_choose(4), n = 1 + sym_choose(11), peek = sym_choose(2), oob = sym_choose(2), r; long fd = anfd(); if (k & 1) some_addr(); r = sym_choose(n + 2) - 1; ret = r; if (r > 0) sym_bytes(snd, r); ml_val_t pk = peek ? ML_true : ML_false, ob = oob ? ML_true : ML_false, v, x; int flags = (peek ? MSG_PEEK : 0) | (oob ? MSG_OOB : 0);
  const char *f = (k & 1) ? "recvfrom" : "recv";
  if (k < 2) { x = ML_Alloc4(msp, INT_CtoML(fd), INT_CtoML(n), pk, ob); cc_position(p); v = cc_call(SO, k ? "recvFrom" : "recv", x); sc_t *s = sc_only(f); sym_assert((s->a[0] == fd) & (s->a[1] == n) & (s->a[2] == flags), "other data are asked for");
    if (r < 0) { is_syserr(); sym_cover("fail"); return; } no_exn("raised"); if (k) { sym_assert(is_rec(v, 2), "no pair"); sym_assert(is_bytes(REC_SEL(v, 1), abuf, alen), "another sender"); v = REC_SEL(v, 0); } sym_assert(is_str(v, snd, r), "the vector is not exactly the data received, closed by a zero byte"); if (r == 0) sym_cover("empty"); }
  else { long off = sym_choose(3), tail = sym_choose(3), total = off + n + tail; char save[32]; ml_val_t arr = ML_AllocBytearray(msp, total); char *q = PTR_MLtoC(char, REC_SEL(arr, 0)); for (long i = 0; i < total; i++) q[i] = save[i] = 100 + i;
    REC_ALLOC6(msp, x, INT_CtoML(fd), arr, INT_CtoML(off), INT_CtoML(n), pk, ob); msp->ml_varReg = arr; cc_position(p); v = cc_call(SO, k == 3 ? "recvBufFrom" : "recvBuf", x); sc_t *s = sc_only(f); sym_assert((s->a[0] == fd) & (s->a[1] == n) & (s->a[2] == flags), "other data are asked for");
    q = PTR_MLtoC(char, REC_SEL(msp->ml_varReg, 0)); int ok = 1; for (long i = 0; i < total; i++) ok &= q[i] == (i >= off && i < off + r ? snd[i - off] : save[i]); sym_assert(ok, "the slice does not hold exactly the data received");
    if (r < 0) { is_syserr(); sym_cover("fail"); return; } no_exn("raised"); if (k == 3) { sym_assert(is_rec(v, 2), "no pair"); sym_assert(is_bytes(REC_SEL(v, 1), abuf, alen), "another sender"); v = REC_SEL(v, 0); } sym_assert(v == INT_CtoML(r), "another count"); }
  if (r > 0) sym_cover("data"); if (peek) sym_cover("peek"); if (oob) sym_cover("oob"); }
void entry_recvbig(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), k = sym_choose(2); static const int ns[] = { 4000, 4088, 4089, 4096, 4097, 6000 }; long n = ns[sym_choose(6)]; static const int less[] = { 0, 1, 7, 8, 3990 }; long r = n - less[sym_choose(5)]; ret = r; big = 1; if (k) some_addr(); if (sym_choose(2)) cc_fill(); ml_val_t x = ML_Alloc4(msp, INT_CtoML(5), INT_CtoML(n), ML_false, ML_false), v; cc_position(p); v = cc_call(SO, k ? "recvFrom" : "recv", x); no_exn("raised"); if (k) { sym_assert(is_rec(v, 2), "no pair"); sym_assert(is_bytes(REC_SEL(v, 1), abuf, alen), "another sender"); v = REC_SEL(v, 0); }
  static char want[6100]; for (long i = 0; i < r; i++) want[i] = pat(i); sym_assert(is_str(v, want, r), "the vector is not exactly the data received, closed by a zero byte"); sym_cover("done"); }
void entry_send(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), to = sym_choose(2), n = 1 + sym_choose(9), dr = sym_choose(2), oob = sym_choose(2); long off = sym_choose(3), tail = sym_choose(2), fd = anfd(), total = off + n + tail; char b[32], ad[16]; sym_bytes(b, total); sym_bytes(ad, 16); ret = sym_choose(n + 2) - 1; int arr = sym_choose(2); ml_val_t v, x, buf = arr ? ML_AllocBytearray(msp, total) : cc_str(b, total); if (arr) memcpy(PTR_MLtoC(char, REC_SEL(buf, 0)), b, total);
  ml_val_t d = dr ? ML_true : ML_false, o = oob ? ML_true : ML_false;
  if (to) { ml_val_t a = bytes(ad, 16); ML_AllocWrite(msp, 0, MAKE_DESC(7, DTAG_record)); ML_AllocWrite(msp, 1, INT_CtoML(fd)); ML_AllocWrite(msp, 2, buf); ML_AllocWrite(msp, 3, INT_CtoML(off)); ML_AllocWrite(msp, 4, INT_CtoML(n)); ML_AllocWrite(msp, 5, d); ML_AllocWrite(msp, 6, o); ML_AllocWrite(msp, 7, a); x = ML_Alloc(msp, 7); } else REC_ALLOC6(msp, x, INT_CtoML(fd), buf, INT_CtoML(off), INT_CtoML(n), d, o);
  cc_position(p); v = cc_call(SO, to ? "sendBufTo" : "sendBuf", x); sc_t *s = sc_only(to ? "sendto" : "send"); sym_assert((s->a[0] == fd) & (s->a[1] == n) & (s->a[2] == ((dr ? MSG_DONTROUTE : 0) | (oob ? MSG_OOB : 0))), "other data are sent, or with other flags"); int ok = 1; for (int i = 0; i < n; i++) ok &= snd[i] == b[off + i]; sym_assert(ok, "other data are sent");
  if (to) { ok = s->a[4] == 16; for (int i = 0; i < 16; i++) ok &= s->s[0][i] == ad[i]; sym_assert(ok, "sent to another address"); sym_cover("sendto"); } else sym_cover("send"); int_or_err(v); }
void entry_names(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), k = sym_choose(3); static const char *fs[] = { "accept", "getsockname", "getpeername" }, *ms[] = { "accept", "getSockName", "getPeerName" }; long fd = anfd(); some_addr(); ret = sym_choose(2) ? -1 : k == 0 ? anfd() : 0; cc_position(p); ml_val_t v = cc_call(SO, ms[k], INT_CtoML(fd)); sc_t *s = sc_only(fs[k]); sym_assert(s->a[0] == fd, "another socket");
  if (ret < 0) { is_syserr(); sym_cover("fail"); return; } no_exn("raised"); if (k == 0) { sym_assert(is_rec(v, 2) && REC_SEL(v, 0) == INT_CtoML(ret), "another connection"); v = REC_SEL(v, 1); } sym_assert(is_bytes(v, abuf, alen), "another address"); sym_cover("done"); }
void entry_inet(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), k = sym_choose(3); long port = sym_range(0, 65535); char want[16]; memset(want, 0, 16); char ip[4]; sym_bytes(ip, 4); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; memcpy(want, &a, 2); want[2] = port >> 8; want[3] = port; if (k != 1) memcpy(want + 4, ip, 4); ml_val_t v, x;
  if (k == 0) { x = bytes(ip, 4); x = ML_Alloc2(msp, x, INT_CtoML(port)); cc_position(p); v = cc_call(SO, "toInetAddr", x); no_exn("raised"); sym_assert(is_bytes(v, want, 16), "another internet address"); }
  else if (k == 1) { cc_position(p); v = cc_call(SO, "inetany", INT_CtoML(port)); no_exn("raised"); sym_assert(is_bytes(v, want, 16), "another internet address"); }
  else { x = bytes(want, 16); cc_position(p); v = cc_call(SO, "fromInetAddr", x); no_exn("raised"); sym_assert(is_rec(v, 2), "no pair"); sym_assert(is_bytes(REC_SEL(v, 0), ip, 4), "another host"); sym_assert(REC_SEL(v, 1) == INT_CtoML(port), "another port"); } sym_cover("done"); }
void entry_unixaddr(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); static char path[400]; static const int ls[] = { 106, 107, 108, 109, 120, 300 }; int k = sym_choose(10); long n = k < 6 ? ls[k] : k < 9 ? k - 6 : 3; if (n <= 3) { sym_bytes(path, n); for (long i = 0; i < n; i++) sym_assume(path[i] != 0); } else memset(path, 'u', n); path[n] = 0; static char a[120]; struct sockaddr_un un; un.sun_family = AF_UNIX; memset(a, 0, sizeof a); memcpy(a, &un, 2); ml_val_t v, x;
  if (sym_choose(2)) { x = cc_str(path, n); cc_position(p); v = cc_call(SO, "toUnixAddr", x); if (n >= 108) { if (cc_exn) { is_msgerr(); sym_cover("refused"); return; } sym_assert(n == 108, "a path that does not fit is accepted"); } else no_exn("raised"); memcpy(a + 2, path, n); long len = REC_SELINT(v, 1); sym_assert(len == 2 + n || len == 3 + n, "length of the address"); sym_assert(is_bytes(v, a, len), "another address"); }
  else { if (n > 108) sym_stop(); memcpy(a + 2, path, n); long len = n == 108 ? 110 : n == 0 && sym_choose(2) ? 2 : 3 + n; x = bytes(a, len); cc_position(p); v = cc_call(SO, "fromUnixAddr", x); no_exn("raised"); sym_assert(is_str(v, path, n), "another path"); } sym_cover("done"); }
void entry_family(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); static const struct { int v; const char *n; } af[] = { {AF_UNIX, "UNIX"}, {AF_INET, "INET"} }, ty[] = { {SOCK_STREAM, "STREAM"}, {SOCK_DGRAM, "DGRAM"} }; int k = sym_choose(3); ml_val_t v;
  if (k == 0) { int i = sym_choose(2); struct sockaddr a; memset(&a, 0, sizeof a); a.sa_family = af[i].v; sym_bytes(a.sa_data, 14); ml_val_t x = bytes((char *)&a, 16); cc_position(p); v = cc_call(SO, "getAddrFamily", x); no_exn("raised"); sym_assert(isBOXED(v) && REC_SEL(v, 0) == INT_CtoML(af[i].v) && is_cstr(REC_SEL(v, 1), af[i].n), "another address family"); sym_cover("known"); return; }
  cc_position(p); v = cc_call(SO, k == 1 ? "listAddrFamilies" : "listSockTypes", ML_unit); no_exn("raised"); int seen = 0, n = 0; for (; v != LIST_nil; v = LIST_tl(v)) { sym_assert(isBOXED(v) && n++ < 60, "the list of constants"); ml_val_t c = LIST_hd(v); for (int i = 0; i < 2; i++) { int val = k == 1 ? af[i].v : ty[i].v; if (is_cstr(REC_SEL(c, 1), k == 1 ? af[i].n : ty[i].n)) { sym_assert(REC_SEL(c, 0) == INT_CtoML(val), "another value"); seen |= 1 << i; } } } sym_assert(seen == 3, "a constant is missing"); sym_cover("list"); }
