//@use rt.inc
//@use cfun.inc
//@entry fds q=60 shards=4 depth=5 covers=done
//@entry rdwr q=90 shards=8 depth=6 covers=read,readbuf,write,short,eof,fail
//@entry bigread q=60 shards=4 depth=5 covers=done
//@entry flags q=60 shards=4 depth=5 covers=done
//@entry lock q=40 covers=done
//@entry seek q=40 covers=done
//@bounds every descriptor number, flag word, offset, lock description and error number; transfers of 0 to 17 symbolic bytes with any shorter count, and of 4000 to 6000 bytes; allocation pointer fresh, at the last position before a collection, and past it
#include "cfun.inc"
#include <fcntl.h>
#include <unistd.h>
static long ret, ret2; static char data[32]; static long dlen;
int H_close(int fd) { sc_add("close", fd, 0, 0, 0); return sc_fail(ret); }
int H_dup(int fd) { sc_add("dup", fd, 0, 0, 0); return sc_fail(ret); }
int H_dup2(int a, int b) { sc_add("dup2", a, b, 0, 0); return sc_fail(ret); }
int H_fsync(int fd) { sc_add("fsync", fd, 0, 0, 0); return sc_fail(ret); }
int H_pipe(int *p) { sc_add("pipe", 0, 0, 0, 0); if (ret >= 0) { p[0] = (int)ret2; p[1] = (int)dlen; } return sc_fail(ret); }
off_t H_lseek(int fd, off_t o, int w) { sc_add("lseek", fd, o, w, 0); return sc_fail(ret); }
off_t H_lseek64(int fd, off_t o, int w) { return H_lseek(fd, o, w); }
static struct flock fl_in, fl_out;
int H_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long x = 0; if (cmd != F_GETFD && cmd != F_GETFL) x = va_arg(ap, long); va_end(ap);
  if (cmd == F_GETLK || cmd == F_SETLK || cmd == F_SETLKW) { fl_in = *(struct flock *)x; if (ret >= 0) *(struct flock *)x = fl_out; }
  sc_add("fcntl", fd, cmd, x, 0); return sc_fail(ret); }
int H_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long x = 0; if (cmd != F_GETFD && cmd != F_GETFL) x = va_arg(ap, long); va_end(ap); return H_fcntl(fd, cmd, x); }
static char *rd_at;
ssize_t H_read(int fd, void *b, size_t n) { sc_add("read", fd, n, 0, 0); rd_at = b; sym_assert(sym_valid(b, n), "read into memory that does not hold the requested number of bytes"); if (ret > 0) memcpy(b, data, ret); return sc_fail(ret); }
ssize_t H_write(int fd, const void *b, size_t n) { sc_add("write", fd, n, 0, 0); sym_assert(sym_valid(b, n), "write from memory that does not hold the requested number of bytes"); memcpy(data, b, n); return sc_fail(ret); }
static ml_val_t int2(long a, long b) { return ML_Alloc2(msp, INT_CtoML(a), INT_CtoML(b)); }
#define IO "POSIX-IO"
void entry_fds(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); long fd = sym_range(0, 0x7fffffff), fd2 = sym_range(0, 0x7fffffff); ml_val_t v; sc_t *c;
  switch (sym_choose(6)) {
  case 0: ret = sym_range(-1, 0); cc_position(p); v = cc_call(IO, "close", INT_CtoML(fd)); c = sc_only("close"); sym_assert(c->a[0] == fd, "close of another descriptor"); if (ret < 0) is_syserr(); else { no_exn("close raised"); sym_assert(v == ML_unit, "close result"); } break;
  case 1: ret = sym_range(-1, 0); cc_position(p); v = cc_call(IO, "fsync", INT_CtoML(fd)); c = sc_only("fsync"); sym_assert(c->a[0] == fd, "fsync of another descriptor"); if (ret < 0) is_syserr(); else { no_exn("fsync raised"); sym_assert(v == ML_unit, "fsync result"); } break;
  case 2: ret = sym_range(-1, 0x7fffffff); cc_position(p); v = cc_call(IO, "dup", INT_CtoML(fd)); c = sc_only("dup"); sym_assert(c->a[0] == fd, "dup of another descriptor"); if (ret < 0) is_syserr(); else { no_exn("dup raised"); sym_assert(v == INT_CtoML(ret), "dup result"); } break;
  case 3: ret = sym_choose(2) ? fd2 : -1; { ml_val_t a = int2(fd, fd2); cc_position(p); v = cc_call(IO, "dup2", a); } c = sc_only("dup2"); sym_assert(c->a[0] == fd && c->a[1] == fd2, "dup2 of other descriptors"); if (ret < 0) is_syserr(); else { no_exn("dup2 raised"); sym_assert(v == ML_unit, "dup2 result"); } break;
  case 4: ret = sym_range(-1, 0x7fffffff); { ml_val_t a = int2(fd, fd2); cc_position(p); v = cc_call(IO, "fcntl_d", a); } c = sc_only("fcntl"); sym_assert(c->a[0] == fd && c->a[1] == F_DUPFD && (int)c->a[2] == (int)fd2, "dupfd of other descriptors"); if (ret < 0) is_syserr(); else { no_exn("dupfd raised"); sym_assert(v == INT_CtoML(ret), "dupfd result"); } break;
  default: ret = sym_range(-1, 0); ret2 = fd; dlen = fd2; cc_position(p); v = cc_call(IO, "pipe", ML_unit); sc_only("pipe"); if (ret < 0) is_syserr(); else { no_exn("pipe raised"); sym_assert(is_rec(v, 2) && REC_SEL(v, 0) == INT_CtoML(fd) && REC_SEL(v, 1) == INT_CtoML(fd2), "pipe result"); } break;
  }
  sym_cover("done");
}
void entry_rdwr(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); long fd = sym_range(0, 0x7fffffff), n = sym_choose(18), k; ml_val_t v, a; sc_t *c; char save[32];
  switch (sym_choose(4)) {
  case 0: /* read into a new vector: exactly the bytes that were read, usable as a C string */
    k = sym_choose(n + 2) - 1; ret = k; if (k > 0) sym_bytes(data, k); a = int2(fd, n); cc_position(p); v = cc_call(IO, "read", a);
    if (n == 0 && sc_n == 0) { no_exn("empty read raised"); sym_assert(is_str(v, data, 0), "empty read"); break; }
    c = sc_only("read"); sym_assert(c->a[0] == fd && c->a[1] == n, "another read");
    if (k < 0) { is_syserr(); sym_cover("fail"); }
    else { no_exn("read raised"); sym_assert(is_str(v, data, k), "the vector read is not exactly the bytes read, closed by a zero byte"); if (k < n) sym_cover("short"); if (k == 0) sym_cover("eof"); sym_cover("read"); }
    break;
  case 1: { /* read into a slice of an array: nothing else changes */
    long off = sym_choose(3), tail = sym_choose(3); k = sym_choose(n + 2) - 1; ret = k; if (k > 0) sym_bytes(data, k); long total = off + n + tail; if (total == 0) sym_stop();
    ml_val_t arr = ML_AllocBytearray(msp, total); char *q = PTR_MLtoC(char, REC_SEL(arr, 0)); for (long i = 0; i < total; i++) q[i] = save[i] = 100 + i;
    a = ML_Alloc4(msp, INT_CtoML(fd), arr, INT_CtoML(n), INT_CtoML(off)); msp->ml_varReg = arr; cc_position(p); v = cc_call(IO, "readbuf", a); c = sc_only("read"); sym_assert(c->a[0] == fd && c->a[1] == n, "another read");
    arr = msp->ml_varReg; q = PTR_MLtoC(char, REC_SEL(arr, 0));
    for (long i = 0; i < total; i++) sym_assert(q[i] == (i >= off && i < off + k ? data[i - off] : save[i]), "a read into a slice left other bytes than the ones read");
    if (k < 0) is_syserr(); else { no_exn("readbuf raised"); sym_assert(v == INT_CtoML(k), "readbuf result"); sym_cover("readbuf"); } break; }
  case 2: case 3: { int whole = sym_choose(2); long off = whole ? 0 : sym_choose(3), tail = sym_choose(3); k = sym_choose(n + 2) - 1; ret = k; long total = off + n + tail; if (total == 0) sym_stop();
    ml_val_t arr; int vec = sym_choose(2); sym_bytes(save, total); if (vec) arr = cc_str(save, total); else { arr = ML_AllocBytearray(msp, total); memcpy(PTR_MLtoC(char, REC_SEL(arr, 0)), save, total); }
    a = whole ? ML_Alloc3(msp, INT_CtoML(fd), arr, INT_CtoML(n)) : ML_Alloc4(msp, INT_CtoML(fd), arr, INT_CtoML(n), INT_CtoML(off)); cc_position(p); v = cc_call(IO, whole ? "write" : "writebuf", a); c = sc_only("write"); sym_assert(c->a[0] == fd && c->a[1] == n, "another write");
    for (long i = 0; i < n; i++) sym_assert(data[i] == save[off + i], "other bytes written than asked for");
    if (k < 0) is_syserr(); else { no_exn("write raised"); sym_assert(v == INT_CtoML(k), "write result"); sym_cover("write"); } break; }
  }
}
static char bigbuf[6100]; static long big_n;
void entry_bigread(void) {   /* large vectors are allocated outside the nursery; a short read shrinks them */
  static const long ns[] = { 4000, 4087, 4088, 4095, 4096, 4097, 6000 };
  cc_init(); sc_reset(); int p = sym_choose(3); long n = ns[sym_choose(7)], k = sym_choose(4); k = k == 0 ? n : k == 1 ? n - 1 : k == 2 ? n - 9 : 8; long fd = sym_range(0, 100);
  ret = k; memset(bigbuf, 'x', sizeof bigbuf); rd_at = 0; big_n = k; memcpy(data, "abcdefgh", 8);
  for (int rep = 0; rep < 2; rep++) { sc_n = 0; ret = k > 30 ? 8 : k; 
    ml_val_t a = int2(fd, n); cc_position(p); ml_val_t v = cc_call(IO, "read", a); sc_t *c = sc_only("read"); sym_assert(c->a[0] == fd && c->a[1] == n, "another read"); no_exn("read raised");
    sym_assert(is_str(v, data, ret), "the vector read is not exactly the bytes read"); msp->ml_arg = v; }
  sym_cover("done");
}
void entry_flags(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); long fd = sym_range(0, 0x7fffffff); ml_val_t v, a; sc_t *c; Word_t w = sym_bits(31);
  switch (sym_choose(4)) {
  case 0: ret = sym_range(-1, 0x7fffffff); cc_position(p); v = cc_call(IO, "fcntl_gfd", INT_CtoML(fd)); c = sc_only("fcntl"); sym_assert(c->a[0] == fd && c->a[1] == F_GETFD, "getfd asks for something else"); if (ret < 0) is_syserr(); else { no_exn("getfd raised"); sym_assert(is_w64(v, ret), "getfd result"); } break;
  case 1: ret = sym_range(-1, 0x7fffffff); cc_position(p); v = cc_call(IO, "fcntl_gfl", INT_CtoML(fd)); c = sc_only("fcntl"); sym_assert(c->a[0] == fd && c->a[1] == F_GETFL, "getfl does not ask for the status flags"); if (ret < 0) is_syserr(); else { no_exn("getfl raised"); sym_assert(is_rec(v, 2) && is_w64(REC_SEL(v, 0), ret & ~(long)O_ACCMODE) && is_w64(REC_SEL(v, 1), ret & O_ACCMODE), "getfl result"); } break;
  case 2: ret = sym_range(-1, 0); a = cc_w64(w); a = ML_Alloc2(msp, INT_CtoML(fd), a); cc_position(p); v = cc_call(IO, "fcntl_sfd", a); c = sc_only("fcntl"); sym_assert(c->a[0] == fd && c->a[1] == F_SETFD && (int)c->a[2] == (int)w, "setfd sets something else"); if (ret < 0) is_syserr(); else { no_exn("setfd raised"); sym_assert(v == ML_unit, "setfd result"); } break;
  default: ret = sym_range(-1, 0); a = cc_w64(w); a = ML_Alloc2(msp, INT_CtoML(fd), a); cc_position(p); v = cc_call(IO, "fcntl_sfl", a); c = sc_only("fcntl"); sym_assert(c->a[0] == fd && c->a[1] == F_SETFL && (int)c->a[2] == (int)w, "setfl sets something else"); if (ret < 0) is_syserr(); else { no_exn("setfl raised"); sym_assert(v == ML_unit, "setfl result"); } break;
  }
  sym_cover("done");
}
void entry_lock(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); long fd = sym_range(0, 0x7fffffff), ty = sym_range(0, 2), wh = sym_range(0, 2), st = (long)sym_bits(64), len = (long)sym_bits(64);
  static const int cmds[] = { F_GETLK, F_SETLK, F_SETLKW }; long cmd = cmds[sym_choose(3)];
  fl_out.l_type = (short)sym_range(0, 2); fl_out.l_whence = (short)sym_range(0, 2); fl_out.l_start = (long)sym_bits(64); fl_out.l_len = (long)sym_bits(64); fl_out.l_pid = (int)sym_range(0, 0x7fffffff); ret = sym_range(-1, 0);
  ml_val_t s = cc_w64(st), l = cc_w64(len), r = ML_Alloc5(msp, INT_CtoML(ty), INT_CtoML(wh), s, l, INT_CtoML(0)), a = ML_Alloc3(msp, INT_CtoML(fd), INT_CtoML(cmd), r); cc_position(p);
  ml_val_t v = cc_call(IO, "fcntl_l", a); sc_t *c = sc_only("fcntl"); sym_assert(c->a[0] == fd && c->a[1] == cmd, "another lock operation");
  sym_assert(fl_in.l_type == ty && fl_in.l_whence == wh && fl_in.l_start == st && fl_in.l_len == len, "another lock is asked for");
  if (ret < 0) is_syserr();
  else { no_exn("lock raised"); sym_assert(is_rec(v, 5), "the result of a lock operation is not a record of five fields"); sym_assert(REC_SEL(v, 0) == INT_CtoML(fl_out.l_type) && REC_SEL(v, 1) == INT_CtoML(fl_out.l_whence) && is_w64(REC_SEL(v, 2), fl_out.l_start) && is_w64(REC_SEL(v, 3), fl_out.l_len) && REC_SEL(v, 4) == INT_CtoML(fl_out.l_pid), "another lock is reported"); }
  sym_cover("done");
}
void entry_seek(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); long fd = sym_range(0, 0x7fffffff), off = (long)sym_bits(64), wh = sym_range(0, 2); ret = sym_choose(2) ? sym_range(0, 0x7fffffffffffffffl) : -1;
  ml_val_t o = cc_w64(off), a = ML_Alloc3(msp, INT_CtoML(fd), o, INT_CtoML(wh)); cc_position(p);
  ml_val_t v = cc_call(IO, "lseek", a); sc_t *c = sc_only("lseek"); sym_assert(c->a[0] == fd && c->a[1] == off && c->a[2] == wh, "another seek");
  if (ret < 0) is_syserr(); else { no_exn("lseek raised"); sym_assert(is_w64(v, ret), "lseek result"); }
  sym_cover("done");
}
