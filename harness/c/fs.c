//@use rt.inc
//@use cfun.inc
//@entry path q=60 shards=4 depth=5 covers=done
//@entry pathmode q=60 shards=4 depth=5 covers=done
//@entry twopath q=60 shards=4 depth=5 covers=done
//@entry fdops q=60 shards=4 depth=5 covers=done
//@entry open q=40 covers=done
//@entry status q=90 shards=4 depth=4 covers=done
//@entry times q=60 qtimeout=20000 covers=done,now
//@entry dir q=60 shards=2 depth=4 covers=entry,dots,end,fail
//@entry cwd q=60 shards=2 depth=3 covers=short,long,fail
//@entry link q=60 shards=2 depth=3 covers=short,long,fail
//@entry conf q=60 shards=2 depth=4 covers=some,none,fail,unknown,intr
//@bounds paths of 0 to 3 arbitrary characters (and concrete ones of up to 9000 where the length matters); every mode, flag word, owner, descriptor, offset, file status, time from 1970 on, and error number; directories of up to 4 entries with names of up to 3 arbitrary characters; allocation pointer fresh, at the last position before a collection, and past it
#include "cfun.inc"
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/param.h>
#define FS "POSIX-FileSys"
static long ret; static struct stat st; static struct timeval tv[2]; static int tvnull;
#define P1(f) int H_##f(const char *p) { sc_copy(sc_add(#f, 0, 0, 0, 0), 0, p); return sc_fail(ret); }
P1(chdir) P1(unlink) P1(rmdir)
#define PM(f) int H_##f(const char *p, mode_t m) { sc_copy(sc_add(#f, m, 0, 0, 0), 0, p); return sc_fail(ret); }
PM(mkdir) PM(mkfifo) PM(chmod)
int H_access(const char *p, int m) { sc_copy(sc_add("access", m, 0, 0, 0), 0, p); return sc_fail(ret); }
int H_chown(const char *p, uid_t u, gid_t g) { sc_copy(sc_add("chown", u, g, 0, 0), 0, p); return sc_fail(ret); }
#define P2(f) int H_##f(const char *p, const char *q) { sc_t *c = sc_add(#f, 0, 0, 0, 0); sc_copy(c, 0, p); sc_copy(c, 1, q); return sc_fail(ret); }
P2(link) P2(rename) P2(symlink)
int H_fchmod(int fd, mode_t m) { sc_add("fchmod", fd, m, 0, 0); return sc_fail(ret); }
int H_fchown(int fd, uid_t u, gid_t g) { sc_add("fchown", fd, u, g, 0); return sc_fail(ret); }
int H_ftruncate(int fd, off_t o) { sc_add("ftruncate", fd, o, 0, 0); return sc_fail(ret); }
int H_ftruncate64(int fd, off_t o) { return H_ftruncate(fd, o); }
mode_t H_umask(mode_t m) { sc_add("umask", m, 0, 0, 0); return (mode_t)ret; }
int H_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); sc_copy(sc_add("open", fl, m, 0, 0), 0, p); return sc_fail(ret); }
int H_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return H_open(p, fl, m); }
int H_stat(const char *p, struct stat *s) { sc_copy(sc_add("stat", 0, 0, 0, 0), 0, p); if (ret >= 0) *s = st; return sc_fail(ret); }
static long lst;
int H_lstat(const char *p, struct stat *s) { sc_copy(sc_add("lstat", 0, 0, 0, 0), 0, p); if (ret >= 0) *s = st; return sc_fail(ret); }
int H_fstat(int fd, struct stat *s) { sc_add("fstat", fd, 0, 0, 0); if (ret >= 0) *s = st; return sc_fail(ret); }
int H_utimes(const char *p, const struct timeval *t) { sc_copy(sc_add("utimes", 0, 0, 0, 0), 0, p); tvnull = t == NULL; if (t) { tv[0] = t[0]; tv[1] = t[1]; } return sc_fail(ret); }
#define PATH(b) char b[8]; long n_##b = cc_sstr(b, 3)
static void unit_or_err(ml_val_t v) { if (ret < 0) is_syserr(); else { no_exn("a successful operation raised an exception"); sym_assert(v == ML_unit, "the result is not unit"); } }
void entry_path(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); PATH(b); static const char *fs[] = { "chdir", "unlink", "rmdir" }; const char *f = fs[sym_choose(3)]; ret = sym_range(-1, 0);
  ml_val_t s = cc_str(b, n_b); cc_position(p); ml_val_t v = cc_call(FS, f, s); sc_t *c = sc_only(f); sym_assert(same(c->s[0], b, n_b), "another path"); unit_or_err(v); sym_cover("done");
}
void entry_pathmode(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); PATH(b); static const char *fs[] = { "mkdir", "mkfifo", "chmod", "access", "chown" }; int k = sym_choose(5); const char *f = fs[k]; ret = sym_range(-1, 0);
  Word_t m = sym_bits(32), g = sym_bits(32); ml_val_t s = cc_str(b, n_b), w = cc_w64(m), x = cc_w64(g), a = k == 4 ? ML_Alloc3(msp, s, w, x) : ML_Alloc2(msp, s, w); cc_position(p);
  ml_val_t v = cc_call(FS, f, a); sc_t *c = sc_only(f); sym_assert(same(c->s[0], b, n_b) && (Unsigned32_t)c->a[0] == (Unsigned32_t)m && (k != 4 || (Unsigned32_t)c->a[1] == (Unsigned32_t)g), "another path, mode or owner");
  if (k == 3) { no_exn("access raised an exception"); sym_assert(v == (ret == 0 ? ML_true : ML_false), "access result"); } else unit_or_err(v); sym_cover("done");
}
void entry_twopath(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); PATH(a); PATH(b); static const char *fs[] = { "link", "rename", "symlink" }; const char *f = fs[sym_choose(3)]; ret = sym_range(-1, 0);
  ml_val_t s = cc_str(a, n_a), t = cc_str(b, n_b), r = ML_Alloc2(msp, s, t); cc_position(p); ml_val_t v = cc_call(FS, f, r); sc_t *c = sc_only(f); sym_assert(same(c->s[0], a, n_a) && same(c->s[1], b, n_b), "other paths"); unit_or_err(v); sym_cover("done");
}
void entry_fdops(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); long fd = sym_range(0, 0x7fffffff); Word_t m = sym_bits(32), g = sym_bits(32); long o = (long)sym_bits(64); ml_val_t v, w = cc_w64(m), x = cc_w64(g), y = cc_w64(o), a; sc_t *c; ret = sym_range(-1, 0);
  switch (sym_choose(4)) {
  case 0: a = ML_Alloc2(msp, INT_CtoML(fd), w); cc_position(p); v = cc_call(FS, "fchmod", a); c = sc_only("fchmod"); sym_assert(c->a[0] == fd && (Unsigned32_t)c->a[1] == (Unsigned32_t)m, "fchmod with other arguments"); unit_or_err(v); break;
  case 1: a = ML_Alloc3(msp, INT_CtoML(fd), w, x); cc_position(p); v = cc_call(FS, "fchown", a); c = sc_only("fchown"); sym_assert(c->a[0] == fd && (Unsigned32_t)c->a[1] == (Unsigned32_t)m && (Unsigned32_t)c->a[2] == (Unsigned32_t)g, "fchown with other arguments"); unit_or_err(v); break;
  case 2: a = ML_Alloc2(msp, INT_CtoML(fd), y); cc_position(p); v = cc_call(FS, "ftruncate", a); c = sc_only("ftruncate"); sym_assert(c->a[0] == fd && c->a[1] == o, "ftruncate with other arguments"); unit_or_err(v); break;
  default: ret = sym_range(0, 0xfff); cc_position(p); v = cc_call(FS, "umask", w); c = sc_only("umask"); sym_assert((Unsigned32_t)c->a[0] == (Unsigned32_t)m, "umask with another mask"); no_exn("umask raised"); sym_assert(is_w64(v, ret), "umask result");
  }
  sym_cover("done");
}
void entry_open(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); PATH(b); Word_t fl = sym_bits(31), m = sym_bits(12); ret = sym_range(-1, 0x7fffffff);
  ml_val_t s = cc_str(b, n_b), w = cc_w64(fl), x = cc_w64(m), a = ML_Alloc3(msp, s, w, x); cc_position(p); ml_val_t v = cc_call(FS, "openf", a); sc_t *c = sc_only("open");
  sym_assert(same(c->s[0], b, n_b) && (int)c->a[0] == (int)fl && (int)c->a[1] == (int)m, "open with other arguments");
  if (ret < 0) is_syserr(); else { no_exn("open raised"); sym_assert(v == INT_CtoML(ret), "open result"); } sym_cover("done");
}
void entry_status(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), k = sym_choose(3); PATH(b); long fd = sym_range(0, 0x7fffffff); ret = sym_range(-1, 0);
  st.st_mode = (mode_t)sym_bits(16); st.st_ino = sym_bits(64); st.st_dev = sym_bits(64); st.st_nlink = sym_bits(32); st.st_uid = (uid_t)sym_bits(32); st.st_gid = (gid_t)sym_bits(32); st.st_size = (off_t)sym_bits(63); st.st_rdev = sym_bits(32); st.st_blocks = 77; st.st_blksize = 88;
  struct timespec *ts[3] = { &st.st_atim, &st.st_mtim, &st.st_ctim }; for (int i = 0; i < 3; i++) { ts[i]->tv_sec = sym_range(0, 0x1ffffffff); ts[i]->tv_nsec = sym_range(0, 999999999); }
  ml_val_t a = k == 2 ? INT_CtoML(fd) : cc_str(b, n_b); cc_position(p); static const char *fs[] = { "stat", "lstat", "fstat" }; ml_val_t v = cc_call(FS, fs[k], a); sc_t *c = sc_only(fs[k]);
  sym_assert(k == 2 ? c->a[0] == fd : same(c->s[0], b, n_b), "status of another file");
  if (ret < 0) is_syserr();
  else { no_exn("stat raised"); sym_assert(is_rec(v, 11), "the status is not a record of 11 fields");
    int m = st.st_mode, t = m & 0xf000, perm = S_IRWXU | S_IRWXG | S_IRWXO | S_ISUID | S_ISGID;
    sym_assert(t != 0x4000 && t != 0x2000 && t != 0x6000 && t != 0x8000 && t != 0x1000 && t != 0xa000 && t != 0xc000 || REC_SEL(v, 0) == INT_CtoML(t), "file type");
    sym_assert(is_w64(REC_SEL(v, 1), m & perm), "mode"); sym_assert(is_w64(REC_SEL(v, 2), st.st_ino), "inode"); sym_assert(is_w64(REC_SEL(v, 3), st.st_dev), "device"); sym_assert(is_w64(REC_SEL(v, 4), st.st_nlink), "number of links"); sym_assert(is_w64(REC_SEL(v, 5), st.st_uid), "owner"); sym_assert(is_w64(REC_SEL(v, 6), st.st_gid), "group"); sym_assert(is_w64(REC_SEL(v, 7), st.st_size), "size");
    for (int i = 0; i < 3; i++) sym_assert(is_w64(REC_SEL(v, 8 + i), ts[i]->tv_sec * 1000000000ul + ts[i]->tv_nsec), "a time of the status"); }
  sym_cover("done");
}
void entry_times(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), now = sym_choose(2); PATH(b); ret = sym_range(-1, 0); long s0 = sym_range(0, 0x1ffffffff), u0 = sym_range(0, 999999), s1 = sym_range(0, 0x1ffffffff), u1 = sym_range(0, 999999), n0 = sym_choose(2) * 999;
  Word_t at = now ? ~0ul : s0 * 1000000000ul + u0 * 1000 + n0, mt = now ? 0 : s1 * 1000000000ul + u1 * 1000 + n0;
  ml_val_t s = cc_str(b, n_b), x = cc_w64(at), y = cc_w64(mt), a = ML_Alloc3(msp, s, x, y); cc_position(p); ml_val_t v = cc_call(FS, "utime", a); sc_t *c = sc_only("utimes");
  sym_assert(same(c->s[0], b, n_b), "times of another file"); sym_assert(tvnull == now, "current and given times confused"); if (now) sym_cover("now");
  else sym_assert((tv[0].tv_sec == s0) & (tv[0].tv_usec == u0) & (tv[1].tv_sec == s1) & (tv[1].tv_usec == u1), "other times are set");
  unit_or_err(v); sym_cover("done");
}
static char dirmem[16]; static struct dirent ent[5]; static int nent, pos, dfail; static int closed;
DIR *H_opendir(const char *p) { sc_copy(sc_add("opendir", 0, 0, 0, 0), 0, p); if (ret < 0) { errno = cc_errno; return NULL; } pos = 0; return (DIR *)dirmem; }
struct dirent *H_readdir(DIR *d) { sym_assert((char *)d == dirmem && !closed, "reading another directory"); if (pos < nent) return &ent[pos++]; if (dfail) { errno = cc_errno; return NULL; } return NULL; }
struct dirent *H_readdir64(DIR *d) { return H_readdir(d); }
void H_rewinddir(DIR *d) { sym_assert((char *)d == dirmem && !closed, "rewinding another directory"); pos = 0; }
int H_closedir(DIR *d) { sym_assert((char *)d == dirmem && !closed, "closing another directory"); if (ret < 0) { errno = cc_errno; return -1; } closed = 1; return 0; }
void entry_dir(void) {   /* every entry but . and .. once, in order, then the end; errors are not taken for the end */
  cc_init(); sc_reset(); PATH(b); ret = sym_range(-1, 0); errno = (int)sym_range(0, 100); closed = 0; nent = sym_choose(4); dfail = sym_choose(2);
  for (int i = 0; i < nent; i++) { long n = 1 + sym_choose(3); sym_bytes(ent[i].d_name, n); for (long j = 0; j < n; j++) sym_assume(ent[i].d_name[j] != 0); ent[i].d_name[n] = 0; }
  ml_val_t d = cc_call(FS, "opendir", cc_str(b, n_b)); sc_t *c = sc_only("opendir"); sym_assert(same(c->s[0], b, n_b), "another directory is opened");
  if (ret < 0) { is_syserr(); sym_cover("fail"); return; }
  no_exn("opendir raised");
  for (int round = 0; round < 2; round++) {
    for (int i = 0; i < nent; i++) { char *nm = ent[i].d_name; if (nm[0] == '.' && (nm[1] == 0 || (nm[1] == '.' && nm[2] == 0))) { sym_cover("dots"); continue; }
      errno = 7; ml_val_t v = cc_call(FS, "readdir", d); no_exn("readdir raised"); sym_assert(is_cstr(v, nm), "a directory entry is skipped, repeated or changed"); sym_cover("entry"); }
    errno = 7; ml_val_t v = cc_call(FS, "readdir", d); if (dfail) { is_syserr(); } else { no_exn("readdir raised at the end"); sym_assert(is_str(v, "", 0), "no end of the directory"); sym_cover("end"); }
    if (round == 0) { v = cc_call(FS, "rewinddir", d); no_exn("rewinddir raised"); sym_assert(v == ML_unit, "rewinddir"); } }
  ret = sym_range(-1, 0); ml_val_t v = cc_call(FS, "closedir", d); unit_or_err(v); sym_assert(ret < 0 || closed, "the directory is not closed");
}
static char lpath[10000]; static long lplen; static int cwderr;
char *H_getcwd(char *buf, size_t n) { if (cwderr) { errno = cc_errno; return NULL; } sym_assert(buf == NULL || sym_valid(buf, n), "getcwd into memory that is not there"); if ((size_t)lplen + 1 > n) { errno = ERANGE; return NULL; } memcpy(buf, lpath, lplen + 1); return buf; }
void entry_cwd(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); static const long ls[] = { 1, 3, MAXPATHLEN - 2, MAXPATHLEN - 1, MAXPATHLEN, MAXPATHLEN + 50, 2 * MAXPATHLEN, 9000 }; lplen = ls[sym_choose(8)]; if (lplen > 9000) lplen = 9000; cwderr = sym_choose(4) == 3; if (cwderr) sym_assume(cc_errno != ERANGE);
  for (long i = 0; i < lplen; i++) lpath[i] = 'a' + i % 26; sym_bytes(lpath, 1); sym_assume(lpath[0] != 0); lpath[lplen] = 0;
  cc_position(p); ml_val_t v = cc_call(FS, "getcwd", ML_unit);
  if (cwderr) { is_syserr(); sym_cover("fail"); } else { no_exn("getcwd raised"); sym_assert(is_str(v, lpath, lplen), "another working directory"); if (lplen > MAXPATHLEN) sym_cover("long"); else sym_cover("short"); }
}
static char lkpath[8]; static long lkn;
ssize_t H_readlink(const char *p, char *buf, size_t n) { sym_assert(same(p, lkpath, lkn), "another link is read"); if (cwderr) { errno = cc_errno; return -1; } sym_assert(sym_valid(buf, n), "readlink into memory that is not there"); long k = (size_t)lplen < n ? lplen : (long)n; memcpy(buf, lpath, k); return k; }
void entry_link(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); static const long ls[] = { 1, 3, MAXPATHLEN - 1, MAXPATHLEN, MAXPATHLEN + 50 }; lplen = ls[sym_choose(5)]; cwderr = sym_choose(4) == 3; lkn = cc_sstr(lkpath, 2);
  for (long i = 0; i < lplen; i++) lpath[i] = 'a' + i % 26; sym_bytes(lpath, 1); sym_assume(lpath[0] != 0); lpath[lplen] = 0; st.st_size = lplen; ret = 0;
  ml_val_t a = cc_str(lkpath, lkn); cc_position(p); ml_val_t v = cc_call(FS, "readlink", a);
  if (cwderr) { is_syserr(); sym_cover("fail"); } else { no_exn("readlink raised"); sym_assert(is_str(v, lpath, lplen), "not the text of the link"); if (lplen >= MAXPATHLEN) sym_cover("long"); else sym_cover("short"); }
}
static int pc_name, pc_intr; static char pcpath[8]; static long pcn;
long H_pathconf(const char *p, int name) { sym_assert(same(p, pcpath, pcn) && name == pc_name, "another limit is asked for"); if (pc_intr) { pc_intr = 0; errno = EINTR; return -1; } if (ret == -2) return -1; return sc_fail(ret); }
static long pcfd;
long H_fpathconf(int fd, int name) { sym_assert(fd == pcfd && name == pc_name, "another limit is asked for"); if (pc_intr) { pc_intr = 0; errno = EINTR; return -1; } if (ret == -2) return -1; return sc_fail(ret); }
void entry_conf(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), k = sym_choose(2); static const struct { const char *n; int v; } t[] = { {"LINK_MAX", _PC_LINK_MAX}, {"MAX_CANON", _PC_MAX_CANON}, {"MAX_INPUT", _PC_MAX_INPUT}, {"NAME_MAX", _PC_NAME_MAX}, {"PATH_MAX", _PC_PATH_MAX}, {"PIPE_BUF", _PC_PIPE_BUF}, {"CHOWN_RESTRICTED", _PC_CHOWN_RESTRICTED}, {"NO_TRUNC", _PC_NO_TRUNC}, {"VDISABLE", _PC_VDISABLE}, {"ASYNC_IO", _PC_ASYNC_IO}, {"SYNC_IO", _PC_SYNC_IO}, {"PRIO_IO", _PC_PRIO_IO}, {"FILESIZEBITS", _PC_FILESIZEBITS}, {"NO_SUCH", 0}, {"", 0}, {"LINK_MAXX", 0} };
  int i = sym_choose(16), out = sym_choose(3); pc_intr = sym_choose(2); pcfd = sym_range(0, 0x7fffffff); pcn = cc_sstr(pcpath, 1); if (cc_errno == EINTR) sym_stop();
  ret = out == 0 ? sym_range(0, 0x7fffffffffff) : out == 1 ? -1 : -2; pc_name = t[i].v; errno = 9; int intr = pc_intr;
  ml_val_t nm = cc_str(t[i].n, strlen(t[i].n)), a = k ? INT_CtoML(pcfd) : cc_str(pcpath, pcn); a = ML_Alloc2(msp, a, nm); cc_position(p); if (i >= 13) cc_errno = EINVAL;
  ml_val_t v = cc_call(FS, k ? "fpathconf" : "pathconf", a);
  if (i >= 13) { is_syserr(); sym_cover("unknown"); return; }
  if (intr) sym_cover("intr");
  if (out == 0) { no_exn("pathconf raised"); sym_assert(is_some(v) && is_w64(REC_SEL(v, 0), ret), "another limit is reported"); sym_cover("some"); }
  else if (out == 2) { no_exn("pathconf raised"); sym_assert(v == OPTION_NONE, "no limit not reported as NONE"); sym_cover("none"); } else { is_syserr(); sym_cover("fail"); }
}
