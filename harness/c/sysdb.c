//@use rt.inc
//@use cfun.inc
//@entry users q=60 shards=4 depth=5 covers=found,missing
//@entry groups q=90 shards=4 depth=5 covers=found,missing,many
//@entry errors q=60 covers=known,unknown,message
//@entry listerrors q=60 covers=done
//@entry osval q=60 shards=4 depth=6 covers=known,unknown
//@bounds every user and group number; names of 0 to 3 arbitrary characters and concrete ones of up to 4000; groups of 0 to 3 and of 700 members; every error number up to 200; every name of the constant tables and names that differ from them; allocation pointer fresh, at the last position before a collection, and past it
#include "cfun.inc"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <termios.h>
#include <pwd.h>
#include <grp.h>
#include <sys/wait.h>
#include <sys/stat.h>
#define DB "POSIX-SysDB"
static int found; static struct passwd pw; static struct group gr; static char nm[8], dir[4100], sh[8]; static char *mem[800]; static char ms[3][8];
struct passwd *H_getpwuid(uid_t u) { sc_add("getpwuid", u, 0, 0, 0); if (!found) { errno = cc_errno; return NULL; } return &pw; }
struct passwd *H_getpwnam(const char *n) { sc_copy(sc_add("getpwnam", 0, 0, 0, 0), 0, n); if (!found) { errno = cc_errno; return NULL; } return &pw; }
struct group *H_getgrgid(gid_t u) { sc_add("getgrgid", u, 0, 0, 0); if (!found) { errno = cc_errno; return NULL; } return &gr; }
struct group *H_getgrnam(const char *n) { sc_copy(sc_add("getgrnam", 0, 0, 0, 0), 0, n); if (!found) { errno = cc_errno; return NULL; } return &gr; }
static const char *ask(const char *byid, const char *byname, int k, int p, ml_val_t *v) {
  Word_t u = sym_bits(32); char q[8]; long qn = cc_sstr(q, 2); ml_val_t a = k ? cc_str(q, qn) : cc_w64(u); cc_position(p); *v = cc_call(DB, k ? byname : byid, a); sc_t *c = sc_only(k ? byname : byid);
  sym_assert(k ? same(c->s[0], q, qn) : (Unsigned32_t)c->a[0] == (Unsigned32_t)u, "another entry is looked up"); return 0; }
void entry_users(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), k = sym_choose(2); found = sym_choose(2); cc_sstr(nm, 2); cc_sstr(sh, 1); long dn = sym_choose(2) ? 4000 : cc_sstr(dir, 2); if (dn > 2) { memset(dir, 'd', dn); dir[dn] = 0; } if (sym_choose(2)) cc_fill();
  pw.pw_name = nm; pw.pw_uid = (uid_t)sym_bits(32); pw.pw_gid = (gid_t)sym_bits(32); pw.pw_dir = dir; pw.pw_shell = sh; pw.pw_passwd = "pass"; pw.pw_gecos = "gecos"; ml_val_t v; ask("getpwuid", "getpwnam", k, p, &v);
  if (!found) { is_syserr(); sym_cover("missing"); return; } no_exn("raised"); sym_assert(is_rec(v, 5), "user record"); sym_assert(is_cstr(REC_SEL(v, 0), nm), "user name"); sym_assert(is_w64(REC_SEL(v, 1), pw.pw_uid) & is_w64(REC_SEL(v, 2), pw.pw_gid), "user or group number"); sym_assert(is_cstr(REC_SEL(v, 3), dir), "home directory"); sym_assert(is_cstr(REC_SEL(v, 4), sh), "shell"); sym_cover("found"); }
void entry_groups(void) {
  cc_init(); sc_reset(); int p = sym_choose(3), k = sym_choose(2); found = sym_choose(2); cc_sstr(nm, 2); static const int ns[] = { 0, 1, 3, 700 }; int n = ns[sym_choose(4)]; for (int i = 0; i < n; i++) { if (i == 0) cc_sstr(ms[0], 2); else if (i < 3) { ms[i][0] = 'f' + i; ms[i][1] = 0; } mem[i] = i < 3 ? ms[i] : "somebody"; } mem[n] = NULL;
  gr.gr_name = nm; gr.gr_gid = (gid_t)sym_bits(32); gr.gr_mem = mem; gr.gr_passwd = "pass"; ml_val_t v; ask("getgrgid", "getgrnam", k, p, &v);
  if (!found) { is_syserr(); sym_cover("missing"); return; } no_exn("raised"); sym_assert(is_rec(v, 3), "group record"); sym_assert(is_cstr(REC_SEL(v, 0), nm), "group name"); sym_assert(is_w64(REC_SEL(v, 1), gr.gr_gid), "group number"); ml_val_t l = REC_SEL(v, 2);
  for (int i = 0; i < n; i++) { sym_assert(l != LIST_nil && isBOXED(l), "a member is missing"); sym_assert(is_cstr(LIST_hd(l), mem[i]), "another member"); l = LIST_tl(l); } sym_assert(l == LIST_nil, "more members"); sym_cover("found"); if (n > 500) sym_cover("many"); }
typedef struct { const char *n; int v; } nv;
static const nv errs[] = { {"acces", EACCES}, {"again", EAGAIN}, {"badf", EBADF}, {"badmsg", EBADMSG}, {"busy", EBUSY}, {"canceled", ECANCELED}, {"child", ECHILD}, {"deadlk", EDEADLK}, {"dom", EDOM}, {"exist", EEXIST}, {"fault", EFAULT}, {"fbig", EFBIG}, {"inprogress", EINPROGRESS}, {"intr", EINTR}, {"inval", EINVAL}, {"io", EIO}, {"isdir", EISDIR}, {"loop", ELOOP}, {"mfile", EMFILE}, {"mlink", EMLINK}, {"msgsize", EMSGSIZE}, {"nametoolong", ENAMETOOLONG}, {"nfile", ENFILE}, {"nodev", ENODEV}, {"noent", ENOENT}, {"noexec", ENOEXEC}, {"nolck", ENOLCK}, {"nomem", ENOMEM}, {"nospc", ENOSPC}, {"nosys", ENOSYS}, {"notdir", ENOTDIR}, {"notempty", ENOTEMPTY}, {"notsup", ENOTSUP}, {"notty", ENOTTY}, {"nxio", ENXIO}, {"perm", EPERM}, {"pipe", EPIPE}, {"range", ERANGE}, {"rofs", EROFS}, {"spipe", ESPIPE}, {"srch", ESRCH}, {"toobig", E2BIG}, {"xdev", EXDEV} };
#define NERRS ((int)(sizeof errs / sizeof errs[0]))
void entry_errors(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); long e = sym_range(0, 200); cc_position(p);
  if (sym_choose(2)) { cc_errno = (int)e; ml_val_t v = cc_call("POSIX-Error", "errmsg", INT_CtoML(e)); no_exn("errmsg raised"); sym_assert(is_cstr(v, cc_msg), "another message"); sym_cover("message"); return; }
  e = sym_concrete(e); ml_val_t v = cc_call("POSIX-Error", "geterror", INT_CtoML(e)); no_exn("geterror raised"); sym_assert(isBOXED(v), "no system constant");
  for (int i = 0; i < NERRS; i++) if (errs[i].v == e) { sym_assert(REC_SEL(v, 0) == INT_CtoML(e) && is_cstr(REC_SEL(v, 1), errs[i].n), "an error has another name"); sym_cover("known"); return; }
  sym_assert(REC_SEL(v, 0) == INT_CtoML(-1) && is_cstr(REC_SEL(v, 1), "<UNKNOWN>"), "an unknown error has a name"); sym_cover("unknown"); }
void entry_listerrors(void) {
  cc_init(); sc_reset(); int p = sym_choose(3); cc_position(p); ml_val_t v = cc_call("POSIX-Error", "listerrors", ML_unit); no_exn("listerrors raised"); static char seen[64]; memset(seen, 0, sizeof seen); int n = 0;
  for (; v != LIST_nil; v = LIST_tl(v)) { sym_assert(isBOXED(v) && n++ < 200, "the list of errors"); ml_val_t c = LIST_hd(v); for (int i = 0; i < NERRS; i++) if (REC_SEL(c, 0) == INT_CtoML(errs[i].v) && is_cstr(REC_SEL(c, 1), errs[i].n)) seen[i] = 1; }
  for (int i = 0; i < NERRS; i++) sym_assert(seen[i], errs[i].n); sym_cover("done"); }
#define C(x) {#x, x}
#define V(x) {#x, V##x}
static const nv fsv[] = { {"A_EXEC", X_OK}, {"A_FILE", F_OK}, {"A_READ", R_OK}, {"A_WRITE", W_OK}, C(O_APPEND), C(O_CREAT), C(O_DSYNC), C(O_EXCL), C(O_NOCTTY), C(O_NONBLOCK), C(O_RDONLY), C(O_RDWR), C(O_RSYNC), C(O_SYNC), C(O_TRUNC), C(O_WRONLY), {"irgrp", S_IRGRP}, {"iroth", S_IROTH}, {"irusr", S_IRUSR}, {"irwxg", S_IRWXG}, {"irwxo", S_IRWXO}, {"irwxu", S_IRWXU}, {"isgid", S_ISGID}, {"isuid", S_ISUID}, {"iwgrp", S_IWGRP}, {"iwoth", S_IWOTH}, {"iwusr", S_IWUSR}, {"ixgrp", S_IXGRP}, {"ixoth", S_IXOTH}, {"ixusr", S_IXUSR}, {0, 0} };
static const nv iov[] = { C(F_GETLK), C(F_RDLCK), C(F_SETLK), C(F_SETLKW), C(F_UNLCK), C(F_WRLCK), C(SEEK_CUR), C(SEEK_END), C(SEEK_SET), {"append", O_APPEND}, {"cloexec", FD_CLOEXEC}, {"dsync", O_DSYNC}, {"nonblock", O_NONBLOCK}, {"rsync", O_RSYNC}, {"sync", O_SYNC}, {0, 0} };
static const nv prv[] = { C(WNOHANG), C(WUNTRACED), {0, 0} };
static const nv sgv[] = { {"abrt", SIGABRT}, {"alrm", SIGALRM}, {"bus", SIGBUS}, {"chld", SIGCHLD}, {"cont", SIGCONT}, {"fpe", SIGFPE}, {"hup", SIGHUP}, {"ill", SIGILL}, {"int", SIGINT}, {"kill", SIGKILL}, {"pipe", SIGPIPE}, {"quit", SIGQUIT}, {"segv", SIGSEGV}, {"stop", SIGSTOP}, {"term", SIGTERM}, {"tstp", SIGTSTP}, {"ttin", SIGTTIN}, {"ttou", SIGTTOU}, {"usr1", SIGUSR1}, {"usr2", SIGUSR2}, {0, 0} };
static const nv tyv[] = { C(B0), C(B110), C(B1200), C(B134), C(B150), C(B1800), C(B19200), C(B200), C(B2400), C(B300), C(B38400), C(B4800), C(B50), C(B600), C(B75), C(B9600), C(BRKINT), C(CLOCAL), C(CREAD), C(CS5), C(CS6), C(CS7), C(CS8), C(CSIZE), C(CSTOPB), C(ECHO), C(ECHOE), C(ECHOK), C(ECHONL), V(EOF), V(EOL), V(ERASE), C(HUPCL), C(ICANON), C(ICRNL), C(IEXTEN), C(IGNBRK), C(IGNCR), C(IGNPAR), C(INLCR), C(INPCK), V(INTR), C(ISIG), C(ISTRIP), C(IXOFF), C(IXON), V(KILL), V(MIN), C(NCCS), C(NOFLSH), C(OPOST), C(PARENB), C(PARMRK), C(PARODD), V(QUIT), V(START), V(STOP), V(SUSP), C(TCIFLUSH), C(TCIOFF), C(TCIOFLUSH), C(TCION), C(TCOFLUSH), C(TCOOFF), C(TCOON), C(TCSADRAIN), C(TCSAFLUSH), C(TCSANOW), V(TIME), C(TOSTOP), {0, 0} };
void entry_osval(void) {
  cc_init(); sc_reset(); static const struct { const char *lib; const nv *t; } ls[] = { {"POSIX-FileSys", fsv}, {"POSIX-IO", iov}, {"POSIX-Process", prv}, {"POSIX-Signal", sgv}, {"POSIX-TTY", tyv} }; int l = sym_choose(5); const nv *t = ls[l].t; int n = 0; while (t[n].n) n++;
  int i = sym_choose(n + 4); static const char *bad[] = { "", "zzz", "B5", "O_" }; const char *s = i < n ? t[i].n : bad[i - n]; int p = sym_choose(2); ml_val_t a = cc_str(s, strlen(s)); cc_position(p); ml_val_t v = cc_call(ls[l].lib, "osval", a);
  if (i < n) { no_exn(s); sym_assert(v == INT_CtoML(t[i].v), "a named constant has another value"); sym_cover("known"); } else { is_msgerr(); sym_cover("unknown"); } }
