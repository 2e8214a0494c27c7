//@use rt.inc
//@entry names q=60 shards=8 depth=6 covers=passed,taken
//@entry values q=90 shards=16 depth=7 covers=boot,load,refuse,sizes
//@entry sizes q=60 shards=8 depth=6 covers=ok,refuse,small
//@entry longname q=40 shards=2 depth=4 covers=done
//@entry debugfile q=40 covers=opened,refuse
//@bounds command lines of 1 to 3 arguments: arguments of up to 7 symbolic characters, @SML followed by up to 5 symbolic characters, every option with symbolic values of up to 3 characters or with none, any order, sizes of up to 3 symbolic digits with any suffix and sizes around the limits of the number types, option names of up to 300 characters
#define RT_OWN_MAIN
#define BootML own_boot
#define LoadML own_load
#define exit own_exit
#define fopen own_fopen
#define open own_open
#define InitTimers own_timers
#define RecordGlobals own_globals
#define InitCFunList own_cfuns
#define main sml_main
#include <fcntl.h>
#include "rt.inc"
#include <stdio.h>
void own_exit(int); FILE *own_fopen(const char *, const char *);
#include "../kernel/main.c"
#undef main
#undef exit
void own_timers(void) {} void own_globals(void) {} void own_cfuns(void) {}
static int n_err, n_exit, x_code, n_load; static char *b_from, *l_from; static int n_load; static heap_params_t *b_par;
static void finish(void);
void Error(const char *f, ...) { char m[600]; va_list ap; va_start(ap, f); vsnprintf(m, sizeof m, f, ap); va_end(ap); n_err++; }
void own_boot(const char *f, heap_params_t *p) { sym_assert(!b_from && !l_from && !n_exit, "started twice"); b_from = (char *)f; b_par = p; }
void own_load(const char *f, heap_params_t *p) { sym_assert(!b_from && !n_load++ && !n_exit, "started twice"); l_from = (char *)f; b_par = p; }
void own_exit(int c) { if (!n_exit) { n_exit = 1; x_code = c; finish(); } sym_end(); }
static int fo_ok, fo_n; static char fo_name[8]; static FILE *dbg = (FILE *)fo_name;
FILE *own_fopen(const char *n, const char *m) { fo_n++; strncpy(fo_name, n, 7); sym_assert(strcmp(m, "w") == 0, "the debug file is not opened for writing"); return fo_ok ? dbg : NULL; }
/* the model: what the command line says */
static char *av[6]; static int ac; static char A[4][400];
static int m_bad, m_quiet, m_obj, m_gc, m_unl; static char *m_boot, *m_load, *m_name, *m_pass[6]; static int m_np; static long m_alloc, m_ngens, m_cache; static char *m_dbg;
static int eqs(const char *a, const char *b, const char *e) { while (b < e && *a == *b) { a++; b++; } return b == e && *a == 0; }
static long num(const char *s) { long v = 0; while (*s >= '0' && *s <= '9' && v < 100000000000000l) v = v * 10 + (*s++ - '0'); return v; }
static long size_of(const char *s) { const char *p = s; while (*p >= '0' && *p <= '9') p++; if (p == s) return -1; long k; if (*p == 0) k = 1024; else if (*p == 'k' || *p == 'K') k = 1024; else if (*p == 'm' || *p == 'M') k = 1024 * 1024; else return -1; long v = num(s) * k; return v > 0x7fffffffl ? -1 : v; }
static void model(void) { m_quiet = 1; m_name = av[0]; m_ngens = m_cache = -1;
  for (int i = 1; i < ac; i++) { char *a = av[i]; if (!(a[0] == '@' && a[1] == 'S' && a[2] == 'M' && a[3] == 'L')) { m_pass[m_np++] = a; sym_cover("passed"); continue; }
    char *n = a + 4, *e = n; while (*e && *e != '=') e++; char *v = *e ? e + 1 : e; int miss = *v == 0; sym_cover("taken");
#define IS(o) eqs(o, n, e)
#define NEED if (miss) { m_bad = 1; continue; }
    if (IS("boot")) { NEED m_boot = v; } else if (IS("load")) { NEED m_load = v; } else if (IS("cmdname")) { NEED m_name = v; } else if (IS("quiet")) m_quiet = 1; else if (IS("verbose")) m_quiet = 0; else if (IS("objects")) m_obj = 1; else if (IS("gcmessages")) m_gc = 1; else if (IS("unlimited-heap")) m_unl = 1;
    else if (IS("debug")) { NEED m_dbg = v; if (!fo_ok) m_bad = 1; } else if (IS("alloc")) { NEED long s = size_of(v); if (s < 0) m_bad = 1; else m_alloc = s < 128 * 1024 ? 128 * 1024 : s; } else if (IS("ngens")) { NEED long g = num(v); m_ngens = g < 1 ? 1 : g > 14 ? 14 : g; } else if (IS("vmcache")) { NEED long g = num(v); m_cache = g > 14 ? 14 : g; } } }
static void finish(void) {
  if (m_bad) { sym_assert(n_exit && x_code != 0 && !b_from && !n_load, "a faulty command line is not refused"); sym_assert(n_err > 0, "a command line is refused without a message"); sym_cover("refuse"); return; }
  sym_assert(x_code == 0, "a correct command line is refused");
  if (m_boot) { sym_assert(b_from == m_boot && !n_load, "does not boot from the file given"); sym_cover("boot"); } else { sym_assert(!b_from && n_load == 1 && l_from == m_load, "does not load the image given"); sym_cover("load"); }
  sym_assert(strcmp(MLCmdName, m_name) == 0, "another command name"); sym_assert(RawArgs == av, "the raw command line"); for (int i = 0; i < m_np; i++) sym_assert(CmdLineArgs[i] == m_pass[i], "an argument of the program is lost or changed"); sym_assert(CmdLineArgs[m_np] == NULL, "a runtime option is passed to the program");
  sym_assert(!SilentLoad == !m_quiet && !DumpObjectStrings == !m_obj && !GCMessages == !m_gc && !UnlimitedHeap == !m_unl, "a switch is set wrongly");
  sym_assert(b_par != NULL, "no heap parameters"); if (m_alloc) { sym_assert(b_par->allocSz == m_alloc, "another allocation size"); sym_cover("sizes"); } else sym_assert(b_par->allocSz == 0, "an allocation size nobody asked for");
  sym_assert(m_ngens >= 0 ? b_par->numGens == m_ngens : b_par->numGens < 0, "another number of generations"); sym_assert(m_cache >= 0 ? b_par->cacheGen == m_cache : b_par->cacheGen < 0, "another cache level");
  if (m_dbg) { sym_assert(fo_n > 0 && DebugF == dbg && strncmp(fo_name, m_dbg, 7) == 0, "another debug file"); sym_cover("opened"); } }
static void go(void) { av[ac] = NULL; model(); sml_main(ac, av); }
static void start(void) { av[0] = "smlx"; ac = 1; fo_ok = 1; }
static void symstr(char *b, int n) { sym_bytes(b, n); for (int i = 0; i < n; i++) sym_assume(b[i] != 0); b[n] = 0; }
void entry_names(void) { start(); int n = 1 + sym_choose(2); for (int i = 0; i < n; i++) { char *b = A[i]; if (sym_choose(2)) { memcpy(b, "@SML", 4); symstr(b + 4, i ? 1 : sym_choose(6)); } else symstr(b, i ? 1 : sym_choose(8)); av[ac++] = b; } go(); }
static const char *on[] = { "boot", "load", "cmdname", "quiet", "verbose", "objects", "gcmessages", "unlimited-heap", "alloc", "ngens", "vmcache", "other" };
void entry_values(void) { start(); int n = 1 + sym_choose(BOUND(2, 3));
  for (int i = 0; i < n; i++) { char *b = A[i]; int k = sym_choose(13); if (k == 12) { strcpy(b, "arg"); av[ac++] = b; continue; } strcpy(b, "@SML"); strcat(b, on[k]); int l = strlen(b), m = sym_choose(k < 3 ? 3 : 4);
    if (m > 0) { b[l++] = '='; b[l] = 0; if (m > 1) { int c = k >= 8 && k < 11 ? m - 1 + (i == 0 && m == 3) : m - 1; for (int j = 0; j < c; j++) { char x = (char)sym_bits(8); if (k >= 8 && k < 11) sym_assume(x >= '0' && x <= '9'); else sym_assume(x != 0); b[l++] = x; } b[l] = 0; } }
    char *cpy = malloc(l + 1); memcpy(cpy, b, l + 1); av[ac++] = cpy; } go(); }
void entry_sizes(void) { start(); char *b = A[0]; strcpy(b, "@SMLalloc="); int l = 10; static const char *big[] = { "2047", "2048", "2097151", "2097152", "4194304", "2147483647", "4294967296", "18446744073709551617", "99999999999999999999", "128", "127", "131072" }; int k = sym_choose(13);
  if (k < 12) { strcpy(b + l, big[k]); l = strlen(b); } else { int n = sym_choose(4); for (int i = 0; i < n; i++) { b[l] = (char)sym_bits(8); sym_assume(b[l] >= '0' && b[l] <= '9'); l++; } }
  if (sym_choose(2)) { b[l] = (char)sym_bits(8); sym_assume(b[l] != 0); l++; if (sym_choose(2)) b[l++] = 'k'; } b[l] = 0; av[ac++] = b; if (sym_choose(2)) av[ac++] = "x"; long s = size_of(b + 10); if (s < 0) sym_cover("refuse"); else if (s < 128 * 1024) sym_cover("small"); else sym_cover("ok"); go(); }
void entry_longname(void) { start(); char *b = A[0]; static const int ns[] = { 59, 60, 62, 63, 64, 65, 100, 300 }; int n = ns[sym_choose(8)], m = sym_choose(3); memcpy(b, "@SML", 4); memset(b + 4, 'q', n); b[4 + n] = 0; if (m) strcat(b, m == 1 ? "=" : "=5"); av[ac++] = b; av[ac++] = "y"; sym_cover("done"); go(); }
void entry_debugfile(void) { start(); fo_ok = sym_choose(2); char *b = A[0]; strcpy(b, "@SMLdebug"); int m = sym_choose(3); if (m) strcat(b, m == 1 ? "=" : "=f"); av[ac++] = b; if (sym_choose(2)) av[ac++] = "z"; go(); }
