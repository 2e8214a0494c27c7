//@use rt.inc
//@entry boot q=120 shards=16 depth=8 covers=done,ran,datadone,literals
//@entry wide q=60 shards=16 depth=8 covers=done,ran steps=60000000
//@entry cut q=60 shards=4 depth=4 covers=refused
//@entry missing q=30 covers=refused,notfound
//@bounds boot lists of 1-4 entries with and without a size line, of plain files and of units within an archive; units with 0-3 imports selected by trees of depth up to 3 from the runtime or earlier units (or 1621 imports), with literals that leave any amount of room (in steps of 288 bytes; 192 in the thorough tier) in the allocation space, with and without exports, literals, code and filler sections, all contents and persistent IDs symbolic; every place at which a file may be cut short
#define CC_OWN_RUN
#define RT_DIED
#include "cfun.inc"
#include <stdio.h>
#include "bin-file.h"
static int died_ok; void rt_died(void) {  sym_assert(died_ok, "a well-formed boot list or file is refused"); sym_cover("refused"); }
/* files: 0 the boot list, 1 an archive, 2.. plain files */
#define NF 5
static char *fb[NF]; static long fl[NF], fp[NF]; static int fo[NF]; static const char *fn[NF] = { "boot.lst", "lib.a", "u2.bin", "u3.bin", "u4.bin" }; static int fmissing = -1;
static int handles[NF];
#define FI(f) ((int)((int *)(void *)(f) - handles))
static void on_close(int i);
FILE *H_fopen(const char *n, const char *m) { for (int i = 0; i < NF; i++) if (strcmp(n, fn[i]) == 0) { if (i == fmissing || !fb[i]) return NULL; sym_assert(m[0] == 'r' && !fo[i], "a boot file is opened in a wrong way"); fo[i] = 1; fp[i] = 0; return (FILE *)(void *)&handles[i]; } sym_assert(died_ok, "another file is opened"); return NULL; }
size_t H_fread(void *p, size_t s, size_t n, FILE *f) { int i = FI(f); if (s == 0 || n == 0) return 0; size_t k = s * n, left = fp[i] < fl[i] ? fl[i] - fp[i] : 0; if (k > left) k = left; memcpy(p, fb[i] + fp[i], k); fp[i] += k; return k / s; }
int H_fseek(FILE *f, long o, int w) { sym_assert(w == SEEK_SET && o >= 0, "a seek of another kind"); fp[FI(f)] = o; return 0; }
int H_getc(FILE *f) { int i = FI(f); return fp[i] < fl[i] ? (unsigned char)fb[i][fp[i]++] : EOF; }
int H_fgetc(FILE *f) { return H_getc(f); }
int H__IO_getc(FILE *f) { return H_getc(f); }
int H_ungetc(int c, FILE *f) { int i = FI(f); sym_assert(fp[i] > 0, "unread at the beginning"); fp[i]--; return c; }
char *H_fgets(char *b, int n, FILE *f) { int i = FI(f), k = 0; if (fp[i] >= fl[i]) return NULL; while (k < n - 1 && fp[i] < fl[i]) { char c = fb[i][fp[i]++]; b[k++] = c; if (c == '\n') break; } b[k] = 0; return b; }
int H_fclose(FILE *f) { int i = FI(f); sym_assert(fo[i], "a file is closed twice"); fo[i] = 0; on_close(i); return 0; }
int H_feof(FILE *f) { return fp[FI(f)] >= fl[FI(f)]; }
int H_ferror(FILE *f) { return 0; }
int H_sigemptyset(void *s) { return 0; }
int H_sigfillset(void *s) { return 0; }
int H_sigaction(int s, const void *a, void *b) { return 0; }
static void put(int i, char c) { if (!fb[i]) fb[i] = malloc(1 << 20); fb[i][fl[i]++] = c; }
static void puts_(int i, const char *s) { while (*s) put(i, *s++); }
static void put32(int i, Word_t v) { for (int k = 3; k >= 0; k--) put(i, (char)(v >> (8 * k))); }
static void putn(int i, long n) { char t[24]; int k = 0; if (n == 0) t[k++] = '0'; for (; n; n /= 10) t[k++] = '0' + n % 10; while (k) put(i, t[--k]); }
/* units */
#define NU 4
#define WIDE 1621
static long litS = 4000;
typedef struct { int file, exports, ncode, entry, nlit, nimp; long off, end; int isrc[4]; int ipath[4][3], idep[4]; Byte_t pid[16], code[8]; int lit; Word_t litv, res[3]; int ran, entered; } unit_t;
static unit_t U[NU]; static int nU, cur, wide, rtreg; static Byte_t rtpid[16]; static ml_state_t *bsp;
static int conc;
static void rtid(void) { for (int k = 0; k < 16; k++) rtpid[k] = k == 13 && !conc ? (Byte_t)sym_bits(8) : (Byte_t)(k * 29 + 0x9c); }
static void symhex(int i, Byte_t *pid) { for (int k = 0; k < 16; k++) { for (int h = 1; h >= 0; h--) { int d = (pid[k] >> (4 * h)) & 15; put(i, (char)sym_ite(d < 10, '0' + d, (k & 1 ? 'a' : 'A') + d - 10)); } } }
/* value that a unit exports: a record of 3 with a nested record, or its import record if it has no code */
static ml_val_t mkres(ml_state_t *m, unit_t *u) { ml_val_t in = ML_Alloc3(m, INT_CtoML(u->res[0]), INT_CtoML(u->res[1]), INT_CtoML(u->res[2])); ml_val_t mid = ML_Alloc1(m, in); return ML_Alloc3(m, INT_CtoML(u->res[1]), mid, INT_CtoML(u->res[0])); }
static void sane(ml_val_t v, long n) { sym_assert(isBOXED(v) && sym_valid(PTR_MLtoC(char, v) - 8, 8 * n + 8) && OBJ_DESC(v) == MAKE_DESC(n, DTAG_record), "a unit's value is damaged"); }
static void is_export(ml_val_t v, unit_t *u);
/* the values selected: depth 0 the export itself, 1 its second field, 2 the field within, 3 a leaf */
static void is_selected(ml_val_t v, unit_t *s, int dep) { if (dep == 0) { is_export(v, s); return; }
  if (dep == 1) { sane(v, 1); v = REC_SEL(v, 0); } if (dep <= 2) { sane(v, 3); for (int k = 0; k < 3; k++) sym_assert(REC_SEL(v, k) == INT_CtoML(s->res[k]), "a selected value differs"); return; } sym_assert(v == INT_CtoML(s->res[2]), "another field is selected"); }
static void is_arg(ml_val_t a, unit_t *u) { long n = wide && u == &U[nU - 1] ? WIDE : u->nimp; sym_assert(isBOXED(a), "no import record"); if (n != 1) sane(a, n + 1); 
  if (n == WIDE) { for (int k = 0; k < WIDE; k += 13) sym_assert(REC_SEL(a, k) == INT_CtoML(U[0].res[2]), "an import differs"); is_selected(REC_SEL(a, (WIDE - 1)), &U[0], 3); } else for (int k = 0; k < n; k++) if (u->isrc[k] < 0) sym_assert(REC_SEL(a, k) == RunTimeCompUnit, "the runtime is not what is imported"); else is_selected(REC_SEL(a, k), &U[u->isrc[k]], u->idep[k]);
  ml_val_t l = REC_SEL(a, n); if (!u->lit) sym_assert(l == ML_unit, "literals out of nothing"); else if (u->lit == 1) { sane(l, 1); sym_assert(REC_SEL(l, 0) == INT_CtoML(u->litv), "the literals differ"); sym_cover("literals"); } else if (u->lit == 3) { sane(l, 7); for (int k = 0; k < 7; k++) sym_assert(REC_SEL(l, k) == INT_CtoML(7), "the literals differ"); } else { sane(l, 60); for (int k = 0; k < 60; k += 3) sym_assert(isBOXED(REC_SEL(l, k)) && OBJ_DESC(REC_SEL(l, k)) == DESC_string && REC_SEL(REC_SEL(l, k), 1) == INT_CtoML(litS), "the literals differ"); } }
static void is_export(ml_val_t v, unit_t *u) { if (!u->ncode) { is_arg(v, u); return; } sane(v, 3); sym_assert(REC_SEL(v, 0) == INT_CtoML(u->res[1]) && REC_SEL(v, 2) == INT_CtoML(u->res[0]), "an exported value differs"); is_selected(REC_SEL(v, 1), u, 1); }
int H_restoreregs(ml_state_t *m) { bsp = m; while (cur < nU && (!U[cur].ncode || U[cur].ran)) cur++; sym_assert(cur < nU, "more code is run than was listed"); unit_t *u = &U[cur]; u->ran = 1; for (int i = 0; i < cur; i++) sym_assert(U[i].entered, "a unit runs before an earlier one has finished");
  sym_assert(m->ml_exnCont == PTR_CtoML(handle_v + 1), "a unit runs without the outermost handler"); ml_val_t c = m->ml_closure; sym_assert(isBOXED(c) && OBJ_DESC(c) == MAKE_DESC(1, DTAG_record) && m->ml_pc == REC_SEL(c, 0) && m->ml_linkReg == m->ml_pc, "a unit's closure is malformed");
  Byte_t *b = PTR_MLtoC(Byte_t, REC_SEL(c, 0)) - u->entry; sym_assert(sym_valid(b, u->ncode), "code is not backed by memory"); for (int k = 0; k < u->ncode; k++) sym_assert(b[k] == u->code[k], "other code is run"); is_arg(m->ml_arg, u); sym_cover("ran");
  m->ml_arg = mkres(m, u); if (sym_choose(2)) m->ml_allocPtr = (ml_val_t *)(((Addr_t)m->ml_limitPtr & ~(Addr_t)7) - 64); m->ml_closure = m->ml_calleeSave[1] = m->ml_calleeSave[2] = ML_unit; return REQ_RETURN; }
/* after each unit: everything entered so far can be found */
static void on_close(int i) { if (i == 0) return; while (cur < nU && U[cur].entered) cur++; sym_assert(cur < nU && fn[U[cur].file] == fn[i], "a file is loaded out of turn"); unit_t *u = &U[cur]; if (u->ncode) sym_assert(u->ran, "a unit's code is not run"); else sym_cover("datadone"); u->entered = 1; 
  ml_val_t p = *PTR_MLtoC(ml_val_t, PervStruct); for (int k = cur; k >= -rtreg; k--) { if (k >= 0 && !U[k].exports) continue; sane(p, 3); ml_val_t id = REC_SEL(p, 0); const Byte_t *x = k < 0 ? rtpid : U[k].pid; sym_assert(isBOXED(id) && OBJ_DESC(id) == DESC_string && REC_SEL(id, 1) == INT_CtoML(16) && sym_valid(PTR_MLtoC(char, REC_SEL(id, 0)), 16), "a persistent ID is malformed"); int ok = 1; for (int j = 0; j < 16; j++) ok &= PTR_MLtoC(Byte_t, REC_SEL(id, 0))[j] == x[j]; sym_assert(ok, "a persistent ID differs");
    if (k < 0) sym_assert(REC_SEL(p, 1) == RunTimeCompUnit, "the runtime is registered wrongly"); else is_export(REC_SEL(p, 1), &U[k]); p = REC_SEL(p, 2); } sym_assert(p == ML_unit, "more units are registered than were loaded"); }
static void packed(int i, Word_t v) { int k = 0; Byte_t t[5]; do { t[k++] = v & 127; v >>= 7; } while (v); while (k) { k--; put(i, t[k] | (k ? 128 : 0)); } }
/* write unit n to its file */
static void write_unit(int n, int sizes) { unit_t *u = &U[n]; int f = u->file; u->off = fl[f]; int cm = sizes & 1 ? 3 : 0, la = sizes & 2 ? 5 : 0, re = sizes & 4 ? 1 : 0, pad = sizes & 8 ? 2 : 0; long hdr = fl[f];
  if (!fb[f]) put(f, 0), fl[f] = 0; sym_bytes(fb[f] + fl[f], 16); fl[f] += 16; int w = wide && n == nU - 1; put32(f, w ? WIDE : u->nimp); put32(f, u->exports); long isz = fl[f]; put32(f, 0); put32(f, cm); put32(f, la); put32(f, re); put32(f, pad); long csz = fl[f]; put32(f, 0); put32(f, sym_bits(32)); long i0 = fl[f];
  if (w) { for (int j = 0; j < 16; j++) put(f, U[0].pid[j]); packed(f, 1); packed(f, 1); packed(f, 1); packed(f, 0); packed(f, WIDE); for (int k = 0; k < WIDE; k++) { packed(f, 2); packed(f, 0); } }
  else for (int k = 0; k < u->nimp; k++) { const Byte_t *x = u->isrc[k] < 0 ? rtpid : U[u->isrc[k]].pid; for (int j = 0; j < 16; j++) put(f, x[j]);
    static const int path[] = { 1, 0, 2 }; /* two leaves of one unit are selected by one tree */ if (k + 1 < u->nimp && u->isrc[k + 1] == u->isrc[k] && u->idep[k] == 3 && u->idep[k + 1] == 2) { }
    for (int d = 0; d < u->idep[k]; d++) { packed(f, 1); packed(f, path[d]); } packed(f, 0); }
  long isize = fl[f] - i0, at = fl[f]; fl[f] = isz; put32(f, isize); fl[f] = at; if (u->exports) for (int j = 0; j < 16; j++) put(f, u->pid[j]);
  int fill = cm + la + re + pad; if (fill) { sym_bytes(fb[f] + fl[f], fill); fl[f] += fill; } long c0 = fl[f];
  long ls = fl[f]; put32(f, 0); put32(f, sym_bits(32)); if (u->lit) { put32(f, 0x20190921); put32(f, 60); put32(f, 64); put32(f, 0); if (u->lit == 1) { put(f, 0x13); for (int k = 7; k >= 0; k--) put(f, (char)(u->litv >> (8 * k))); put(f, 0x30); } else if (u->lit == 3) { memset(fb[f] + fl[f], 7, litS); fl[f] += litS; put(f, 0x36); } else { for (int k = 0; k < 60; k++) { put(f, 0x2d); put32(f, 0); put32(f, litS); memset(fb[f] + fl[f], 'x', litS); fl[f] += litS; } put(f, 0x37); put(f, 60); } put(f, (char)0xff); at = fl[f]; fl[f] = ls; put32(f, at - ls - 8); fl[f] = at; }
  if (u->ncode) { put32(f, u->ncode); put32(f, u->entry); for (int k = 0; k < u->ncode; k++) put(f, u->code[k]); } at = fl[f]; fl[f] = csz; put32(f, at - c0); fl[f] = at; u->end = at; for (int k = 0; k < 3; k++) put(f, (char)sym_bits(8)); (void)hdr; }
static void mkunit(int n, int file, int exports, int nimp, int lit, int ncode, int entry) { unit_t *u = &U[n]; memset(u, 0, sizeof *u); u->file = file; u->exports = exports; u->nimp = nimp; u->lit = lit; u->ncode = ncode; u->entry = entry; if (conc) memset(u->pid, 7, 16); else sym_bytes(u->pid, 16); u->pid[0] = n; sym_bytes(u->code, 8); u->litv = sym_bits(63); for (int k = 0; k < 3; k++) u->res[k] = sym_bits(63); u->nlit = 0; }
static void imp(int n, int k, int src, int dep) { U[n].isrc[k] = src; U[n].idep[k] = dep; }
static void list(int head, int last) { if (head) { put(0, '%'); putn(0, nU + rtreg); puts_(0, " 40\n"); } if (rtreg) { put(0, '#'); symhex(0, rtpid); put(0, '\n'); } 
  for (int i = 0; i < nU; i++) { puts_(0, fn[U[i].file]); if (U[i].file == 1) { put(0, '@'); putn(0, U[i].off); if (i & 1) puts_(0, ":lib.a@12(x.sml)"); } if (i < nU - 1 || last) put(0, '\n'); } }
static void run(void) { heap_params_t p; p.allocSz = 256 * ONE_K; p.numGens = 3; p.cacheGen = -1; RecordGlobals(); InitCFunList(); cur = 0; BootML("boot.lst", &p); for (int i = 0; i < nU; i++) sym_assert(U[i].entered, "a unit of the list is not loaded"); for (int i = 0; i < NF; i++) sym_assert(!fo[i], "a file is left open"); }
static void units(void) { int v = sym_choose(BOUND(4, 6)); nU = 3; rtreg = 1; rtid(); int x = sym_choose(2), lit = sym_choose(2), code = 1 + sym_choose(2) * 7;
  mkunit(0, 1, 1, 1, lit, 8, v & 1 ? 4 : 0); imp(0, 0, -1, 0); write_unit(0, v * 3);
  mkunit(1, v & 1 ? 1 : 2, x, v == 0 ? 0 : 2, !lit, v == 2 ? 0 : code, 0); if (v) { imp(1, 0, 0, v % 4); imp(1, 1, v & 1 ? -1 : 0, v & 1 ? 0 : 3 - v % 4); } write_unit(1, 15 - v);
  mkunit(2, v == 3 ? 1 : 3, 1, x && v != 2 ? 3 : 1, lit, v == 3 ? 0 : 8, code & 3); imp(2, 0, 0, 1); if (U[2].nimp > 1) { imp(2, 1, 1, v % 3); if (!U[1].ncode) imp(2, 1, 1, 0); imp(2, 2, 0, 3); } write_unit(2, v); }
void entry_boot(void) { units(); list(sym_choose(2), sym_choose(2)); run(); sym_cover("done"); }
/* very many imports, and literals that fill the allocation space */
void entry_wide(void) { wide = 1; nU = 2; rtreg = sym_choose(2); rtid(); mkunit(0, 2, 1, 0, 0, 8, 0); write_unit(0, 0); int lit = sym_choose(3); if (lit == 2 && sym_choose(2)) { lit = 3; litS = sym_tier() ? 8000 + 8 * sym_choose(256) : 9600 + 12 * sym_choose(36); } mkunit(1, 3, 1, 0, lit, sym_choose(2) * 8, 0); write_unit(1, 9); list(1, 1); run(); sym_cover("done"); }
/* files that end early */
void entry_cut(void) { conc = 1; nU = 2; rtreg = 1; rtid(); int lit = sym_choose(2); mkunit(0, 2, 1, 0, 1, 8, 0); write_unit(0, 3); mkunit(1, 3, 1, 2, lit, 8, 0); imp(1, 0, -1, 0); imp(1, 1, 0, 3); write_unit(1, sym_choose(2) * 15); list(1, 1); long n = U[1].end; long c = sym_choose(n); fl[3] = c; U[1].ran = 1; rt_die_ok = died_ok = 1; 
  int how = 0; (void)how; run(); sym_fail("a file that is cut short is loaded"); }
void entry_missing(void) { conc = 1; nU = 2; rtreg = 0; mkunit(0, 2, 1, 0, 1, 8, 0); write_unit(0, 3); mkunit(1, 3, 1, 1, 1, 8, 0); imp(1, 0, 0, 1); int how = sym_choose(5); Byte_t p0 = U[0].pid[15]; if (how == 1) U[0].pid[15] ^= 1 << sym_choose(8); write_unit(1, 2); U[0].pid[15] = p0; if (how == 2) { nU = 3; mkunit(2, 4, 0, 0, 0, 0, 0); fb[4] = 0; } list(1, 1); if (how == 0) fmissing = 0; if (how == 3) { fb[0][1] = '1'; } if (how == 4) fl[0] = 0; rt_die_ok = died_ok = 1; sym_cover("notfound"); run(); sym_fail("a boot with missing parts succeeds"); }
