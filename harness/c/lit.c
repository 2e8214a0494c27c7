//@use rt.inc
//@entry ops q=90 shards=16 depth=8 covers=done,shared
//@entry collect q=90 shards=8 depth=6 covers=done,collected
//@entry many q=60 shards=4 depth=3 covers=done,collected steps=60000000
//@entry large q=90 shards=8 depth=5 covers=done,collected steps=200000000
//@entry bad q=30 covers=refused,empty
//@bounds programs of up to 5 instructions over all encodings that the compiler emits (every small-integer opcode, signed operands of 1, 2, 4 and 8 bytes, reals, strings of 0-9 symbolic bytes, records, vectors, raw words and reals, save and load in both widths), all operands symbolic; a collection before any instruction of a 9-instruction program; stacks of 1000 entries; save areas of up to 700 entries; strings and raw objects of up to 300 KB and vectors and records of up to 900 elements in an allocation space of 256 KB; the bytecode inside the heap (where a collection moves it) or outside
#include "cfun.inc"
enum { V_INT, V_W64, V_REAL, V_STR, V_REC, V_VEC, V_RAW, V_RAW64 };
#define LMAX 24
typedef struct { int kind; long n; Word_t w[6]; char s[16]; int ch[6]; } node_t;
static node_t N[LMAX]; static int nN, S[LMAX], nS, saved_[LMAX];
static Byte_t B[500000]; static long nB;
static void b1(Word_t v) { B[nB++] = (Byte_t)v; }
static void bn(Word_t v, int n) { for (int i = n - 1; i >= 0; i--) b1(v >> (8 * i)); }
static void start(Word_t depth, Word_t saved) { nB = nN = nS = 0; bn(0x20190921, 4); bn(depth, 4); bn(64, 4); bn(saved, 4); }
static int node(int kind, long n) { sym_assert(nN < LMAX, "too many nodes"); memset(&N[nN], 0, sizeof N[nN]); N[nN].kind = kind; N[nN].n = n; return nN++; }
static void push(int v) { S[nS++] = v; }
static Word_t sx(Word_t v, int bytes) { int s = 64 - 8 * bytes; return s ? (Word_t)((long)(v << s) >> s) : v; }
static void i_imm(void) { Word_t op = sym_range(0, 15); op = sym_concrete(op); b1(op); int v = node(V_INT, 0); N[v].w[0] = op <= 10 ? op : -(op - 10); push(v); }
static const int wid[] = { 1, 2, 4, 8 };
static void i_int(int f, int k) { b1((k ? 0x17 : 0x10) + f); Word_t x = sym_bits(8 * wid[f]); bn(x, wid[f]); int v = node(k ? V_W64 : V_INT, 0); N[v].w[0] = sx(x, wid[f]); push(v); }
static void i_real(void) { b1(0x27); Word_t x = sym_bits(64); bn(x, 8); int v = node(V_REAL, 0); N[v].w[0] = x; push(v); }
static void i_str(long n, int wide) { if (wide) { b1(0x2d); bn(n, 8); } else { b1(0x2c); b1(n); } int v = node(V_STR, n); sym_bytes(N[v].s, n); for (long i = 0; i < n; i++) b1(N[v].s[i]); push(v); }
static void i_agg(int kind, int n, int form) { if (kind == V_REC) { if (form == 0 && n > 0 && n <= 7) b1(0x30 + n - 1); else if (form != 2) { b1(0x37); b1(n); } else { b1(0x38); bn(n, 4); } } else if (form != 2) { b1(0x39); b1(n); } else { b1(0x3a); bn(n, 4); }
  if (n == 0 && kind == V_REC) { int v = node(V_INT, 0); N[v].w[0] = 0; push(v); return; } int v = node(kind, n); for (int i = n - 1; i >= 0; i--) N[v].ch[i] = S[--nS]; push(v); }
static void i_raw(int kind, int n, int form) { if (kind == V_RAW) { if (form == 0 && n <= 2) b1(0x3a + n); else if (form != 2) { b1(0x3d); b1(n); } else { b1(0x3e); bn(n, 4); } } else if (form != 2) { b1(0x41); b1(n); } else { b1(0x42); bn(n, 4); }
  int v = node(kind, n); for (int i = 0; i < n; i++) { N[v].w[i] = sym_bits(64); bn(N[v].w[i], 8); } push(v); }
static void i_save(int k, int wide) { b1(wide ? 0x45 : 0x44); bn(k, wide ? 2 : 1); saved_[k] = S[nS - 1]; }
static void i_load(int k, int wide) { b1(wide ? 0x47 : 0x46); bn(k, wide ? 2 : 1); push(saved_[k]); }
static void big(ml_val_t v, node_t *p);
static ml_val_t at[LMAX]; static char was[LMAX];
static void compare(ml_val_t v, int i) { node_t *p = &N[i];
  if (p->kind == V_INT) { sym_assert(v == INT_CtoML(p->w[0]), "an integer differs"); return; }
  sym_assert(isBOXED(v), "a literal is not an object"); if (p->kind == V_STR && p->w[5] != 1) { sym_assert(is_str(v, p->s, p->n), "a string differs"); if (p->n) { const char *q = PTR_MLtoC(char, REC_SEL(v, 0)); for (long j = p->n; j < 8 * (p->n / 8 + 1); j++) sym_assert(q[j] == 0, "a string is not padded with zeros"); } }
  if (p->kind == V_VEC && p->n == 0) { sym_assert(OBJ_DESC(v) == DESC_polyvec && REC_SEL(v, 1) == INT_CtoML(0), "an empty vector differs"); return; }
  if (was[i]) { if (p->kind != V_STR || p->n) sym_assert(at[i] == v, "a shared literal was copied"); sym_cover("shared"); return; } was[i] = 1; at[i] = v; if (p->w[5] == 1) { big(v, p); return; }
  ml_val_t d = p->kind == V_VEC ? REC_SEL(v, 0) : v; sym_assert(sym_valid(PTR_MLtoC(char, d) - 8, 8 + 8 * (p->n > 0 && p->kind != V_STR ? p->n : 1)), "a literal is not backed by memory");
  switch (p->kind) {
    case V_W64: sym_assert(is_w64(v, p->w[0]), "a 64-bit integer differs"); break;
    case V_REAL: sym_assert(OBJ_DESC(v) == DESC_reald && *PTR_MLtoC(Word_t, v) == p->w[0], "a real differs"); break;
    case V_RAW: case V_RAW64: sym_assert(OBJ_DESC(v) == MAKE_DESC(p->n, p->kind == V_RAW ? DTAG_raw : DTAG_raw64), "descriptor of a raw object wrong"); for (int j = 0; j < p->n; j++) sym_assert(PTR_MLtoC(Word_t, v)[j] == p->w[j], "raw data differ"); break;
    case V_REC: sym_assert(is_rec(v, p->n), "descriptor of a record wrong"); for (int j = 0; j < p->n; j++) compare(REC_SEL(v, j), p->ch[j]); break;
    case V_VEC: sym_assert(OBJ_DESC(v) == DESC_polyvec && REC_SEL(v, 1) == INT_CtoML(p->n) && OBJ_DESC(d) == MAKE_DESC(p->n, DTAG_vec_data), "vector malformed"); for (int j = 0; j < p->n; j++) compare(REC_SEL(d, j), p->ch[j]); break; } }
/* one record of all that is on the stack, then return */
static void finish(void) { if (nS > 1) i_agg(V_REC, nS, 0); b1(0xff); }
static ml_val_t build(int how, int pos) { Byte_t *o = 0; ml_val_t r; B[nB] = 0x55;
  if (how == 0) { msp->ml_calleeSave[0] = cc_live; ml_val_t s = cc_str((char *)B, nB); cc_live = msp->ml_calleeSave[0]; cc_position(pos); r = cc_call("SMLNJ-RunT", "mkLiterals", s); no_exn("literals cannot be built"); }
  else { o = malloc(nB); memcpy(o, B, nB); cc_position(pos); msp->ml_calleeSave[0] = cc_live; r = BuildLiterals(msp, o, nB); cc_live = msp->ml_calleeSave[0]; sym_assert(REC_SEL(cc_live, 0) == cc_liveval, "building literals disturbed another object"); free(o); }
  sym_assert((Addr_t)msp->ml_allocPtr <= (Addr_t)msp->ml_heap->allocBase + msp->ml_heap->allocSzB, "the allocation space was overrun"); return r; }
static void verify(ml_val_t r) { memset(was, 0, sizeof was); compare(r, S[0]); }
static void verify2(ml_val_t r) { verify(r); msp->ml_arg = r; InvokeGC(msp, 0); verify(msp->ml_arg); InvokeGC(msp, 2); verify(msp->ml_arg); }
static void instr(int nsaved) { int o = sym_choose(12); switch (o) {
    case 0: i_imm(); break; case 1: i_int(sym_choose(4), 0); break; case 2: i_int(sym_choose(4), 1); break; case 3: i_real(); break;
    case 4: { static const int l[] = { 0, 1, 7, 8, 9 }; i_str(l[sym_choose(5)], sym_choose(2)); break; }
    case 5: { int n = nS < 2 ? nS : 1 + sym_choose(2); i_agg(V_REC, n, sym_choose(3)); break; } case 6: { int n = nS ? 1 + (nS > 1 ? sym_choose(2) : 0) : 0; i_agg(V_VEC, n, sym_choose(2) * 2); break; }
    case 7: i_raw(V_RAW, 1 + sym_choose(3), sym_choose(3)); break; case 8: i_raw(V_RAW64, 1 + sym_choose(2), 2 * sym_choose(2)); break;
    case 9: i_agg(V_REC, 0, 1 + sym_choose(2)); break; case 10: i_agg(V_VEC, 0, 2 * sym_choose(2)); break; default: if (nS) { i_save(nsaved, nsaved & 1); i_load(nsaved, !(nsaved & 1)); } } }
/* every instruction does what the compiler means by it */
void entry_ops(void) { cc_init(); start(10, 4); int n = 1 + sym_choose(BOUND(2, 3)); for (int i = 0; i < n; i++) instr(i); sym_assume(nS > 0); finish(); verify2(build(sym_choose(2), 0)); sym_cover("done"); }
/* a large raw object (words), string (bytes), vector or record of small integers */
static int first = -1;
static void i_big(int kind, long n) { int v = node(kind, n), s = n < 256; N[v].w[5] = 1; N[v].w[4] = first; switch (kind) { case V_RAW: b1(s ? 0x3d : 0x3e); bn(n, s ? 1 : 4); for (long i = 0; i < n; i++) bn(i, 8); break; case V_RAW64: b1(s ? 0x41 : 0x42); bn(n, s ? 1 : 4); for (long i = 0; i < n; i++) bn(i, 8); break; case V_STR: b1(s ? 0x2c : 0x2d); bn(n, s ? 1 : 8); for (long i = 0; i < n; i++) b1('a' + i % 23); break;
    default: for (long i = 0; i < n; i++) if (i == 0 && first >= 0) { i_load(0, 0); nS--; } else b1(i % 11); b1(kind == V_VEC ? (s ? 0x39 : 0x3a) : s ? 0x37 : 0x38); bn(n, s ? 1 : 4); } push(v); }
static void big(ml_val_t v, node_t *p) { long n = p->n; ml_val_t d = p->kind == V_STR || p->kind == V_VEC ? REC_SEL(v, 0) : v; static const Word_t tag[] = { [V_STR] = DTAG_raw, [V_REC] = DTAG_record, [V_VEC] = DTAG_vec_data, [V_RAW] = DTAG_raw, [V_RAW64] = DTAG_raw64 }; long words = p->kind == V_STR ? n / 8 + 1 : n;
  if (d != v) sym_assert(OBJ_DESC(v) == (p->kind == V_STR ? DESC_string : DESC_polyvec) && REC_SEL(v, 1) == INT_CtoML(n), "header of a large literal wrong"); sym_assert(isBOXED(d) && OBJ_DESC(d) == MAKE_DESC(words, tag[p->kind]) && sym_valid(PTR_MLtoC(char, d), 8 * words), "a large literal is not backed by memory");
  if (p->kind == V_STR) { const char *q = PTR_MLtoC(char, d); for (long i = 0; i < 8 * words; i += i + 80 < n && n > 9000 ? 13 : 1) sym_assert(q[i] == (i < n ? 'a' + i % 23 : 0), "a large string differs"); } else for (long i = (long)p->w[4] >= 0 && (p->kind == V_VEC || p->kind == V_REC) ? compare(REC_SEL(d, 0), p->w[4]), 1 : 0; i < n; i += i + 50 < n && n > 2000 ? 7 : 1) sym_assert(PTR_MLtoC(Word_t, d)[i] == (Word_t)(p->kind == V_RAW || p->kind == V_RAW64 ? i : (long)INT_CtoML(i % 11)), "a large literal differs"); }
static void step9(int i) { switch (i % 6) { case 0: i_str(9, 0); break; case 1: i_int(3, 1); break; case 2: i_raw(V_RAW64, 2, 1); break; case 3: i_int(2, 0); break; case 4: i_agg(V_REC, 2, 0); break; default: i_raw(V_RAW, 2, 0); } }
static void saves(int n) { for (int j = 0; j < n; j++) { b1(0x44); b1(2); } }
/* a collection before or within any of the instructions */
void entry_collect(void) { cc_init(); start(20, 3); int k = sym_choose(BOUND(3, 6)), how = sym_choose(2), kind = sym_choose(4), pad = kind ? 1 + BOUND(4, 3) * sym_choose(BOUND(2, 3)) : 1 + sym_choose(8); i_int(3, 0);
  for (int i = 0; i < 9; i++) { if (i == pad) { if (kind == 0) saves(180); else { saves(135 + sym_choose(38)); i_big(kind == 1 ? V_RAW : kind == 2 ? V_RAW64 : V_STR, kind == 3 ? 4090 : 512); i_agg(V_REC, 2, 0); } }
    step9(i + k); if (i == 2) i_save(0, 0); if (i == 5) i_save(1, 1); if (i == 7) i_load(0, 1); if (i == 8) i_load(1, 0); }
  finish(); int gcs = msp->ml_heap->numMinorGCs; ml_val_t r = build(how, 1); if (msp->ml_heap->numMinorGCs != gcs) sym_cover("collected"); verify2(r); sym_cover("done"); }
/* deep stacks and wide save areas, with and without collections */
void entry_many(void) { cc_init(); int n = BOUND(1000, 3000), sv = sym_choose(2), how = sym_choose(2), fill = sym_choose(2); start(n, sv ? 700 : 3); i_str(9, 0); if (sv) i_save(699 - 680, 1); int i0 = nN; Word_t keep = sv ? 699 : 2;
  int v = node(V_VEC, n); N[v].w[5] = 1; N[v].w[4] = -1; for (long i = 0; i < n; i++) { b1(i % 11); if (i == 20) { b1(0x45); bn(keep, 2); } } b1(0x3a); bn(n, 4); push(v); if (sv) i_load(699 - 680, 1); b1(0x47); bn(keep, 2); int t = node(V_INT, 0); N[t].w[0] = 20 % 11; push(t); i_real(); finish();
  if (fill) for (int i = 0; i < 400; i++) { arena_t *ap = msp->ml_heap->gen[0]->arena[ARRAY_INDX]; if (AVAIL_SPACE(ap) <= msp->ml_heap->allocSzB + 5000) break; ML_AllocArrayData(msp, 520, ML_unit); }
  int gcs = msp->ml_heap->numMinorGCs; ml_val_t r = build(how, sym_choose(2)); if (msp->ml_heap->numMinorGCs != gcs) sym_cover("collected"); verify2(r); sym_cover("done"); (void)i0; }
/* objects as large as the allocation space and larger */
void entry_large(void) { cc_init(); static const long size[] = { 1600, 5000, 131000, 262000, 300000 }; int kind = sym_choose(5), pos = sym_choose(2), how = sym_choose(2); long sz = size[sym_choose(5)]; start(10, 2); i_str(9, 0); i_save(0, 0); first = S[0]; i_int(3, 1);
  static const int kd[] = { V_STR, V_RAW, V_RAW64, V_VEC, V_REC }; i_big(kd[kind], kd[kind] == V_STR ? (sz < 2000 ? 200 : sz) : kd[kind] == V_VEC || kd[kind] == V_REC ? (sz / 8 < 8000 ? sz / 8 : BOUND(900, sz > 299999 ? 34000 : 9000)) : sz / 8); i_save(1, 0); i_int(3, 0); i_load(1, 1); i_load(0, 0); i_real(); finish();
  if (sym_choose(2)) cc_fill(); int gcs = msp->ml_heap->numMinorGCs; ml_val_t r = build(how, pos); if (msp->ml_heap->numMinorGCs != gcs) sym_cover("collected"); verify2(r); sym_cover("done"); }
/* what is no literal program is refused, and an empty one is nil */
void entry_bad(void) { cc_init(); int how = sym_choose(4); if (how == 3) { nB = sym_choose(9); sym_bytes(B, nB); ml_val_t r = build(sym_choose(2), 0); sym_assert(r == ML_nil, "an empty program is not nil"); sym_cover("empty"); return; }
  start(3, 0); i_int(2, 0); b1(0xff); if (how == 0) { Unsigned32_t m = sym_bits(32); nB = 0; bn(m, 4); nB = 22; sym_assume(m != 0x20190921 && m != 0x19981022); } else if (how == 1) { Unsigned32_t m = sym_bits(32); nB = 8; bn(m, 4); nB = 22; sym_assume(m != 64); } else { static const int op[] = { 0x14, 0x16, 0x1b, 0x1c, 0x21, 0x26, 0x28, 0x2b, 0x3f }; B[16] = op[sym_choose(9)]; }
  rt_die_ok = 1; sym_cover("refused"); build(1, 0); sym_fail("a malformed literal program is accepted"); }
