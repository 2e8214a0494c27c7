#include "term.h"
#include <algorithm>
#include <cmath>
Z3_context Z; std::vector<VarInfo> gVars; u64 gTermCount = 0;
static u32 gEpoch = 1;
void newEvalEpoch() { gEpoch++; }

struct Key { TOp op; u64 k; Term *a, *b, *c; };
struct KH { size_t operator()(const Key& x) const {
  u64 h = x.op * 0x9E3779B97F4A7C15ull ^ x.k;
  auto m = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
  m((u64)x.a); m((u64)x.b); m((u64)x.c); return h; } };
struct KE { bool operator()(const Key& x, const Key& y) const { return x.op==y.op&&x.k==y.k&&x.a==y.a&&x.b==y.b&&x.c==y.c; } };
static std::unordered_map<Key, Term*, KH, KE> tab;

static inline i64 satAdd(i64 a, i64 b, bool& ov) { i64 r; ov |= __builtin_add_overflow(a, b, &r); return r; }

static void calcRange(Term* t) {
  t->lo = IMIN; t->hi = IMAX;
  Term *a = t->a, *b = t->b;
  switch (t->op) {
  case T_CONST: t->lo = t->hi = (i64)t->k; break;
  case T_ADD: { i64 l, h; if (!__builtin_add_overflow(a->lo, b->lo, &l) && !__builtin_add_overflow(a->hi, b->hi, &h)) { t->lo = l; t->hi = h; } break; }
  case T_SUB: { i64 l, h; if (!__builtin_sub_overflow(a->lo, b->hi, &l) && !__builtin_sub_overflow(a->hi, b->lo, &h)) { t->lo = l; t->hi = h; } break; }
  case T_MUL: { i64 p[4]; bool ov = false;
      ov |= __builtin_mul_overflow(a->lo, b->lo, &p[0]); ov |= __builtin_mul_overflow(a->lo, b->hi, &p[1]);
      ov |= __builtin_mul_overflow(a->hi, b->lo, &p[2]); ov |= __builtin_mul_overflow(a->hi, b->hi, &p[3]);
      if (!ov) { t->lo = *std::min_element(p, p+4); t->hi = *std::max_element(p, p+4); } break; }
  case T_UDIV: if (a->lo >= 0 && b->lo > 0) { t->lo = a->lo / b->hi; t->hi = a->hi / b->lo; }
      else if (b->op == T_CONST && b->k > 1) { t->lo = 0; t->hi = (i64)(~0ull / b->k); } break;
  case T_UREM: if (b->lo > 0) { t->lo = 0; t->hi = b->hi - 1; if (a->lo >= 0) t->hi = std::min(t->hi, a->hi); } break;
  case T_SDIV: if (a->lo >= 0 && b->lo > 0) { t->lo = a->lo / b->hi; t->hi = a->hi / b->lo; }
      else if (b->lo > 0) { t->lo = std::min<i64>(a->lo, 0); t->hi = std::max<i64>(a->hi, 0); } break;
  case T_SREM: if (b->lo > 0) { t->lo = a->lo >= 0 ? 0 : -(b->hi - 1); t->hi = a->hi <= 0 ? 0 : b->hi - 1;
        if (a->lo >= 0) t->hi = std::min(t->hi, a->hi); if (a->hi <= 0) t->lo = std::max(t->lo, a->lo); } break;
  case T_AND: if (a->lo >= 0 || b->lo >= 0) { t->lo = 0; t->hi = a->lo >= 0 && b->lo >= 0 ? std::min(a->hi, b->hi) : a->lo >= 0 ? a->hi : b->hi; } break;
  case T_OR: case T_XOR: if (a->lo >= 0 && b->lo >= 0) { u64 m = (u64)std::max(a->hi, b->hi); int w = m ? 64 - __builtin_clzll(m) : 0; t->lo = t->op==T_OR?std::max(a->lo,b->lo):0; t->hi = (i64)((1ull << w) - 1); } break;
  case T_SHL: if (b->op == T_CONST && b->k < 63 && a->lo >= 0 && a->hi <= (IMAX >> b->k)) { t->lo = a->lo << b->k; t->hi = a->hi << b->k; } break;
  case T_LSHR: if (b->op == T_CONST) { if (a->lo >= 0) { t->lo = b->k > 63 ? 0 : a->lo >> b->k; t->hi = b->k > 63 ? 0 : a->hi >> b->k; } else if (b->k > 0) { t->lo = 0; t->hi = b->k > 63 ? 0 : (i64)(~0ull >> b->k); } }
      else if (a->lo >= 0) { t->lo = 0; t->hi = a->hi; } break;
  case T_ASHR: if (b->op == T_CONST) { u64 s = std::min<u64>(b->k, 63); t->lo = a->lo >> s; t->hi = a->hi >> s; }
      else { t->lo = std::min<i64>(a->lo, 0); t->hi = std::max<i64>(a->hi, -1) ; if (a->hi>0) t->hi=a->hi; if (a->lo>=0) t->lo=0; } break;
  case T_ITE: t->lo = std::min(b->lo, t->c->lo); t->hi = std::max(b->hi, t->c->hi); break;
  case T_SEXT: { i64 m = (i64)(1ull << (t->k - 1)); t->lo = -m; t->hi = m - 1; break; }
  case T_ZEXT: t->lo = 0; t->hi = (i64)((1ull << t->k) - 1); break;
  case T_I2F: case T_FADD: case T_FSUB: case T_FMUL: case T_FDIV: case T_FSQRT: case T_F2I: break;
  default: t->lo = 0; t->hi = 1;
  }
}

// a = (x << s) + lc with lc < 2^s : the low s bits of a are known
static bool lowBits(Term* a, int& s, u64& lc) {
  lc = 0; if (a->op == T_ADD && a->b->op == T_CONST) { lc = a->b->k; a = a->a; } else if (a->op == T_OR && a->b->op == T_CONST) { lc = a->b->k; a = a->a; }
  if (a->op != T_SHL || a->b->op != T_CONST || a->b->k == 0 || a->b->k > 62) return false;
  s = (int)a->b->k; lc &= (1ull << s) - 1; return true; }
// a = (x << k) + c with c < 2^k : returns x
static Term* shiftedBy(Term* a, u64 k) {
  u64 c = 0; if ((a->op == T_ADD || a->op == T_OR) && a->b->op == T_CONST) { c = a->b->k; a = a->a; }
  if (a->op != T_SHL || a->b->op != T_CONST || a->b->k != k || k == 0 || k > 62 || c >= (1ull << k)) return nullptr;
  return a->a; }
static Term* intern(TOp op, Term* a, Term* b, Term* c, u64 k) {
  Key key{op, k, a, b, c};
  auto it = tab.find(key);
  if (it != tab.end()) return it->second;
  Term* t = new Term;
  t->op = op; t->a = a; t->b = b; t->c = c; t->k = k; t->id = (u32)++gTermCount; t->z = nullptr; t->ev = 0;
  t->vars = (a ? a->vars : 0) | (b ? b->vars : 0) | (c ? c->vars : 0);
  t->ct = false; t->ctn = 0;
  if (op == T_CONST || op == B_CONST) { t->ct = true; t->ctn = 1; }
  else if (op == T_ITE) { if (b->ct && c->ct) { t->ct = true; t->ctn = b->ctn + c->ctn; } }
  calcRange(t);
  tab.emplace(key, t);
  return t;
}

Term* tConst(u64 v) { return intern(T_CONST, 0, 0, 0, v); }
Term* bConst(bool v) { return intern(B_CONST, 0, 0, 0, v); }
Term* mkVar(int idx, i64 lo, i64 hi) {
  Term* t = intern(T_VAR, 0, 0, 0, (u64)idx);
  t->lo = lo; t->hi = hi; t->vars = 1ull << (idx & 63); return t; }

static inline double bd(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline u64 db(double d) { u64 v; memcpy(&v, &d, 8); return v; }

static u64 apply2(TOp op, u64 x, u64 y, u64 k) {
  switch (op) {
  case T_ADD: return x + y; case T_SUB: return x - y; case T_MUL: return x * y;
  case T_UDIV: return y ? x / y : ~0ull; case T_UREM: return y ? x % y : x;
  case T_SDIV: if (!y) return (i64)x < 0 ? 1 : ~0ull; if (y == ~0ull) return 0 - x; return (u64)((i64)x / (i64)y);
  case T_SREM: if (!y) return x; if (y == ~0ull) return 0; return (u64)((i64)x % (i64)y);
  case T_AND: return x & y; case T_OR: return x | y; case T_XOR: return x ^ y;
  case T_SHL: return y > 63 ? 0 : x << y; case T_LSHR: return y > 63 ? 0 : x >> y;
  case T_ASHR: return (u64)((i64)x >> (y > 63 ? 63 : y));
  case T_SEXT: return (u64)((i64)(x << (64 - k)) >> (64 - k));
  case T_ZEXT: return k >= 64 ? x : x & ((1ull << k) - 1);
  case B_EQ: return x == y; case B_ULT: return x < y; case B_ULE: return x <= y;
  case B_SLT: return (i64)x < (i64)y; case B_SLE: return (i64)x <= (i64)y;
  case B_AND: return x & y; case B_OR: return x | y; case B_NOT: return !x;
  case B_MULO: { i128 p = (i128)(i64)x * (i64)y; i128 m = (i128)1 << (k - 1); return p < -m || p >= m; }
  case T_FADD: return db(bd(x) + bd(y)); case T_FSUB: return db(bd(x) - bd(y));
  case T_FMUL: return db(bd(x) * bd(y)); case T_FDIV: return db(bd(x) / bd(y)); case T_FSQRT: return db(sqrt(bd(x)));
  case T_I2F: return db((double)(i64)x);
  case B_FLT: return bd(x) < bd(y); case B_FLE: return bd(x) <= bd(y); case B_FEQ: return bd(x) == bd(y);
  default: abort();
  }
}

Term* tNot(Term* a) {
  if (a->op == B_CONST) return bConst(!a->k);
  if (a->op == B_NOT) return a->a;
  if (a->op == B_SLT) return mk(B_SLE, a->b, a->a);
  if (a->op == B_SLE) return mk(B_SLT, a->b, a->a);
  if (a->op == B_ULT) return mk(B_ULE, a->b, a->a);
  if (a->op == B_ULE) return mk(B_ULT, a->b, a->a);
  return intern(B_NOT, a, 0, 0, 0);
}
static Term* bIte(Term* c, Term* a, Term* b) {
  if (c->op == B_CONST) return c->k ? a : b;
  if (a == b) return a;
  if (a->op == B_CONST) return a->k ? mk(B_OR, c, b) : mk(B_AND, tNot(c), b);
  if (b->op == B_CONST) return b->k ? mk(B_OR, tNot(c), a) : mk(B_AND, c, a);
  return intern(B_ITE, c, a, b, 0);
}
Term* tIte(Term* c, Term* a, Term* b) {
  if (c->op == B_CONST) return c->k ? a : b;
  if (a == b) return a;
  if (a->isBool()) return bIte(c, a, b);
  if (c->op == B_NOT) { c = c->a; std::swap(a, b); }
  if (a->op == T_ITE && a->a == c) a = a->b;
  if (b->op == T_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return intern(T_ITE, c, a, b, 0);
}
Term* tSext(int n, Term* a) {
  if (n >= 64) return a;
  i64 m = (i64)(1ull << (n - 1));
  if (a->lo >= -m && a->hi < m) return a;
  if (a->op == T_CONST) return tConst(apply2(T_SEXT, a->k, 0, n));
  if ((a->op == T_ZEXT || a->op == T_SEXT) && (int)a->k >= n) return tSext(n, a->a);
  return mk(T_SEXT, a, 0, 0, n);
}
Term* tZext(int n, Term* a) {
  if (n >= 64) return a;
  if (a->lo >= 0 && (u64)a->hi < (1ull << n)) return a;
  if (a->op == T_CONST) return tConst(apply2(T_ZEXT, a->k, 0, n));
  if ((a->op == T_ZEXT || a->op == T_SEXT) && (int)a->k >= n) return tZext(n, a->a);
  { int s; u64 lc; if (lowBits(a, s, lc) && n <= s) return tConst(lc & ((1ull << n) - 1)); }
  return mk(T_ZEXT, a, 0, 0, n);
}

// map a unary function (op with constant other side) over constant ITE trees
static Term* mapCT(Term* t, TOp op, Term* other, bool left, u64 k, std::unordered_map<Term*, Term*>& memo) {
  auto it = memo.find(t); if (it != memo.end()) return it->second;
  Term* r;
  if (t->op == T_CONST) r = left ? mk(op, t, other, 0, k) : mk(op, other, t, 0, k);
  else r = tIte(t->a, mapCT(t->b, op, other, left, k, memo), mapCT(t->c, op, other, left, k, memo));
  memo[t] = r; return r;
}

// a = d*q + r for a sum of non-negative addends that does not wrap (the intervals show it): the addends that are multiples of d go to q
static bool splitMul(Term* a, u64 d, Term*& q, Term*& r) {
  if (a->lo < 0 || d < 2) return false;
  if (a->op == T_ADD && a->a->lo >= 0 && a->b->lo >= 0) {
    Term *q1, *r1, *q2, *r2; bool x = splitMul(a->a, d, q1, r1), y = splitMul(a->b, d, q2, r2); if (!x && !y) return false;
    if (!x) { q1 = tConst(0); r1 = a->a; } if (!y) { q2 = tConst(0); r2 = a->b; }
    q = mk(T_ADD, q1, q2); r = mk(T_ADD, r1, r2); return true; }
  if (a->op == T_CONST) { if (a->k < d) return false; q = tConst(a->k / d); r = tConst(a->k % d); return true; }
  u64 c = 0; if (a->op == T_MUL && a->b->op == T_CONST) c = a->b->k; else if (a->op == T_SHL && a->b->op == T_CONST && a->b->k < 62) c = 1ull << a->b->k;
  if (c && (i64)c > 0 && c % d == 0 && a->a->lo >= 0) { q = mk(T_MUL, a->a, tConst(c / d)); r = tConst(0); return true; }
  return false; }
Term* mk(TOp op, Term* a, Term* b, Term* c, u64 k) {
  if (op == T_ITE || op == B_ITE) return tIte(a, b, c);
  if (op == B_NOT) return tNot(a);
  bool bin = b != nullptr;
  // constant folding
  if (a->isConst() && (!bin || b->isConst())) {
    u64 v = apply2(op, a->k, bin ? b->k : 0, k);
    return (op >= B_CONST && op <= B_MULO) || (op >= B_FLT && op <= B_FEQ) ? bConst(v) : tConst(v);
  }
  // push through constant ITE trees
  if (op != B_AND && op != B_OR && !a->isBool() && op < T_FADD) {
    if (a->op == T_ITE && a->ct && (!bin || b->op == T_CONST) && a->ctn <= 600) {
      std::unordered_map<Term*, Term*> m; return mapCT(a, op, b, true, k, m); }
    if (bin && b->op == T_ITE && b->ct && a->op == T_CONST && b->ctn <= 600) {
      std::unordered_map<Term*, Term*> m; return mapCT(b, op, a, false, k, m); }
  }
  switch (op) {
  case T_ADD:
    if (a->op == T_CONST) std::swap(a, b);
    if (b->op == T_CONST) {
      if (b->k == 0) return a;
      if (a->op == T_ADD && a->b->op == T_CONST) return mk(T_ADD, a->a, tConst(a->b->k + b->k));
      if (a->op == T_SUB && a->a->op == T_CONST) return mk(T_SUB, tConst(a->a->k + b->k), a->b);
    } else {
      if (a->op == T_ADD && a->b->op == T_CONST) return mk(T_ADD, mk(T_ADD, a->a, b), a->b);
      if (b->op == T_ADD && b->b->op == T_CONST) return mk(T_ADD, mk(T_ADD, a, b->a), b->b);
      if (b->op == T_SUB && b->b == a) return b->a;
      if (a->op == T_SUB && a->b == b) return a->a;
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case T_SUB:
    if (a == b) return tConst(0);
    if (b->op == T_CONST) return mk(T_ADD, a, tConst(0 - b->k));
    if (a->op == T_ADD && a->a == b) return a->b;
    if (a->op == T_ADD && a->b == b) return a->a;
    if (a->op == T_ADD && b->op == T_ADD && a->a == b->a) return mk(T_SUB, a->b, b->b);
    if (b->op == T_ADD && b->b->op == T_CONST) return mk(T_ADD, mk(T_SUB, a, b->a), tConst(0 - b->b->k));
    if (a->op == T_CONST && b->op == T_SUB && b->a->op == T_CONST) return mk(T_ADD, b->b, tConst(a->k - b->a->k));
    break;
  case T_MUL:
    if (a->op == T_CONST) std::swap(a, b);
    if (b->op == T_CONST) { if (b->k == 0) return b; if (b->k == 1) return a;
      if (__builtin_popcountll(b->k) == 1) return mk(T_SHL, a, tConst(__builtin_ctzll(b->k))); }
    else if (a->id > b->id) std::swap(a, b);
    break;
  case T_UDIV:
    if (b->op == T_CONST) { if (b->k == 1) return a; if (b->k && (b->k & (b->k - 1)) == 0) return mk(T_LSHR, a, tConst(__builtin_ctzll(b->k))); }
    if (a->lo >= 0 && b->lo > a->hi) return tConst(0);
    { Term *q, *r; if (b->op == T_CONST && splitMul(a, b->k, q, r)) return mk(T_ADD, q, mk(T_UDIV, r, b)); }
    break;
  case T_UREM:
    if (b->op == T_CONST) { if (b->k == 1) return tConst(0); if (b->k && (b->k & (b->k - 1)) == 0) return mk(T_AND, a, tConst(b->k - 1)); }
    if (a->lo >= 0 && b->lo > a->hi) return a;
    { Term *q, *r; if (b->op == T_CONST && splitMul(a, b->k, q, r)) return mk(T_UREM, r, b); }
    break;
  case T_SDIV: if (a->lo >= 0 && b->lo >= 0) return mk(T_UDIV, a, b);
    if (b->op == T_CONST && b->k == 1) return a; break;
  case T_SREM: if (a->lo >= 0 && b->lo >= 0) return mk(T_UREM, a, b);
    if (b->op == T_CONST && (b->k == 1 || b->k == ~0ull)) return tConst(0); break;
  case T_AND:
    if (a->op == T_CONST) std::swap(a, b);
    if (a == b) return a;
    if (b->op == T_CONST) {
      if (b->k == 0) return b; if (b->k == ~0ull) return a;
      if (a->op == T_AND && a->b->op == T_CONST) return mk(T_AND, a->a, tConst(a->b->k & b->k));
      { int s; u64 lc; if (lowBits(a, s, lc) && b->k < (1ull << s)) return tConst(lc & b->k); }
      if ((b->k & (b->k + 1)) == 0) return tZext(64 - __builtin_clzll(b->k), a);
    } else if (a->id > b->id) std::swap(a, b);
    break;
  case T_OR:
    if (a->op == T_CONST) std::swap(a, b);
    if (a == b) return a;
    if (b->op == T_CONST) { if (b->k == 0) return a; if (b->k == ~0ull) return b; }
    else if (a->id > b->id) std::swap(a, b);
    break;
  case T_XOR:
    if (a->op == T_CONST) std::swap(a, b);
    if (a == b) return tConst(0);
    if (b->op == T_CONST) { if (b->k == 0) return a;
      if (a->op == T_XOR && a->b->op == T_CONST) return mk(T_XOR, a->a, tConst(a->b->k ^ b->k)); }
    else if (a->id > b->id) std::swap(a, b);
    break;
  case T_SHL: if (b->op == T_CONST) { if (b->k == 0) return a; if (b->k > 63) return tConst(0);
      if (a->op == T_SHL && a->b->op == T_CONST) return mk(T_SHL, a->a, tConst(std::min<u64>(64, a->b->k + b->k))); } if (a->op==T_CONST&&a->k==0) return a; break;
  case T_LSHR: if (b->op == T_CONST) { if (b->k == 0) return a; if (b->k > 63) return tConst(0);
      if (a->lo >= 0 && (a->hi >> b->k) == 0) return tConst(0);
      if (a->op == T_LSHR && a->b->op == T_CONST) return mk(T_LSHR, a->a, tConst(std::min<u64>(64, a->b->k + b->k)));
      if (Term* x = shiftedBy(a, b->k)) return tZext(64 - (int)b->k, x); } if (a->op==T_CONST&&a->k==0) return a; break;
  case T_ASHR: if (b->op == T_CONST) { if (b->k == 0) return a; if (a->lo >= 0) return mk(T_LSHR, a, b);
      if (Term* x = shiftedBy(a, b->k)) return tSext(64 - (int)b->k, x); }
      else if (a->lo >= 0) return mk(T_LSHR, a, b); if (a->op==T_CONST&&a->k==0) return a; break;
  case B_EQ:
    if (a == b) return bConst(true);
    if (a->isBool()) { if (a->op == B_CONST) std::swap(a, b); if (b->op == B_CONST) return b->k ? a : tNot(a); break; }
    if (a->hi < b->lo || b->hi < a->lo) return bConst(false);
    if (a->op == T_CONST) std::swap(a, b);
    if (b->op == T_CONST) {
      if (a->op == T_ADD && a->b->op == T_CONST) return mk(B_EQ, a->a, tConst(b->k - a->b->k));
      if (a->op == T_SUB && a->a->op == T_CONST) return mk(B_EQ, a->b, tConst(a->a->k - b->k));
      if (a->op == T_XOR && a->b->op == T_CONST) return mk(B_EQ, a->a, tConst(b->k ^ a->b->k));
      if (a->op == T_ITE) { // prune impossible side
        Term* x = a->b; Term* y = a->c;
        if (x->op == T_CONST && x->k != b->k) return mk(B_AND, tNot(a->a), mk(B_EQ, y, b));
        if (y->op == T_CONST && y->k != b->k) return mk(B_AND, a->a, mk(B_EQ, x, b));
        if (x->op == T_CONST && x->k == b->k) return mk(B_OR, a->a, mk(B_EQ, y, b));
        if (y->op == T_CONST && y->k == b->k) return mk(B_OR, tNot(a->a), mk(B_EQ, x, b));
      }
    } else {
      if (a->op == T_ADD && b->op == T_ADD) {
        if (a->a == b->a) return mk(B_EQ, a->b, b->b);
        if (a->b == b->b) return mk(B_EQ, a->a, b->a);
      }
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case B_SLT:
    if (a == b) return bConst(false);
    if (a->hi < b->lo) return bConst(true);
    if (a->lo >= b->hi) return bConst(false);
    if (b->op == T_CONST && a->op == T_ADD && a->b->op == T_CONST) { i64 l,h,r; // no-wrap shift
      if (!__builtin_add_overflow(a->a->lo, (i64)a->b->k, &l) && !__builtin_add_overflow(a->a->hi, (i64)a->b->k, &h) && !__builtin_sub_overflow((i64)b->k, (i64)a->b->k, &r)) return mk(B_SLT, a->a, tConst(r)); }
    if (a->op == T_CONST && b->op == T_ADD && b->b->op == T_CONST) { i64 l,h,r;
      if (!__builtin_add_overflow(b->a->lo, (i64)b->b->k, &l) && !__builtin_add_overflow(b->a->hi, (i64)b->b->k, &h) && !__builtin_sub_overflow((i64)a->k, (i64)b->b->k, &r)) return mk(B_SLT, tConst(r), b->a); }
    break;
  case B_SLE:
    if (a == b) return bConst(true);
    if (a->hi <= b->lo) return bConst(true);
    if (a->lo > b->hi) return bConst(false);
    // normalise constants to strict form
    if (b->op == T_CONST && (i64)b->k != IMAX) return mk(B_SLT, a, tConst(b->k + 1));
    if (a->op == T_CONST && (i64)a->k != IMIN) return mk(B_SLT, tConst(a->k - 1), b);
    break;
  case B_ULT:
    if (a == b) return bConst(false);
    if (a->lo >= 0 && b->lo >= 0) return mk(B_SLT, a, b);
    if (a->hi < 0 && b->hi < 0) return mk(B_SLT, a, b);
    if (a->lo >= 0 && b->hi < 0) return bConst(true);
    if (a->hi < 0 && b->lo >= 0) return bConst(false);
    if (b->op == T_CONST && b->k == 0) return bConst(false);
    break;
  case B_ULE:
    if (a == b) return bConst(true);
    if (a->lo >= 0 && b->lo >= 0) return mk(B_SLE, a, b);
    if (a->hi < 0 && b->hi < 0) return mk(B_SLE, a, b);
    if (a->lo >= 0 && b->hi < 0) return bConst(true);
    if (a->hi < 0 && b->lo >= 0) return bConst(false);
    if (a->op == T_CONST && a->k == 0) return bConst(true);
    break;
  case B_AND:
    if (a->op == B_CONST) return a->k ? b : a;
    if (b->op == B_CONST) return b->k ? a : b;
    if (a == b) return a;
    if (a->op == B_NOT && a->a == b) return bConst(false);
    if (b->op == B_NOT && b->a == a) return bConst(false);
    if (a->id > b->id) std::swap(a, b);
    break;
  case B_OR:
    if (a->op == B_CONST) return a->k ? a : b;
    if (b->op == B_CONST) return b->k ? b : a;
    if (a == b) return a;
    if (a->op == B_NOT && a->a == b) return bConst(true);
    if (b->op == B_NOT && b->a == a) return bConst(true);
    if (a->id > b->id) std::swap(a, b);
    break;
  case B_MULO: {
    i64 p[4]; bool ov = false; i128 q[4] = {(i128)a->lo*b->lo,(i128)a->lo*b->hi,(i128)a->hi*b->lo,(i128)a->hi*b->hi};
    i128 m = (i128)1 << (k - 1); (void)p;
    for (int i = 0; i < 4; i++) if (q[i] < -m || q[i] >= m) ov = true;
    if (!ov) return bConst(false);
    if (a->id > b->id) std::swap(a, b);
    break; }
  default: break;
  }
  return intern(op, a, b, c, k);
}

u64 evalTerm(Term* t, const std::vector<u64>& m) {
  if (t->ev == gEpoch) return t->evv;
  u64 r;
  switch (t->op) {
  case T_CONST: case B_CONST: return t->k;
  case T_VAR: { VarInfo& v = gVars[t->k]; u64 x = t->k < m.size() ? m[t->k] : 0;
      r = v.kind == 1 ? apply2(T_SEXT, x, 0, v.width) : x + (u64)v.base; break; }
  case T_ITE: case B_ITE: r = evalTerm(t->a, m) ? evalTerm(t->b, m) : evalTerm(t->c, m); break;
  case B_AND: r = evalTerm(t->a, m) && evalTerm(t->b, m); break;
  case B_OR: r = evalTerm(t->a, m) || evalTerm(t->b, m); break;
  default: r = apply2(t->op, evalTerm(t->a, m), t->b ? evalTerm(t->b, m) : 0, t->k);
  }
  t->ev = gEpoch; t->evv = r; return r;
}

static Z3_ast keep(Z3_ast x) { Z3_inc_ref(Z, x); return x; }
static Z3_sort bvs(unsigned n) { return Z3_mk_bv_sort(Z, n); }
static Z3_ast num(u64 v, unsigned w) { return keep(Z3_mk_unsigned_int64(Z, w == 64 ? v : v & ((1ull << w) - 1), bvs(w))); }
static int ubits(Term* t) { return t->lo >= 0 ? (t->hi == 0 ? 1 : 64 - __builtin_clzll((u64)t->hi)) : 64; }
static int sbits(Term* t) { // signed width
  int w = 1; for (; w < 64; w++) { i64 m = (i64)(1ull << (w - 1)); if (t->lo >= -m && t->hi < m) break; } return w; }
static Z3_ast low(Z3_ast x, int w) { return w == 64 ? x : keep(Z3_mk_extract(Z, w - 1, 0, x)); }

static Z3_ast fp(Z3_ast x) { return keep(Z3_mk_fpa_to_fp_bv(Z, x, Z3_mk_fpa_sort_64(Z))); }

Z3_ast toZ3(Term* t) {
  if (t->z) return t->z;
  Z3_ast r = nullptr;
  Z3_ast a = t->a ? toZ3(t->a) : nullptr, b = t->b ? toZ3(t->b) : nullptr, c = t->c ? toZ3(t->c) : nullptr;
  switch (t->op) {
  case T_CONST: r = num(t->k, 64); break;
  case T_VAR: { VarInfo& v = gVars[t->k]; r = v.z;
    if (v.width < 64) r = v.kind == 1 ? keep(Z3_mk_sign_ext(Z, 64 - v.width, r)) : keep(Z3_mk_zero_ext(Z, 64 - v.width, r));
    if (v.kind == 0 && v.base) r = keep(Z3_mk_bvadd(Z, r, num((u64)v.base, 64))); break; }
  case T_ADD: r = keep(Z3_mk_bvadd(Z, a, b)); break;
  case T_SUB: r = keep(Z3_mk_bvsub(Z, a, b)); break;
  case T_MUL: {
    int w = 64; if (t->a->lo >= 0 && t->b->lo >= 0) w = std::min(64, ubits(t->a) + ubits(t->b));
    if (w < 64) r = keep(Z3_mk_zero_ext(Z, 64 - w, keep(Z3_mk_bvmul(Z, low(a, w), low(b, w)))));
    else { int s = std::min(64, sbits(t->a) + sbits(t->b));
      r = s < 64 ? keep(Z3_mk_sign_ext(Z, 64 - s, keep(Z3_mk_bvmul(Z, low(a, s), low(b, s))))) : keep(Z3_mk_bvmul(Z, a, b)); }
    break; }
  case T_UDIV: case T_UREM: {
    int w = std::max(ubits(t->a), ubits(t->b));
    Z3_ast x = low(a, w), y = low(b, w);
    r = t->op == T_UDIV ? keep(Z3_mk_bvudiv(Z, x, y)) : keep(Z3_mk_bvurem(Z, x, y));
    if (w < 64) {
      r = keep(Z3_mk_zero_ext(Z, 64 - w, r));
      if (t->b->lo <= 0 && t->op == T_UDIV) r = keep(Z3_mk_ite(Z, keep(Z3_mk_eq(Z, b, num(0, 64))), num(~0ull, 64), r));
    }
    break; }
  case T_SDIV: r = keep(Z3_mk_bvsdiv(Z, a, b)); break;
  case T_SREM: r = keep(Z3_mk_bvsrem(Z, a, b)); break;
  case T_AND: r = keep(Z3_mk_bvand(Z, a, b)); break;
  case T_OR: r = keep(Z3_mk_bvor(Z, a, b)); break;
  case T_XOR: r = keep(Z3_mk_bvxor(Z, a, b)); break;
  case T_SHL: r = keep(Z3_mk_bvshl(Z, a, b)); break;
  case T_LSHR: r = keep(Z3_mk_bvlshr(Z, a, b)); break;
  case T_ASHR: r = keep(Z3_mk_bvashr(Z, a, b)); break;
  case T_ITE: case B_ITE: r = keep(Z3_mk_ite(Z, a, b, c)); break;
  case T_SEXT: r = keep(Z3_mk_sign_ext(Z, 64 - (unsigned)t->k, keep(Z3_mk_extract(Z, (unsigned)t->k - 1, 0, a)))); break;
  case T_ZEXT: r = keep(Z3_mk_zero_ext(Z, 64 - (unsigned)t->k, keep(Z3_mk_extract(Z, (unsigned)t->k - 1, 0, a)))); break;
  case B_CONST: r = t->k ? keep(Z3_mk_true(Z)) : keep(Z3_mk_false(Z)); break;
  case B_EQ: r = keep(Z3_mk_eq(Z, a, b)); break;
  case B_ULT: r = keep(Z3_mk_bvult(Z, a, b)); break;
  case B_ULE: r = keep(Z3_mk_bvule(Z, a, b)); break;
  case B_SLT: r = keep(Z3_mk_bvslt(Z, a, b)); break;
  case B_SLE: r = keep(Z3_mk_bvsle(Z, a, b)); break;
  case B_AND: { Z3_ast v[2] = {a, b}; r = keep(Z3_mk_and(Z, 2, v)); break; }
  case B_OR: { Z3_ast v[2] = {a, b}; r = keep(Z3_mk_or(Z, 2, v)); break; }
  case B_NOT: r = keep(Z3_mk_not(Z, a)); break;
  case B_MULO: {
    unsigned w = (unsigned)t->k; Z3_ast x = low(a, w), y = low(b, w);
    Z3_ast v[2] = {keep(Z3_mk_bvmul_no_overflow(Z, x, y, true)), keep(Z3_mk_bvmul_no_underflow(Z, x, y))};
    r = keep(Z3_mk_not(Z, keep(Z3_mk_and(Z, 2, v)))); break; }
  case T_FADD: case T_FSUB: case T_FMUL: case T_FDIV: case T_FSQRT: {
    Z3_ast rm = keep(Z3_mk_fpa_rne(Z)); Z3_ast x = fp(a), y = b ? fp(b) : nullptr, q;
    switch (t->op) { case T_FADD: q = keep(Z3_mk_fpa_add(Z, rm, x, y)); break; case T_FSUB: q = keep(Z3_mk_fpa_sub(Z, rm, x, y)); break;
      case T_FMUL: q = keep(Z3_mk_fpa_mul(Z, rm, x, y)); break; case T_FDIV: q = keep(Z3_mk_fpa_div(Z, rm, x, y)); break; default: q = keep(Z3_mk_fpa_sqrt(Z, rm, x)); }
    r = keep(Z3_mk_fpa_to_ieee_bv(Z, q)); break; }
  case T_I2F: r = keep(Z3_mk_fpa_to_ieee_bv(Z, keep(Z3_mk_fpa_to_fp_signed(Z, keep(Z3_mk_fpa_rne(Z)), a, Z3_mk_fpa_sort_64(Z))))); break;
  case B_FLT: r = keep(Z3_mk_fpa_lt(Z, fp(a), fp(b))); break;
  case B_FLE: r = keep(Z3_mk_fpa_leq(Z, fp(a), fp(b))); break;
  case B_FEQ: r = keep(Z3_mk_fpa_eq(Z, fp(a), fp(b))); break;
  default: abort();
  }
  Z3_inc_ref(Z, r);
  t->z = r; return r;
}

std::string showTerm(Term* t, int d) {
  static const char* nm[] = {"const","var","+","-","*","udiv","urem","sdiv","srem","&","|","^","<<",">>u",">>s","ite","sext","zext","bool","=","<u","<=u","<","<=","and","or","not","ite","mulo","f+","f-","f*","f/","fsqrt","i2f","f<","f<=","f=","f2i"};
  if (t->op == T_CONST) return std::to_string((i64)t->k);
  if (t->op == B_CONST) return t->k ? "true" : "false";
  if (t->op == T_VAR) return gVars[t->k].name;
  if (d == 0) return "...";
  std::string s = "("; s += nm[t->op];
  if (t->op == T_SEXT || t->op == T_ZEXT || t->op == B_MULO) s += std::to_string(t->k);
  if (t->a) s += " " + showTerm(t->a, d - 1);
  if (t->b) s += " " + showTerm(t->b, d - 1);
  if (t->c) s += " " + showTerm(t->c, d - 1);
  return s + ")";
}
