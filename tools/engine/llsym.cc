// llsym: symbolic executor for LLVM bitcode (the C runtime compiled from /repo, linked with a harness).
#include "term.h"
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <cmath>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <stdexcept>
#include <functional>
#include <fstream>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
using llvm::cast; using llvm::dyn_cast; using llvm::isa;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
struct PathKill {};
struct PathEnd {};
struct StopAll {};
#include "core.inc"

// ------------------------------------------------------------ values
struct Val { u64 c; Term* t; };           // integers are kept zero-extended; a symbolic i1 is a boolean term
static inline Val VC(u64 c) { return Val{c, nullptr}; }
static inline Val VT(Term* t) { if (t->op == T_CONST || t->op == B_CONST) return VC(t->k); return Val{0, t}; }
static inline Term* TM(const Val& v) { return v.t ? v.t : tConst(v.c); }
static inline Term* asInt(Term* t) { return t->isBool() ? tIte(t, tConst(1), tConst(0)) : t; }
static inline Term* TB(const Val& v) { if (!v.t) return bConst(v.c & 1); if (v.t->isBool()) return v.t; return mk(B_EQ, tZext(1, v.t), tConst(1)); }
static inline u64 maskv(u64 v, int w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static Term* tz(int w, Term* t) { return w >= 64 ? t : tZext(w, t); }
static Term* ts(int w, Term* t) { return w >= 64 ? t : tSext(w, t); }

// ------------------------------------------------------------ code
typedef int32_t Opd;                      // >= 0 register, < 0 constant ~idx
struct FnC; struct Blk;
enum IOp : u8 { I_BIN, I_ICMP, I_FCMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH, I_EXTRACT, I_INSERT, I_FBIN, I_FNEG, I_SITOFP, I_UITOFP, I_FPTOSI, I_FPEXT, I_FPTRUNC, I_FREEZE, I_RMW, I_CMPX, I_FENCE, I_BAD };
struct GepT { i64 scale; Opd idx; int w; };
struct Fld { u32 off; u8 w; u8 fp; };        // flattened aggregate field: byte offset, width in bits
struct Ins { IOp op; u16 sub; int w, w2; u32 dst; u32 nf; Opd a, b, c; u32 aoff, boff; std::vector<Opd> args; std::vector<Fld> fl; std::vector<GepT> gep; i64 goff; Blk *t1, *t2; std::vector<std::pair<u64, Blk*>> cases; llvm::Function* callee; int builtin; FnC* fnc; llvm::Instruction* I; u64 forks; u64 size; std::string* msg; std::vector<std::pair<int,u64>> byval; };
struct PhiMove { u32 dst; Opd src; };
struct Blk { std::vector<Ins> code; std::map<Blk*, std::vector<PhiMove>> phis; llvm::BasicBlock* bb; };
struct FnC { llvm::Function* F; std::string name, file; std::vector<Blk*> blks; u32 nregs; u32 nargs; std::vector<u32> argReg; bool hit, decoded, vararg; u64 forks, calls; };
static std::unique_ptr<llvm::Module> M; static const llvm::DataLayout* DL; static llvm::LLVMContext Ctx;
static std::vector<Val> consts; static std::unordered_map<const llvm::Value*, int> constIdx;
static std::unordered_map<llvm::Function*, FnC*> fnMap; static std::vector<FnC*> allFns; static std::unordered_map<u64, llvm::Function*> fnAddr; static std::unordered_map<const llvm::GlobalValue*, u64> gAddr;

// ------------------------------------------------------------ state
struct Frame { FnC* f; Blk* b; u32 i; std::vector<Val> r; std::vector<u64> allocas; u64 va; };
static std::vector<std::shared_ptr<Frame>> stk; static Frame* fr;
struct BCell { Term* b[8]; };
struct Cell { u64 c; Term* t; };            // t: null concrete, low bit set: BCell, otherwise a word term
static inline bool isB(const Cell& c) { return (u64)c.t & 1; }
static inline BCell* BC(const Cell& c) { return (BCell*)((u64)c.t & ~1ull); }
struct Region { u64 base, size; bool alive, ro; u8 kind, fill; std::string name; std::vector<Cell*> pages; };
enum { RK_GLOBAL, RK_STACK, RK_HEAP, RK_MMAP, RK_MISC };
static std::map<u64, Region*> regs; static std::vector<Region*> regLog; static Region* lastReg;
static u64 heapNext = 0x550000000000ull, stackNext = 0x7ff000000000ull, mmapNext = 0x200000000ull;
struct TrailE { Cell* a; Cell old; bool* flag; };
static std::vector<TrailE> trail;
struct Choice { std::vector<std::shared_ptr<Frame>> stk; size_t trail, fact, pcs, vars, nreg; u64 hn, sn, mn; Term* c; bool side; std::vector<u64> model; u64 pathSteps; u64 hash; int depth; size_t grave; };
static std::vector<Choice> choices; static std::vector<Cell*> graveyard; // pages of freed regions the trail may still name
 static int tierOpt = 0; static std::set<std::string> newCov; static std::set<std::string> unsup; static u64 nUnsup; struct Wit { std::string c; std::vector<std::string> vals; }; static std::vector<Wit> wits;
static std::vector<std::string> shows;

static std::string fnLabel(FnC* f) { if (!f) return "?"; size_t q = f->file.rfind('/'); return (q == std::string::npos ? f->file : f->file.substr(q + 1)) + ":" + f->name; }
static std::string insLoc(Ins& n) { std::string s; if (n.I) if (auto& d = n.I->getDebugLoc()) s = ":" + std::to_string(d.getLine()); return s; }
static std::string where() { std::string s; int n = 0; for (int i = (int)stk.size() - 1; i >= 0 && n < 14; i--, n++) { Frame* f = stk[i].get(); u32 k = f->i; if (s.size()) s += " < "; s += fnLabel(f->f); if (k < f->b->code.size()) s += insLoc(f->b->code[k]); } return s; }
static void uniqueTop() { if (stk.empty()) { fr = nullptr; return; } if (stk.back().use_count() > 1) stk.back() = std::make_shared<Frame>(*stk.back()); fr = stk.back().get(); }

static bool decide(Term* c) {
  int r = evalRange(c); if (r >= 0) return r;
  if (now() - t0 > timeLimit) { markIncomplete("time limit"); throw StopAll(); }
  bool s = evalTerm(c, model) != 0;
  std::vector<u64> m; Term* other = s ? tNot(c) : c;
  int q = checkWith(other, m);
  if (q == 0) { learn(c, s); return s; }
  if (q < 0) { markIncomplete("solver unknown at " + where()); assertT(s ? c : tNot(c)); learn(c, s); return s; }
  nForks++; if (fr) { fr->f->forks++; }
  u64 h1 = pathHash * 0x9E3779B97F4A7C15ull + 1 + s, h2 = pathHash * 0x9E3779B97F4A7C15ull + 1 + !s; h1 ^= h1 >> 31; h2 ^= h2 >> 31;
  int nd = pathDepth + 1;
  if (shardN > 1 && nd == shardDepth) {
    bool m1 = (int)((h1 >> 7) % shardN) == shardI, m2 = (int)((h2 >> 7) % shardN) == shardI;
    if (!m1 && !m2) { nShardSkip++; throw PathKill(); }
    if (m1 != m2) { bool take = m1 ? s : !s; if (take != s) setModel(m); pathHash = m1 ? h1 : h2; pathDepth = nd; assertT(take ? c : tNot(c)); learn(c, take); return take; }
  }
  choices.push_back({stk, trail.size(), factTrail.size(), pc.size(), pathVars.size(), regLog.size(), heapNext, stackNext, mmapNext, c, !s, m, pathSteps, h2, nd, graveyard.size()});
  uniqueTop();
  pathHash = h1; pathDepth = nd;
  assertT(s ? c : tNot(c)); learn(c, s);
  return s; }
static void undoFacts(size_t n) { while (factTrail.size() > n) { FactE& f = factTrail.back(); if (f.kind == 0) facts.erase(f.t); else if (f.had) refine[f.t] = {f.lo, f.hi}; else refine.erase(f.t); factTrail.pop_back(); } }
static void freeRegion(Region* r) { regs.erase(r->base); if (choices.empty()) { for (Cell* p : r->pages) free(p); } else { for (Cell* p : r->pages) if (p) graveyard.push_back(p); } if (lastReg == r) lastReg = nullptr; delete r; }
static bool backtrack() {
  if (choices.empty()) return false;
  Choice& c = choices.back();
  while (trail.size() > c.trail) { TrailE& e = trail.back(); if (e.flag) *e.flag = e.old.c; else *e.a = e.old; trail.pop_back(); }
  while (regLog.size() > c.nreg) { freeRegion(regLog.back()); regLog.pop_back(); }
  while (graveyard.size() > c.grave) { free(graveyard.back()); graveyard.pop_back(); }
  undoFacts(c.fact); pc.resize(c.pcs); pathVars.resize(c.vars); heapNext = c.hn; stackNext = c.sn; mmapNext = c.mn; stk = std::move(c.stk); pathSteps = c.pathSteps; pathHash = c.hash; pathDepth = c.depth;
  setModel(c.model);
  Term* t = c.side ? c.c : tNot(c.c); Term* cc = c.c; bool side = c.side; choices.pop_back();
  uniqueTop(); assertT(t); learn(cc, side); return true; }

static std::map<std::string, int> varKey;
static Val freshVar(int kind, int width, i64 base, u64 maxv, i64 lo, i64 hi, bool reset = true) {
  int pos = pathVars.size(); std::string key = std::to_string(pos) + "_" + std::to_string(kind) + "_" + std::to_string(width) + "_" + std::to_string(base) + "_" + std::to_string(maxv);
  int idx; auto it = varKey.find(key);
  if (it == varKey.end()) { idx = gVars.size(); VarInfo v; v.width = width; v.base = base; v.maxv = maxv; v.kind = kind; v.name = "x" + key; v.z = Z3_mk_const(Z, Z3_mk_string_symbol(Z, v.name.c_str()), Z3_mk_bv_sort(Z, width)); Z3_inc_ref(Z, v.z); gVars.push_back(v); varKey[key] = idx; }
  else idx = it->second;
  Term* t = mkVar(idx, lo, hi); pathVars.push_back(idx); if (model.size() <= (size_t)idx) model.resize(idx + 1, 0);
  if (reset || model[idx] > maxv) model[idx] = 0; newEvalEpoch();
  return VT(t); }
static std::vector<std::string> modelVals(const std::vector<u64>& m) {
  std::vector<std::string> r; for (int v : pathVars) { VarInfo& vi = gVars[v]; u64 x = (size_t)v < m.size() ? m[v] : 0; i64 y = vi.kind == 1 ? (vi.width == 64 ? (i64)x : (i64)(x << (64 - vi.width)) >> (64 - vi.width)) : (i64)(x + (u64)vi.base); r.push_back(std::to_string(y)); } return r; }

static void violation(const std::string& msg, const std::vector<u64>& m) {
  std::vector<u64> save = model; setModel(m);
  bool known = false; for (auto& v : viols) if (v.msg == msg) known = true;
  if (!known) viols.push_back({msg, modelVals(m), where()});
  setModel(save);
  if (viols.size() >= maxViol) throw StopAll(); }
static void violate(const std::string& msg) { violation(msg, model); throw PathEnd(); }
static void assertCheck(Term* t, const std::string& msg) {
  int r = evalRange(t); if (r == 1) return;
  if (r == 0 || !evalTerm(t, model)) { violation(msg, model); throw PathEnd(); }
  std::vector<u64> m; int q = checkWith(tNot(t), m);
  if (q == 1) { violation(msg, m); assertT(t); learn(t, true); return; }
  if (q < 0) { markIncomplete("solver unknown on assertion: " + msg); return; }
  learn(t, true); }
static void assumeT(Term* t) {
  int r = evalRange(t); if (r == 1) return; if (r == 0) throw PathKill();
  if (!evalTerm(t, model)) { std::vector<u64> m; int q = checkWith(t, m); if (q == 0) throw PathKill(); if (q < 0) { markIncomplete("solver unknown on assumption"); throw PathKill(); } assertT(t); setModel(m); learn(t, true); return; }
  assertT(t); learn(t, true); }
static Val norm(Val v) { if (v.t && !v.t->isBool()) { Rng r = rangeOf(v.t, 2); if (r.lo == r.hi) return VC((u64)r.lo); } return v; }
static u64 concretise(Val v) {
  v = norm(v); if (!v.t) return v.c;
  if (v.t->isBool()) return decide(v.t);
  Term* t = v.t;
  for (int i = 0; i < 100000; i++) { u64 x = evalTerm(t, model); if (decide(mk(B_EQ, t, tConst(x)))) return x; }
  throw Unsupported("concretise loop"); }

// ------------------------------------------------------------ memory
static const u32 PGC = 64;                  // cells per page
static u64 fillWord(Region* r, u64 idx) { if (r->fill == 0) return 0; return 0xE5E5E5E5E5E5E5E5ull; }
static Region* newRegion(u64 base, u64 size, int kind, int fill, const std::string& name) {
  Region* r = new Region; r->base = base; r->size = size; r->alive = true; r->ro = false; r->kind = kind; r->fill = fill; r->name = name; r->pages.resize((size + 7) / 8 / PGC + 1, nullptr);
  regs[base] = r; regLog.push_back(r); return r; }
static inline Cell* cellAt(Region* r, u64 idx) { Cell*& p = r->pages[idx / PGC]; if (!p) { p = (Cell*)malloc(sizeof(Cell) * PGC); u64 b = idx / PGC * PGC; for (u32 i = 0; i < PGC; i++) p[i] = Cell{fillWord(r, b + i), nullptr}; } return p + idx % PGC; }
static inline void setCell(Cell* c, u64 v, Term* t) { if (!choices.empty()) trail.push_back({c, *c, nullptr}); c->c = v; c->t = t; }
static Region* findRegion(u64 a) {
  if (lastReg && a - lastReg->base < lastReg->size) return lastReg;
  auto it = regs.upper_bound(a); if (it == regs.begin()) return nullptr; --it; Region* r = it->second;
  if (a - r->base <= r->size) { if (a - r->base < r->size) lastReg = r; return r; } return nullptr; }
static std::string nearby(u64 a) { char b[160]; auto it = regs.upper_bound(a); if (it == regs.begin()) { snprintf(b, 160, "address %#llx", (unsigned long long)a); return b; } --it; Region* r = it->second;
  if (a - r->base > r->size + 4096) snprintf(b, 160, a < 4096 ? "null pointer" : "wild address"); else snprintf(b, 160, "offset %lld of %s (%llu bytes)%s", (long long)(a - r->base), r->name.c_str(), (unsigned long long)r->size, r->alive ? "" : ", freed"); return b; }
static Region* access(u64 a, u64 n, bool wr) {
  Region* r = findRegion(a);
  if (!r || a - r->base + n > r->size || !r->alive || (wr && r->ro)) violate(std::string("memory-safety: ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + (a < 65536 ? "a null pointer" : nearby(a)) + (r && r->ro && wr ? " (read-only)" : "") + " in " + (fr ? fnLabel(fr->f) : "?"));
  return r; }
static Term* byteOf(Term* t, int i) { return tZext(8, i ? mk(T_LSHR, t, tConst(8 * i)) : t); }
static Term* cellByte(const Cell& c, int i) { if (!c.t) return tConst((c.c >> (8 * i)) & 255); if (isB(c)) return BC(c)->b[i]; return byteOf(c.t, i); }
// is t == byte k of some word term? returns the word and k
static bool byteSrc(Term* t, Term*& w, int& k) { if (t->op != T_ZEXT || t->k != 8) return false; Term* a = t->a; if (a->op == T_LSHR && a->b->op == T_CONST && a->b->k % 8 == 0) { w = a->a; k = a->b->k / 8; } else { w = a; k = 0; } return true; }
static Term* joinBytes(Term** b, int n) {
  bool allc = true; u64 v = 0; for (int i = 0; i < n; i++) { if (b[i]->op != T_CONST) { allc = false; break; } v |= b[i]->k << (8 * i); } if (allc) return tConst(v);
  Term* w; int k; if (byteSrc(b[0], w, k)) { bool ok = true; for (int i = 1; i < n && ok; i++) { Term* w2; int k2; 
        if (byteSrc(b[i], w2, k2) && w2 == w && k2 == k + i) continue;
        if (b[i]->op == T_CONST && b[i]->k == 0 && w->lo >= 0 && (k + i) * 8 < 64 && ((u64)w->hi >> (8 * (k + i))) == 0) continue; ok = false; }
    if (ok) return tz(8 * n, k ? mk(T_LSHR, w, tConst(8 * k)) : w); }
  { Term* x = b[0]; bool rest0 = true; for (int i = 1; i < n; i++) if (!(b[i]->op == T_CONST && b[i]->k == 0)) rest0 = false; if (rest0) return x; }
  u64 cv = 0; Term* r = nullptr; for (int i = 0; i < n; i++) { if (b[i]->op == T_CONST) { cv |= b[i]->k << (8 * i); continue; } Term* x = i ? mk(T_SHL, b[i], tConst(8 * i)) : b[i]; r = r ? mk(T_OR, r, x) : x; }
  return cv ? mk(T_OR, r, tConst(cv)) : r; }
static Val memRead(u64 a, int n) { // n in 1..8 bytes
  Region* r = access(a, n, false); u64 off = a - r->base; u64 idx = off >> 3; int o = off & 7; Cell* c = cellAt(r, idx);
  if (o + n <= 8) {
    if (!c->t) return VC(n == 8 ? c->c : (c->c >> (8 * o)) & ((1ull << (8 * n)) - 1));
    if (n == 8 && !isB(*c)) return Val{0, c->t};
    if (!isB(*c)) return VT(tz(8 * n, o ? mk(T_LSHR, c->t, tConst(8 * o)) : c->t));
    return VT(joinBytes(BC(*c)->b + o, n)); }
  Cell* d = cellAt(r, idx + 1); Term* b[8];
  if (!c->t && !d->t) { u64 v = 0; for (int i = 0; i < n; i++) { u64 x = o + i < 8 ? (c->c >> (8 * (o + i))) & 255 : (d->c >> (8 * (o + i - 8))) & 255; v |= x << (8 * i); } return VC(v); }
  for (int i = 0; i < n; i++) b[i] = o + i < 8 ? cellByte(*c, o + i) : cellByte(*d, o + i - 8);
  return VT(joinBytes(b, n)); }
static void putBytes(Cell* c, int o, int n, Term** b) { // symbolic sub-word store
  BCell* nb = new BCell; bool allc = true; for (int i = 0; i < 8; i++) { nb->b[i] = i >= o && i < o + n ? b[i - o] : cellByte(*c, i); if (nb->b[i]->op != T_CONST) allc = false; }
  if (allc) { u64 v = 0; for (int i = 0; i < 8; i++) v |= nb->b[i]->k << (8 * i); delete nb; setCell(c, v, nullptr); return; }
  setCell(c, 0, (Term*)((u64)nb | 1)); }
static void memWriteR(Region* r, u64 a, int n, Val v) {
  u64 off = a - r->base; u64 idx = off >> 3; int o = off & 7; Cell* c = cellAt(r, idx);
  if (o + n <= 8) {
    if (n == 8) { if (v.t) setCell(c, 0, asInt(v.t)); else setCell(c, v.c, nullptr); return; }
    if (!v.t && !c->t) { u64 m = ((1ull << (8 * n)) - 1) << (8 * o); setCell(c, (c->c & ~m) | ((v.c << (8 * o)) & m), nullptr); return; }
    Term* b[8]; Term* t = asInt(TM(v)); for (int i = 0; i < n; i++) b[i] = v.t ? byteOf(t, i) : tConst((v.c >> (8 * i)) & 255);
    putBytes(c, o, n, b); return; }
  Term* t = asInt(TM(v)); Term* b[8]; for (int i = 0; i < n; i++) b[i] = v.t ? byteOf(t, i) : tConst((v.c >> (8 * i)) & 255);
  int n1 = 8 - o; putBytes(c, o, n1, b); putBytes(cellAt(r, idx + 1), 0, n - n1, b + n1); }
static void memWrite(u64 a, int n, Val v) { memWriteR(access(a, n, true), a, n, v); }
static Val readByte(Region* r, u64 a) { u64 off = a - r->base; Cell* c = cellAt(r, off >> 3); if (!c->t) return VC((c->c >> (8 * (off & 7))) & 255); return VT(cellByte(*c, off & 7)); }
static void memCopy(u64 d, u64 s, u64 n) {
  if (!n || d == s) { if (n) { access(s, n, false); access(d, n, true); } return; }
  Region* rs = access(s, n, false); Region* rd = access(d, n, true);
  bool back = d > s && d < s + n;
  if (((d ^ s) & 7) == 0 && !back) {
    while (n && (d & 7)) { memWriteR(rd, d, 1, readByte(rs, s)); d++; s++; n--; }
    while (n >= 8) { Cell* c = cellAt(rs, (s - rs->base) >> 3); Cell* e = cellAt(rd, (d - rd->base) >> 3); setCell(e, c->c, c->t); d += 8; s += 8; n -= 8; }
    while (n) { memWriteR(rd, d, 1, readByte(rs, s)); d++; s++; n--; } return; }
  if (back) for (u64 i = n; i-- > 0;) memWriteR(rd, d + i, 1, readByte(rs, s + i));
  else for (u64 i = 0; i < n; i++) memWriteR(rd, d + i, 1, readByte(rs, s + i)); }
static void memSet(u64 d, Val v, u64 n) {
  if (!n) return; Region* rd = access(d, n, true); v.c &= 255; if (v.t) v.t = tZext(8, asInt(v.t));
  while (n && (d & 7)) { memWriteR(rd, d, 1, v); d++; n--; }
  if (!v.t) { u64 w = v.c * 0x0101010101010101ull; while (n >= 8) { Cell* c = cellAt(rd, (d - rd->base) >> 3); if (c->t || c->c != w) setCell(c, w, nullptr); d += 8; n -= 8; } }
  while (n) { memWriteR(rd, d, 1, v); d++; n--; } }
// symbolic address: make sure it lies in one region, then either an ite chain or a fork per value
static Val loadSym(Term* t, int n) {
  u64 a0 = evalTerm(t, model); Region* r = findRegion(a0);
  if (!r || !r->alive || a0 - r->base + n > r->size) violate("memory-safety: read of " + std::to_string(n) + " bytes at " + (a0 < 65536 ? "a null pointer" : nearby(a0)) + " in " + fnLabel(fr->f));
  Term* in = mk(B_AND, mk(B_ULE, tConst(r->base), t), mk(B_ULE, t, tConst(r->base + r->size - n)));
  if (!decide(in)) { concretise(Val{0, t}); throw Unsupported("symbolic address"); } // the out-of-region side re-executes with another model
  Rng g = rangeOf(t); u64 lo = std::max<u64>(r->base, g.lo < 0 ? 0 : (u64)g.lo), hi = std::min<u64>(r->base + r->size - n, g.hi < 0 ? ~0ull : (u64)g.hi);
  // stride from the term: base + (x << k)
  u64 st = 1; { Term* x = t; while (x->op == T_ADD && x->b->op == T_CONST) x = x->a; if (x->op == T_SHL && x->b->op == T_CONST) st = 1ull << x->b->k; else if (x->op == T_ADD) st = 1; }
  u64 ph = a0 % st; u64 first = lo + ((ph + st - lo % st) % st); if ((hi - first) / st > 300) return memRead(concretise(Val{0, t}), n);
  Term* res = nullptr; for (u64 a = first; a <= hi; a += st) { Val v = memRead(a, n); Term* x = asInt(TM(v)); res = res ? tIte(mk(B_EQ, t, tConst(a)), x, res) : x; }
  return VT(res); }
static u64 addrOf(Val v, u64 n, bool wr) { // concretise by forking, reporting an escape from the region first
  v = norm(v); if (!v.t) return v.c;
  return concretise(v); }

// ------------------------------------------------------------ decoding
static void flatten(llvm::Type* T, u32 off, std::vector<Fld>& out) {
  if (auto* S = dyn_cast<llvm::StructType>(T)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) flatten(S->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto* A = dyn_cast<llvm::ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) flatten(A->getElementType(), off + i * es, out); return; }
  if (auto* I = dyn_cast<llvm::IntegerType>(T)) { if (I->getBitWidth() > 64) { out.push_back({off, 255, 0}); return; } out.push_back({off, (u8)I->getBitWidth(), 0}); return; }
  if (T->isPointerTy()) { out.push_back({off, 64, 0}); return; }
  if (T->isDoubleTy()) { out.push_back({off, 64, 1}); return; } if (T->isFloatTy()) { out.push_back({off, 32, 1}); return; }
  if (T->isVoidTy()) return;
  out.push_back({off, 255, 0}); }
static u64 constVal(const llvm::Constant* C);
static Val icmp(unsigned p, int w, Val a, Val b);
static int addConst(Val v) { consts.push_back(v); return ~(int)(consts.size() - 1); }
static void flatConst(const llvm::Constant* C, std::vector<u64>& out) {
  llvm::Type* T = C->getType();
  if (T->isAggregateType()) { unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements(); for (unsigned i = 0; i < n; i++) flatConst(C->getAggregateElement(i), out); return; }
  out.push_back(constVal(C)); }
static u64 constVal(const llvm::Constant* C) {
  if (auto* I = dyn_cast<llvm::ConstantInt>(C)) { if (I->getBitWidth() > 64) throw Unsupported("wide constant"); return I->getZExtValue(); }
  if (isa<llvm::ConstantPointerNull>(C) || isa<llvm::UndefValue>(C) || isa<llvm::ConstantAggregateZero>(C)) return 0;
  if (auto* F = dyn_cast<llvm::ConstantFP>(C)) return F->getValueAPF().bitcastToAPInt().getZExtValue();
  if (auto* A = dyn_cast<llvm::GlobalAlias>(C)) return constVal(A->getAliasee());
  if (auto* G = dyn_cast<llvm::GlobalValue>(C)) { auto it = gAddr.find(G); if (it == gAddr.end()) throw Unsupported("address of " + G->getName().str()); return it->second; }
  if (auto* E = dyn_cast<llvm::ConstantExpr>(C)) {
    int w = E->getType()->isIntegerTy() ? E->getType()->getIntegerBitWidth() : 64;
    switch (E->getOpcode()) {
    case llvm::Instruction::GetElementPtr: { llvm::APInt o(64, 0); auto* G = cast<llvm::GEPOperator>(E); if (!G->accumulateConstantOffset(*DL, o)) throw Unsupported("constant gep"); return constVal(cast<llvm::Constant>(G->getPointerOperand())) + o.getSExtValue(); }
    case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: case llvm::Instruction::BitCast: case llvm::Instruction::Trunc: return maskv(constVal(E->getOperand(0)), w);
    case llvm::Instruction::Add: return maskv(constVal(E->getOperand(0)) + constVal(E->getOperand(1)), w);
    case llvm::Instruction::Sub: return maskv(constVal(E->getOperand(0)) - constVal(E->getOperand(1)), w);
    case llvm::Instruction::And: return constVal(E->getOperand(0)) & constVal(E->getOperand(1));
    case llvm::Instruction::Or: return constVal(E->getOperand(0)) | constVal(E->getOperand(1));
    case llvm::Instruction::Xor: return constVal(E->getOperand(0)) ^ constVal(E->getOperand(1));
    case llvm::Instruction::Mul: return maskv(constVal(E->getOperand(0)) * constVal(E->getOperand(1)), w);
    case llvm::Instruction::ZExt: return constVal(E->getOperand(0));
    case llvm::Instruction::ICmp: { u64 a = constVal(E->getOperand(0)), b = constVal(E->getOperand(1)); auto* T = E->getOperand(0)->getType(); int ow = T->isIntegerTy() ? T->getIntegerBitWidth() : 64; return icmp(E->getPredicate(), ow, VC(a), VC(b)).c; }
    case llvm::Instruction::Select: return constVal(E->getOperand(constVal(E->getOperand(0)) ? 1 : 2));
    default: throw Unsupported(std::string("constant expression ") + E->getOpcodeName()); } }
  throw Unsupported("constant"); }
struct Dec { FnC* f; std::unordered_map<const llvm::Value*, u32> reg; std::unordered_map<const llvm::BasicBlock*, Blk*> bm; };
static Opd opd(Dec& d, const llvm::Value* v, unsigned field = 0) {
  if (auto* C = dyn_cast<llvm::Constant>(v)) {
    auto it = constIdx.find(v); int base;
    if (it == constIdx.end()) { std::vector<u64> vs; flatConst(C, vs); base = consts.size(); for (u64 x : vs) consts.push_back(VC(x)); constIdx[v] = base; } else base = it->second;
    return ~(int)(base + field); }
  auto it = d.reg.find(v); if (it == d.reg.end()) { if (isa<llvm::MetadataAsValue>(v)) return addConst(VC(0)); throw Unsupported("operand"); }
  return it->second + field; }
static int widthOf(llvm::Type* T) { if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isPointerTy() || T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; return 0; }
static std::unordered_map<std::string, int> builtinTab;
static FnC* getFn(llvm::Function* F) { auto it = fnMap.find(F); if (it != fnMap.end()) return it->second; FnC* f = new FnC(); f->F = F; f->name = F->getName().str(); f->decoded = false; f->hit = false; f->forks = f->calls = 0; f->nregs = 0; f->vararg = F->isVarArg();
  if (auto* S = F->getSubprogram()) { auto* fi = S->getFile(); std::string n = fi->getFilename().str(); if (n.empty() || n[0] != '/') n = fi->getDirectory().str() + "/" + n; char b[PATH_MAX]; f->file = realpath(n.c_str(), b) ? b : n; }
  fnMap[F] = f; allFns.push_back(f); return f; }
static llvm::Function* resolve(llvm::Function* F) { if (!F->isDeclaration()) return F; std::string n = F->getName().str(); if (auto* H = M->getFunction("H_" + n)) if (!H->isDeclaration()) return H; 
  if (n.rfind("__isoc", 0) == 0) { size_t q = n.find('_', 4); std::string b = n.substr(q + 1); for (const char* p : {"H_", "L_"}) if (auto* H = M->getFunction(p + b)) if (!H->isDeclaration()) return H; }
  if (auto* H = M->getFunction("L_" + n)) if (!H->isDeclaration()) return H; return F; }
static void decode(FnC* f) {
  f->decoded = true; Dec d; d.f = f; u32 n = 0;
  for (auto& A : f->F->args()) { d.reg[&A] = n; f->argReg.push_back(n); std::vector<Fld> fl; flatten(A.getType(), 0, fl); n += std::max<size_t>(1, fl.size()); }
  for (auto& B : *f->F) { Blk* b = new Blk; b->bb = &B; d.bm[&B] = b; f->blks.push_back(b); for (auto& I : B) if (!I.getType()->isVoidTy()) { std::vector<Fld> fl; flatten(I.getType(), 0, fl); d.reg[&I] = n; n += std::max<size_t>(1, fl.size()); } }
  f->nregs = n;
  for (auto& B : *f->F) { Blk* b = d.bm[&B];
    for (auto& P : B.phis()) { std::vector<Fld> fl; flatten(P.getType(), 0, fl); for (unsigned i = 0; i < P.getNumIncomingValues(); i++) for (size_t k = 0; k < fl.size(); k++) { auto& v = b->phis[d.bm[P.getIncomingBlock(i)]]; PhiMove m{d.reg[&P] + (u32)k, opd(d, P.getIncomingValue(i), k)}; bool dup = false; for (auto& x : v) if (x.dst == m.dst) dup = true; if (!dup) v.push_back(m); } }
    for (auto& I : B) {
      if (isa<llvm::PHINode>(I) || isa<llvm::DbgInfoIntrinsic>(I)) continue;
      Ins x{}; x.I = &I; x.dst = I.getType()->isVoidTy() ? 0 : d.reg[&I]; x.w = widthOf(I.getType()); flatten(I.getType(), 0, x.fl); x.nf = x.fl.size();
      bool wide = false; for (auto& q : x.fl) if (q.w == 255) wide = true;
      if (wide) { x.op = I_BAD; x.msg = new std::string("type of " + std::string(I.getOpcodeName())); b->code.push_back(x); continue; }
      try {
      switch (I.getOpcode()) {
      case llvm::Instruction::Add: case llvm::Instruction::Sub: case llvm::Instruction::Mul: case llvm::Instruction::UDiv: case llvm::Instruction::SDiv: case llvm::Instruction::URem: case llvm::Instruction::SRem: case llvm::Instruction::And: case llvm::Instruction::Or: case llvm::Instruction::Xor: case llvm::Instruction::Shl: case llvm::Instruction::LShr: case llvm::Instruction::AShr:
        x.op = I_BIN; x.sub = I.getOpcode(); x.a = opd(d, I.getOperand(0)); x.b = opd(d, I.getOperand(1)); break;
      case llvm::Instruction::FAdd: case llvm::Instruction::FSub: case llvm::Instruction::FMul: case llvm::Instruction::FDiv: case llvm::Instruction::FRem: x.op = I_FBIN; x.sub = I.getOpcode(); x.a = opd(d, I.getOperand(0)); x.b = opd(d, I.getOperand(1)); break;
      case llvm::Instruction::FNeg: x.op = I_FNEG; x.a = opd(d, I.getOperand(0)); break;
      case llvm::Instruction::ICmp: x.op = I_ICMP; x.sub = cast<llvm::ICmpInst>(I).getPredicate(); x.a = opd(d, I.getOperand(0)); x.b = opd(d, I.getOperand(1)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case llvm::Instruction::FCmp: x.op = I_FCMP; x.sub = cast<llvm::FCmpInst>(I).getPredicate(); x.a = opd(d, I.getOperand(0)); x.b = opd(d, I.getOperand(1)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case llvm::Instruction::Select: x.op = I_SELECT; x.c = opd(d, I.getOperand(0)); x.a = opd(d, I.getOperand(1)); x.b = opd(d, I.getOperand(2)); if (x.nf > 1) { x.args.clear(); for (u32 k = 0; k < x.nf; k++) { x.args.push_back(opd(d, I.getOperand(1), k)); x.args.push_back(opd(d, I.getOperand(2), k)); } } break;
      case llvm::Instruction::ZExt: x.op = I_ZEXT; x.a = opd(d, I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case llvm::Instruction::SExt: x.op = I_SEXT; x.a = opd(d, I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case llvm::Instruction::Trunc: case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: x.op = I_TRUNC; x.a = opd(d, I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case llvm::Instruction::BitCast: case llvm::Instruction::Freeze: case llvm::Instruction::AddrSpaceCast: x.op = I_COPY; x.a = opd(d, I.getOperand(0)); break;
      case llvm::Instruction::SIToFP: x.op = I_SITOFP; x.a = opd(d, I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case llvm::Instruction::UIToFP: x.op = I_UITOFP; x.a = opd(d, I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case llvm::Instruction::FPToSI: case llvm::Instruction::FPToUI: x.op = I_FPTOSI; x.sub = I.getOpcode() == llvm::Instruction::FPToUI; x.a = opd(d, I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case llvm::Instruction::FPExt: x.op = I_FPEXT; x.a = opd(d, I.getOperand(0)); break;
      case llvm::Instruction::FPTrunc: x.op = I_FPTRUNC; x.a = opd(d, I.getOperand(0)); break;
      case llvm::Instruction::Load: x.op = I_LOAD; x.a = opd(d, I.getOperand(0)); break;
      case llvm::Instruction::Store: { x.op = I_STORE; x.b = opd(d, I.getOperand(1)); flatten(I.getOperand(0)->getType(), 0, x.fl); for (auto& q : x.fl) if (q.w == 255) throw Unsupported("wide store"); for (size_t k = 0; k < x.fl.size(); k++) x.args.push_back(opd(d, I.getOperand(0), k)); break; }
      case llvm::Instruction::GetElementPtr: { x.op = I_GEP; auto& G = cast<llvm::GetElementPtrInst>(I); x.a = opd(d, G.getPointerOperand()); x.goff = 0;
        for (auto it = llvm::gep_type_begin(G), e = llvm::gep_type_end(G); it != e; ++it) { llvm::Value* v = it.getOperand();
          if (auto* S = it.getStructTypeOrNull()) { x.goff += DL->getStructLayout(S)->getElementOffset(cast<llvm::ConstantInt>(v)->getZExtValue()); continue; }
          u64 sz = DL->getTypeAllocSize(it.getIndexedType());
          if (auto* C = dyn_cast<llvm::ConstantInt>(v)) x.goff += (i64)sz * C->getSExtValue(); else x.gep.push_back({(i64)sz, opd(d, v), widthOf(v->getType())}); } break; }
      case llvm::Instruction::Alloca: { auto& A = cast<llvm::AllocaInst>(I); x.op = I_ALLOCA; x.size = DL->getTypeAllocSize(A.getAllocatedType()); x.a = opd(d, A.getArraySize()); x.sub = A.getAlign().value(); break; }
      case llvm::Instruction::Br: { auto& R = cast<llvm::BranchInst>(I); if (R.isUnconditional()) { x.op = I_BR; x.t1 = d.bm[R.getSuccessor(0)]; } else { x.op = I_CBR; x.a = opd(d, R.getCondition()); x.t1 = d.bm[R.getSuccessor(0)]; x.t2 = d.bm[R.getSuccessor(1)]; } break; }
      case llvm::Instruction::Switch: { auto& S = cast<llvm::SwitchInst>(I); x.op = I_SWITCH; x.a = opd(d, S.getCondition()); x.t1 = d.bm[S.getDefaultDest()]; for (auto& c : S.cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), d.bm[c.getCaseSuccessor()]}); break; }
      case llvm::Instruction::Ret: { x.op = I_RET; if (I.getNumOperands()) { std::vector<Fld> fl; flatten(I.getOperand(0)->getType(), 0, fl); for (size_t k = 0; k < fl.size(); k++) x.args.push_back(opd(d, I.getOperand(0), k)); } break; }
      case llvm::Instruction::Unreachable: x.op = I_UNREACH; break;
      case llvm::Instruction::ExtractValue: case llvm::Instruction::InsertValue: {
        bool ex = I.getOpcode() == llvm::Instruction::ExtractValue; auto idx = ex ? cast<llvm::ExtractValueInst>(I).getIndices() : cast<llvm::InsertValueInst>(I).getIndices();
        llvm::Type* T = I.getOperand(0)->getType(); u32 base = 0; for (unsigned ix : idx) { for (unsigned k = 0; k < ix; k++) { std::vector<Fld> q; flatten(T->isStructTy() ? T->getStructElementType(k) : T->getArrayElementType(), 0, q); base += q.size(); } T = T->isStructTy() ? T->getStructElementType(ix) : T->getArrayElementType(); }
        std::vector<Fld> q; flatten(T, 0, q);
        if (ex) { x.op = I_EXTRACT; for (size_t k = 0; k < q.size(); k++) x.args.push_back(opd(d, I.getOperand(0), base + k)); }
        else { x.op = I_EXTRACT; for (u32 k = 0; k < x.nf; k++) x.args.push_back(k >= base && k < base + q.size() ? opd(d, I.getOperand(1), k - base) : opd(d, I.getOperand(0), k)); } break; }
      case llvm::Instruction::AtomicRMW: { auto& A = cast<llvm::AtomicRMWInst>(I); x.op = I_RMW; x.sub = A.getOperation(); x.a = opd(d, A.getPointerOperand()); x.b = opd(d, A.getValOperand()); break; }
      case llvm::Instruction::AtomicCmpXchg: { auto& A = cast<llvm::AtomicCmpXchgInst>(I); x.op = I_CMPX; x.a = opd(d, A.getPointerOperand()); x.b = opd(d, A.getCompareOperand()); x.c = opd(d, A.getNewValOperand()); break; }
      case llvm::Instruction::Fence: x.op = I_FENCE; break;
      case llvm::Instruction::Call: { auto& C = cast<llvm::CallInst>(I); x.op = I_CALL; x.callee = nullptr; x.builtin = -1; x.fnc = nullptr;
        if (C.isInlineAsm()) { auto* A = cast<llvm::InlineAsm>(C.getCalledOperand()); if (A->getAsmString().empty()) { x.op = I_FENCE; break; } throw Unsupported("inline assembly " + A->getAsmString()); }
        unsigned na = 0; for (auto& U : C.args()) { llvm::Value* v = U.get(); std::vector<Fld> fl; flatten(v->getType(), 0, fl); if (C.isByValArgument(na)) x.byval.push_back({(int)x.args.size(), DL->getTypeAllocSize(C.getParamByValType(na))}); for (size_t k = 0; k < std::max<size_t>(1, fl.size()); k++) x.args.push_back(v->getType()->isMetadataTy() ? addConst(VC(0)) : opd(d, v, k)); na++; }
        x.nf = x.fl.size();
        llvm::Value* cv = C.getCalledOperand()->stripPointerCasts();
        if (auto* A = dyn_cast<llvm::GlobalAlias>(cv)) cv = const_cast<llvm::GlobalObject*>(A->getAliaseeObject());
        if (auto* F = dyn_cast<llvm::Function>(cv)) { F = resolve(F); x.callee = F; if (!F->isDeclaration()) x.fnc = getFn(F); else { std::string nm = F->getName().str(); if (F->isIntrinsic()) { nm = llvm::Intrinsic::getBaseName(F->getIntrinsicID()).str(); } auto it = builtinTab.find(nm); if (it != builtinTab.end()) x.builtin = it->second; } }
        else x.a = opd(d, C.getCalledOperand());
        break; }
      default: throw Unsupported(std::string("instruction ") + I.getOpcodeName());
      } } catch (Unsupported& e) { x.op = I_BAD; x.msg = new std::string(e.what()); }
      b->code.push_back(std::move(x)); } } }

static inline Val R(Opd o) { return o >= 0 ? fr->r[o] : consts[~o]; }
static Val binop(unsigned op, int w, Val a, Val b) {
  if (!a.t && !b.t) {
    u64 x = a.c, y = b.c;
    switch (op) {
    case llvm::Instruction::Add: return VC(maskv(x + y, w)); case llvm::Instruction::Sub: return VC(maskv(x - y, w)); case llvm::Instruction::Mul: return VC(maskv(x * y, w));
    case llvm::Instruction::UDiv: if (!y) violate("division by zero in " + fnLabel(fr->f)); return VC(x / y); case llvm::Instruction::URem: if (!y) violate("division by zero in " + fnLabel(fr->f)); return VC(x % y);
    case llvm::Instruction::SDiv: { i64 p = sx(x, w), q = sx(y, w); if (!q) violate("division by zero in " + fnLabel(fr->f)); if (q == -1) return VC(maskv(0 - (u64)p, w)); return VC(maskv(p / q, w)); }
    case llvm::Instruction::SRem: { i64 p = sx(x, w), q = sx(y, w); if (!q) violate("division by zero in " + fnLabel(fr->f)); if (q == -1) return VC(0); return VC(maskv(p % q, w)); }
    case llvm::Instruction::And: return VC(x & y); case llvm::Instruction::Or: return VC(x | y); case llvm::Instruction::Xor: return VC(x ^ y);
    case llvm::Instruction::Shl: return VC(y >= (u64)w ? 0 : maskv(x << y, w)); case llvm::Instruction::LShr: return VC(y >= (u64)w ? 0 : x >> y); case llvm::Instruction::AShr: return VC(maskv(sx(x, w) >> (y >= (u64)w ? w - 1 : y), w)); }
    throw Unsupported("binop"); }
  if (w == 1) { Term *x = TB(a), *y = TB(b); switch (op) { case llvm::Instruction::And: return VT(mk(B_AND, x, y)); case llvm::Instruction::Or: return VT(mk(B_OR, x, y)); case llvm::Instruction::Xor: case llvm::Instruction::Add: case llvm::Instruction::Sub: { Term* e = mk(B_OR, mk(B_AND, x, tNot(y)), mk(B_AND, tNot(x), y)); if (y->op == B_CONST) e = y->k ? tNot(x) : x; else if (x->op == B_CONST) e = x->k ? tNot(y) : y; return VT(e); } default: throw Unsupported("i1 op"); } }
  Term *x = asInt(TM(a)), *y = asInt(TM(b));
  switch (op) {
  case llvm::Instruction::Add: return VT(tz(w, mk(T_ADD, x, y))); case llvm::Instruction::Sub: return VT(tz(w, mk(T_SUB, x, y))); case llvm::Instruction::Mul: return VT(tz(w, mk(T_MUL, x, y)));
  case llvm::Instruction::UDiv: case llvm::Instruction::URem: case llvm::Instruction::SDiv: case llvm::Instruction::SRem: {
    if (decide(mk(B_EQ, y, tConst(0)))) violate("division by zero in " + fnLabel(fr->f));
    if (op == llvm::Instruction::UDiv) return VT(mk(T_UDIV, x, y)); if (op == llvm::Instruction::URem) return VT(mk(T_UREM, x, y));
    return VT(tz(w, mk(op == llvm::Instruction::SDiv ? T_SDIV : T_SREM, ts(w, x), ts(w, y)))); }
  case llvm::Instruction::And: return VT(mk(T_AND, x, y)); case llvm::Instruction::Or: return VT(mk(T_OR, x, y)); case llvm::Instruction::Xor: return VT(mk(T_XOR, x, y));
  case llvm::Instruction::Shl: return VT(tz(w, mk(T_SHL, x, y))); case llvm::Instruction::LShr: return VT(mk(T_LSHR, x, y)); case llvm::Instruction::AShr: return VT(tz(w, mk(T_ASHR, ts(w, x), y))); }
  throw Unsupported("binop"); }
static Val icmp(unsigned p, int w, Val a, Val b) {
  using P = llvm::CmpInst;
  if (!a.t && !b.t) { u64 x = a.c, y = b.c; i64 s = sx(x, w), t = sx(y, w);
    switch (p) { case P::ICMP_EQ: return VC(x == y); case P::ICMP_NE: return VC(x != y); case P::ICMP_UGT: return VC(x > y); case P::ICMP_UGE: return VC(x >= y); case P::ICMP_ULT: return VC(x < y); case P::ICMP_ULE: return VC(x <= y); case P::ICMP_SGT: return VC(s > t); case P::ICMP_SGE: return VC(s >= t); case P::ICMP_SLT: return VC(s < t); default: return VC(s <= t); } }
  if (w == 1 && (p == P::ICMP_EQ || p == P::ICMP_NE)) { Term* e = mk(B_EQ, TB(a), TB(b)); return VT(p == P::ICMP_EQ ? e : tNot(e)); }
  Term *x = asInt(TM(a)), *y = asInt(TM(b));
  switch (p) { case P::ICMP_EQ: return VT(mk(B_EQ, x, y)); case P::ICMP_NE: return VT(tNot(mk(B_EQ, x, y))); case P::ICMP_UGT: return VT(mk(B_ULT, y, x)); case P::ICMP_UGE: return VT(mk(B_ULE, y, x)); case P::ICMP_ULT: return VT(mk(B_ULT, x, y)); case P::ICMP_ULE: return VT(mk(B_ULE, x, y)); }
  x = ts(w, x); y = ts(w, y);
  switch (p) { case P::ICMP_SGT: return VT(mk(B_SLT, y, x)); case P::ICMP_SGE: return VT(mk(B_SLE, y, x)); case P::ICMP_SLT: return VT(mk(B_SLT, x, y)); default: return VT(mk(B_SLE, x, y)); } }
static double DB(u64 v) { double d; memcpy(&d, &v, 8); return d; } static u64 BD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static double FV(u64 v, int w) { if (w == 32) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; } return DB(v); } static u64 VF(double d, int w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } return BD(d); }

static bool running; static i64 exitVal;
static void enterBlk(Blk* to) {
  Blk* from = fr->b;
  if (!to->phis.empty()) { auto it = to->phis.find(from); if (it != to->phis.end()) { auto& v = it->second; if (v.size() == 1) fr->r[v[0].dst] = R(v[0].src); else { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (v.size() > 64) { big.resize(v.size()); t = big.data(); } for (size_t i = 0; i < v.size(); i++) t[i] = R(v[i].src); for (size_t i = 0; i < v.size(); i++) fr->r[v[i].dst] = t[i]; } } }
  fr->b = to; fr->i = 0; }
static u64 allocStack(u64 sz, u64 al, const std::string& nm) { stackNext = (stackNext + std::max<u64>(al, 16) - 1) & ~(std::max<u64>(al, 16) - 1); u64 a = stackNext; stackNext += ((sz + 15) & ~15ull) + 32; newRegion(a, sz, RK_STACK, 1, nm); return a; }
static void killRegion(u64 a) { auto it = regs.find(a); if (it == regs.end()) return; Region* r = it->second;
  if (regLog.back() == r && (choices.empty() || regLog.size() > choices.back().nreg)) { regLog.pop_back(); if (r->kind == RK_STACK) stackNext = r->base; freeRegion(r); return; }
  if (!choices.empty()) { TrailE e; e.a = nullptr; e.flag = &r->alive; e.old.c = r->alive; trail.push_back(e); } r->alive = false; }
static void pushCall(FnC* f, const std::vector<Val>& args) {
  if (!f->decoded) decode(f); f->hit = true; f->calls++;
  if (stk.size() > 3000) violate("stack overflow: unbounded recursion in " + fnLabel(f));
  auto n = std::make_shared<Frame>(); n->f = f; n->b = f->blks[0]; n->i = 0; n->r.resize(f->nregs, VC(0)); n->va = 0;
  size_t na = 0; for (auto& A : f->F->args()) { (void)A; na++; } size_t k = 0; u32 lim = f->argReg.empty() ? 0 : 0; 
  // flattened argument registers are consecutive from 0
  u32 tot = 0; for (auto& A : f->F->args()) { std::vector<Fld> fl; flatten(A.getType(), 0, fl); tot += std::max<size_t>(1, fl.size()); }
  for (u32 i = 0; i < tot && i < args.size(); i++) n->r[i] = args[i];
  if (f->vararg) { u64 cnt = args.size() > tot ? args.size() - tot : 0; u64 a = allocStack(8 * (cnt + 1), 16, "variadic arguments"); n->allocas.push_back(a); Region* r = findRegion(a); for (u64 i = 0; i < cnt; i++) memWriteR(r, a + 8 * i, 8, args[tot + i]); n->va = a; }
  stk.push_back(n); fr = n.get(); }
static void doRet(const std::vector<Val>& rv) {
  for (size_t i = fr->allocas.size(); i-- > 0;) killRegion(fr->allocas[i]);
  stk.pop_back(); if (stk.empty()) { fr = nullptr; running = false; exitVal = rv.empty() ? 0 : (i64)rv[0].c; return; }
  uniqueTop(); Ins& c = fr->b->code[fr->i]; for (size_t i = 0; i < rv.size() && i < c.nf; i++) fr->r[c.dst + i] = rv[i]; fr->i++; }
static std::string cstr(u64 a) { std::string s; for (int i = 0; i < 4096; i++) { Val v = memRead(a + i, 1); u64 c = v.t ? evalTerm(v.t, model) : v.c; if (!c) break; s += (char)c; } return s; }

#include "llbuiltins.inc"

static void step() {
  Ins& n = fr->b->code[fr->i];
  switch (n.op) {
  case I_BIN: fr->r[n.dst] = binop(n.sub, n.w, R(n.a), R(n.b)); fr->i++; return;
  case I_ICMP: fr->r[n.dst] = icmp(n.sub, n.w2, R(n.a), R(n.b)); fr->i++; return;
  case I_SELECT: { Val c = R(n.c); if (!c.t) { if (n.nf > 1) { for (u32 k = 0; k < n.nf; k++) fr->r[n.dst + k] = R(n.args[2 * k + !(c.c & 1)]); } else fr->r[n.dst] = (c.c & 1) ? R(n.a) : R(n.b); fr->i++; return; }
    Term* b = TB(c); int q = evalRange(b); if (q >= 0) { if (n.nf > 1) { for (u32 k = 0; k < n.nf; k++) fr->r[n.dst + k] = R(n.args[2 * k + !q]); } else fr->r[n.dst] = q ? R(n.a) : R(n.b); fr->i++; return; }
    if (n.nf > 1) throw Unsupported("aggregate select");
    Val x = R(n.a), y = R(n.b); if (n.w == 1) fr->r[n.dst] = VT(tIte(b, TB(x), TB(y))); else fr->r[n.dst] = VT(tIte(b, asInt(TM(x)), asInt(TM(y)))); fr->i++; return; }
  case I_ZEXT: { Val a = R(n.a); fr->r[n.dst] = a.t ? VT(asInt(a.t)) : a; fr->i++; return; }
  case I_SEXT: { Val a = R(n.a); if (!a.t) fr->r[n.dst] = VC(maskv((u64)sx(a.c, n.w2), n.w)); else if (a.t->isBool()) fr->r[n.dst] = VT(tIte(a.t, tConst(maskv(~0ull, n.w)), tConst(0))); else fr->r[n.dst] = VT(tz(n.w, ts(n.w2, a.t))); fr->i++; return; }
  case I_TRUNC: { Val a = R(n.a); if (!a.t) fr->r[n.dst] = VC(maskv(a.c, n.w)); else if (n.w == 1) fr->r[n.dst] = VT(TB(a)); else fr->r[n.dst] = VT(tz(n.w, asInt(a.t))); fr->i++; return; }
  case I_COPY: { for (u32 k = 0; k < n.nf; k++) fr->r[n.dst + k] = R(n.a >= 0 ? n.a + (Opd)k : n.a - (Opd)k); fr->i++; return; }
  case I_LOAD: { Val a = norm(R(n.a));
    if (a.t && n.nf == 1) { int sz = (n.fl[0].w + 7) / 8; Val v = loadSym(asInt(a.t), sz); if (n.fl[0].w == 1) v = VT(TB(v)); fr->r[n.dst] = v; fr->i++; return; }
    u64 p = a.t ? concretise(a) : a.c;
    for (u32 k = 0; k < n.nf; k++) { Val v = memRead(p + n.fl[k].off, (n.fl[k].w + 7) / 8); if (n.fl[k].w == 1) v = v.t ? VT(TB(v)) : VC(v.c & 1); fr->r[n.dst + k] = v; } fr->i++; return; }
  case I_STORE: { Val a = norm(R(n.b)); u64 p = a.t ? addrOf(a, 1, true) : a.c; for (size_t k = 0; k < n.fl.size(); k++) memWrite(p + n.fl[k].off, (n.fl[k].w + 7) / 8, R(n.args[k])); fr->i++; return; }
  case I_GEP: { Val a = R(n.a); bool sym = a.t; for (auto& g : n.gep) if (R(g.idx).t) sym = true;
    if (!sym) { u64 v = a.c + n.goff; for (auto& g : n.gep) v += (u64)(g.scale * sx(R(g.idx).c, g.w)); fr->r[n.dst] = VC(v); }
    else { Term* t = asInt(TM(a)); for (auto& g : n.gep) { Val i = R(g.idx); Term* x = i.t ? ts(g.w, asInt(i.t)) : tConst((u64)sx(i.c, g.w)); t = mk(T_ADD, t, mk(T_MUL, x, tConst((u64)g.scale))); } fr->r[n.dst] = VT(mk(T_ADD, t, tConst((u64)n.goff))); } fr->i++; return; }
  case I_ALLOCA: { u64 c = concretise(R(n.a)); u64 a = allocStack(n.size * c, n.sub, "local " + n.I->getName().str() + " of " + fr->f->name); fr->allocas.push_back(a); fr->r[n.dst] = VC(a); fr->i++; return; }
  case I_BR: enterBlk(n.t1); return;
  case I_CBR: { Val c = R(n.a); bool b = c.t ? decide(TB(c)) : (c.c & 1); enterBlk(b ? n.t1 : n.t2); return; }
  case I_SWITCH: { Val c = norm(R(n.a)); if (!c.t) { for (auto& k : n.cases) if (k.first == c.c) { enterBlk(k.second); return; } enterBlk(n.t1); return; }
    Term* t = asInt(c.t); u64 mv = evalTerm(t, model); Blk* pref = nullptr; // try the model's case first
    for (auto& k : n.cases) if (k.first == mv) { if (decide(mk(B_EQ, t, tConst(k.first)))) { enterBlk(k.second); return; } }
    for (auto& k : n.cases) if (decide(mk(B_EQ, t, tConst(k.first)))) { enterBlk(k.second); return; } enterBlk(n.t1); return; }
  case I_RET: { std::vector<Val> rv; for (Opd o : n.args) rv.push_back(R(o)); doRet(rv); return; }
  case I_UNREACH: violate("undefined behaviour: unreachable code reached in " + fnLabel(fr->f)); return;
  case I_EXTRACT: { std::vector<Val> t; for (Opd o : n.args) t.push_back(R(o)); for (size_t k = 0; k < t.size(); k++) fr->r[n.dst + k] = t[k]; fr->i++; return; }
  case I_FENCE: fr->i++; return;
  case I_FBIN: { Val a = R(n.a), b = R(n.b); if (a.t || b.t) { if (n.w != 64) throw Unsupported("symbolic float"); Term *x = TM(a), *y = TM(b); switch (n.sub) { case llvm::Instruction::FAdd: fr->r[n.dst] = VT(mk(T_FADD, x, y)); break; case llvm::Instruction::FSub: fr->r[n.dst] = VT(mk(T_FSUB, x, y)); break; case llvm::Instruction::FMul: fr->r[n.dst] = VT(mk(T_FMUL, x, y)); break; case llvm::Instruction::FDiv: fr->r[n.dst] = VT(mk(T_FDIV, x, y)); break; default: throw Unsupported("frem"); } fr->i++; return; }
    double x = FV(a.c, n.w), y = FV(b.c, n.w), r; switch (n.sub) { case llvm::Instruction::FAdd: r = x + y; break; case llvm::Instruction::FSub: r = x - y; break; case llvm::Instruction::FMul: r = x * y; break; case llvm::Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); } fr->r[n.dst] = VC(VF(r, n.w)); fr->i++; return; }
  case I_FNEG: { Val a = R(n.a); u64 sb = 1ull << (n.w - 1); fr->r[n.dst] = a.t ? VT(mk(T_XOR, a.t, tConst(sb))) : VC(a.c ^ sb); fr->i++; return; }
  case I_FCMP: { Val a = R(n.a), b = R(n.b); using P = llvm::CmpInst; if (a.t || b.t) { if (n.w2 != 64) throw Unsupported("symbolic float"); Term *x = TM(a), *y = TM(b), *r; Term* uno = mk(B_OR, tNot(mk(B_FEQ, x, x)), tNot(mk(B_FEQ, y, y)));
      switch (n.sub) { case P::FCMP_OEQ: r = mk(B_FEQ, x, y); break; case P::FCMP_UNE: r = tNot(mk(B_FEQ, x, y)); break; case P::FCMP_OLT: r = mk(B_FLT, x, y); break; case P::FCMP_OLE: r = mk(B_FLE, x, y); break; case P::FCMP_OGT: r = mk(B_FLT, y, x); break; case P::FCMP_OGE: r = mk(B_FLE, y, x); break; case P::FCMP_UNO: r = uno; break; case P::FCMP_ORD: r = tNot(uno); break; case P::FCMP_ULT: r = tNot(mk(B_FLE, y, x)); break; case P::FCMP_ULE: r = tNot(mk(B_FLT, y, x)); break; case P::FCMP_UGT: r = tNot(mk(B_FLE, x, y)); break; case P::FCMP_UGE: r = tNot(mk(B_FLT, x, y)); break; default: throw Unsupported("fcmp"); }
      fr->r[n.dst] = VT(r); fr->i++; return; }
    double x = FV(a.c, n.w2), y = FV(b.c, n.w2); fr->r[n.dst] = VC(llvm::FCmpInst::compare(llvm::APFloat(x), llvm::APFloat(y), (llvm::FCmpInst::Predicate)n.sub)); fr->i++; return; }
  case I_SITOFP: { Val a = R(n.a); if (a.t) { if (n.w != 64) throw Unsupported("symbolic float"); fr->r[n.dst] = VT(mk(T_I2F, ts(n.w2, asInt(a.t)))); } else fr->r[n.dst] = VC(VF((double)sx(a.c, n.w2), n.w)); fr->i++; return; }
  case I_UITOFP: { Val a = R(n.a); if (a.t) { if (n.w != 64 || asInt(a.t)->lo < 0) throw Unsupported("symbolic uitofp"); fr->r[n.dst] = VT(mk(T_I2F, asInt(a.t))); } else fr->r[n.dst] = VC(VF((double)a.c, n.w)); fr->i++; return; }
  case I_FPTOSI: { Val a = R(n.a); if (a.t) throw Unsupported("symbolic fptosi"); double d = FV(a.c, n.w2); fr->r[n.dst] = VC(maskv(n.sub ? (u64)d : (u64)(i64)d, n.w)); fr->i++; return; }
  case I_FPEXT: { Val a = R(n.a); if (a.t) throw Unsupported("symbolic fpext"); fr->r[n.dst] = VC(BD(FV(a.c, 32))); fr->i++; return; }
  case I_FPTRUNC: { Val a = R(n.a); if (a.t) throw Unsupported("symbolic fptrunc"); fr->r[n.dst] = VC(VF(DB(a.c), 32)); fr->i++; return; }
  case I_RMW: { u64 p = concretise(R(n.a)); int sz = n.w / 8; Val o = memRead(p, sz), v = R(n.b), r; using A = llvm::AtomicRMWInst; switch (n.sub) { case A::Xchg: r = v; break; case A::Add: r = binop(llvm::Instruction::Add, n.w, o, v); break; case A::Sub: r = binop(llvm::Instruction::Sub, n.w, o, v); break; case A::And: r = binop(llvm::Instruction::And, n.w, o, v); break; case A::Or: r = binop(llvm::Instruction::Or, n.w, o, v); break; default: throw Unsupported("atomicrmw"); } memWrite(p, sz, r); fr->r[n.dst] = o; fr->i++; return; }
  case I_CMPX: { u64 p = concretise(R(n.a)); int w = n.fl[0].w; Val o = memRead(p, w / 8); Val e = icmp(llvm::CmpInst::ICMP_EQ, w, o, R(n.b)); bool b = e.t ? decide(TB(e)) : e.c; if (b) memWrite(p, w / 8, R(n.c)); fr->r[n.dst] = o; fr->r[n.dst + 1] = VC(b); fr->i++; return; }
  case I_CALL: {
    FnC* f = n.fnc; std::vector<Val> args; args.reserve(n.args.size()); for (Opd o : n.args) args.push_back(R(o));
    if (!n.callee) { u64 p = concretise(R(n.a)); auto it = fnAddr.find(p); if (it == fnAddr.end()) violate("memory-safety: call through a bad function pointer in " + fnLabel(fr->f)); llvm::Function* F = resolve(it->second);
      if (F->isDeclaration()) { auto b = builtinTab.find(F->getName().str()); if (b == builtinTab.end()) throw Unsupported("external function " + F->getName().str()); callBuiltin(b->second, n, args, F); return; } f = getFn(F); }
    if (f) { for (auto& bv : n.byval) { u64 sz = bv.second; u64 a = allocStack(sz, 16, "by-value argument"); fr->allocas.push_back(a); memCopy(a, args[bv.first].c, sz); args[bv.first] = VC(a); } pushCall(f, args); return; }
    if (n.builtin < 0) throw Unsupported("external function " + n.callee->getName().str());
    callBuiltin(n.builtin, n, args, n.callee); return; }
  case I_BAD: throw Unsupported(*n.msg);
  default: throw Unsupported("op"); } }

static void runLoop() {
  while (running) {
    nSteps++; if (++pathSteps > maxPathSteps) { nStepLimit++; if (stepLimitVals.empty()) { stepLimitVals = modelVals(model); if (stepLimitVals.empty()) stepLimitVals.push_back("0"); } markIncomplete("step limit at " + where()); throw PathEnd(); }
    if ((nSteps & 0xfff) == 0 && now() - t0 > timeLimit) { markIncomplete("time limit"); throw StopAll(); }
    if (trace) { Ins& n = fr->b->code[fr->i]; std::string s; llvm::raw_string_ostream os(s); n.I->print(os); fprintf(stderr, "%s: %s\n", fnLabel(fr->f).c_str(), s.c_str()); }
    step(); } }

// ------------------------------------------------------------ globals
static void initGlobal(u64 a, const llvm::Constant* C) {
  llvm::Type* T = C->getType();
  if (isa<llvm::ConstantAggregateZero>(C) || isa<llvm::UndefValue>(C) || isa<llvm::ConstantPointerNull>(C)) return;
  if (auto* D = dyn_cast<llvm::ConstantDataSequential>(C)) { u64 es = D->getElementByteSize(); for (unsigned i = 0; i < D->getNumElements(); i++) { u64 v = D->getElementType()->isFloatingPointTy() ? D->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue() : D->getElementAsInteger(i); memWrite(a + i * es, es, VC(v)); } return; }
  if (auto* S = dyn_cast<llvm::ConstantStruct>(C)) { auto* L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initGlobal(a + L->getElementOffset(i), S->getOperand(i)); return; }
  if (auto* A = dyn_cast<llvm::ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initGlobal(a + i * es, A->getOperand(i)); return; }
  u64 n = DL->getTypeStoreSize(T); if (n > 8) throw Unsupported("global initialiser"); memWrite(a, n, VC(constVal(C))); }
static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

int main(int argc, char** argv) {
  std::string file, entry, out; bool verbose = false; maxPathSteps = 4000000;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--time") timeLimit = atof(argv[++i]); else if (a == "--steps") maxPathSteps = atoll(argv[++i]); else if (a == "--paths") maxPaths = atoll(argv[++i]);
    else if (a == "--shard") { sscanf(argv[++i], "%d/%d", &shardI, &shardN); } else if (a == "--shard-depth") shardDepth = atoi(argv[++i]); else if (a == "--qtimeout") qTimeout = atoi(argv[++i]); else if (a == "--max-viol") maxViol = atoi(argv[++i]);
    else if (a == "-v") verbose = true; else if (a == "--trace") trace = true; else if (a == "--tier") tierOpt = atoi(argv[++i]); else file = a; }
  t0 = now();
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg); Z3_set_error_handler(Z, z3err);
  S = mkSolver(); std::string status = "ok", err;
  try {
    llvm::SMDiagnostic diag; M = llvm::parseIRFile(file, diag, Ctx); if (!M) throw Unsupported("cannot read " + file); DL = &M->getDataLayout();
    initBuiltins();
    u64 fa = 0x400000, ga = 0x600000;
    for (auto& F : *M) { gAddr[&F] = fa; fnAddr[fa] = &F; fa += 16; }
    for (auto& G : M->globals()) { u64 sz = DL->getTypeAllocSize(G.getValueType()); u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16); ga = (ga + al - 1) & ~(al - 1); gAddr[&G] = ga; newRegion(ga, sz, RK_GLOBAL, 0, "global " + G.getName().str()); ga += sz + 64; }
    for (auto& G : M->globals()) { if (G.hasInitializer()) { initGlobal(gAddr[&G], G.getInitializer()); if (G.isConstant()) findRegion(gAddr[&G])->ro = true; } else initExternGlobal(G.getName().str(), gAddr[&G]); }
    auto* F = M->getFunction(entry.rfind("entry_", 0) == 0 ? entry : "entry_" + entry); if (!F || F->isDeclaration()) throw Unsupported("no entry " + entry);
    if (verbose) fprintf(stderr, "loaded %zu functions in %.2fs\n", (size_t)M->size(), now() - t0);
    exploring = true; running = true; pushCall(getFn(F), {});
    for (;;) {
      newCov.clear();
      try { runLoop(); nPaths++; if (!newCov.empty()) { if (wits.size() < 8) { std::string c; for (auto& x : newCov) c += (c.empty() ? "" : ",") + x; wits.push_back({c, modelVals(model)}); } newCov.clear(); }
      } catch (PathKill&) { nKilled++; } catch (PathEnd&) { nPaths++; }
      catch (Unsupported& e) { nUnsup++; if (unsup.size() < 20) unsup.insert(std::string(e.what()) + " @ " + where()); markIncomplete(std::string("unsupported: ") + e.what() + " @ " + where()); }
      if (nPaths >= maxPaths) { markIncomplete("path limit"); break; }
      if (!backtrack()) break; running = true;
      if (now() - t0 > timeLimit) { markIncomplete("time limit"); break; } }
  } catch (StopAll&) {} catch (Unsupported& e) { status = "error"; err = e.what(); if (exploring) err += " @ " + where(); } catch (std::exception& e) { status = "error"; err = e.what(); }
  if (status == "ok") { if (!viols.empty()) status = "violation"; else if (incomplete) status = "incomplete"; }
  std::string j = "{\n \"entry\":" + jstr(entry) + ",\n \"status\":" + jstr(status) + ",\n \"error\":" + jstr(err) + ",\n \"incomplete\":" + jstr(incompleteWhy);
  auto num = [&](const char* k, double v) { char b[80]; snprintf(b, 80, ",\n \"%s\":%.15g", k, v); j += b; };
  num("paths", nPaths); num("assumed_away", nKilled); num("forks", nForks); num("queries", nQueries); num("sat", nSat); num("unsat", nUnsat); num("unknown", nUnknown); num("oneshot", nReplayQ); num("cache_hits", nCacheHit); num("solver_s", solverTime); num("max_query_s", maxQuery); num("steps", nSteps); num("step_limit_paths", nStepLimit); num("wall_s", now() - t0); num("terms", gTermCount);
  num("unsupported_paths", nUnsup); j += ",\n \"unsupported\":["; { bool c0 = true; for (auto& u : unsup) { j += (c0 ? "" : ",") + jstr(u); c0 = false; } } j += "]";
  j += ",\n \"covers\":{"; bool c1 = true; for (auto& c : covers) { j += (c1 ? "" : ",") + jstr(c.first) + ":" + std::to_string(c.second); c1 = false; } j += "}";
  auto vals = [&](const std::vector<std::string>& v) { std::string s = "["; bool c2 = true; for (auto& x : v) { s += (c2 ? "" : ",") + x; c2 = false; } return s + "]"; };
  j += ",\n \"violations\":["; c1 = true; for (auto& v : viols) { j += (c1 ? "" : ",") + std::string("{\"msg\":") + jstr(v.msg) + ",\"where\":" + jstr(v.where) + ",\"values\":" + vals(v.vals) + "}"; c1 = false; } j += "]";
  j += ",\n \"witnesses\":["; c1 = true; for (auto& v : wits) { j += (c1 ? "" : ",") + std::string("{\"cover\":") + jstr(v.c) + ",\"values\":" + vals(v.vals) + "}"; c1 = false; } j += "]";
  if (!stepLimitVals.empty()) j += ",\n \"step_limit_values\":" + vals(stepLimitVals);
  std::map<std::string, std::set<std::string>> fs; for (FnC* f : allFns) if (f->hit) fs[f->file].insert(f->name);
  j += ",\n \"functions\":{"; c1 = true; for (auto& f : fs) { j += (c1 ? "" : ",") + jstr(f.first) + ":["; bool c2 = true; for (auto& x : f.second) { j += (c2 ? "" : ",") + jstr(x); c2 = false; } j += "]"; c1 = false; } j += "}\n}\n";
  if (!out.empty()) { std::ofstream o(out); o << j; }
  if (verbose || out.empty()) { fprintf(stderr, "%s paths=%llu killed=%llu forks=%llu queries=%llu (sat %llu unsat %llu unk %llu cached %llu) solver=%.2fs max=%.2fs steps=%llu wall=%.2fs terms=%llu %s %s\n", status.c_str(), (unsigned long long)nPaths, (unsigned long long)nKilled, (unsigned long long)nForks, (unsigned long long)nQueries, (unsigned long long)nSat, (unsigned long long)nUnsat, (unsigned long long)nUnknown, (unsigned long long)nCacheHit, solverTime, maxQuery, (unsigned long long)nSteps, now() - t0, (unsigned long long)gTermCount, err.c_str(), incompleteWhy.c_str());
    for (auto& v : viols) { fprintf(stderr, "  VIOL %s  [%s] vals:", v.msg.c_str(), v.where.c_str()); for (auto& x : v.vals) fprintf(stderr, " %s", x.c_str()); fprintf(stderr, "\n"); }
    for (auto& u : unsup) fprintf(stderr, "  UNSUP %s\n", u.c_str());
    for (auto& c : covers) fprintf(stderr, "  cover %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
    if (verbose) { std::vector<FnC*> v = allFns; std::sort(v.begin(), v.end(), [](FnC* a, FnC* b) { return a->forks > b->forks; }); for (size_t i = 0; i < 12 && i < v.size() && v[i]->forks; i++) fprintf(stderr, "  forks %8llu %s\n", (unsigned long long)v[i]->forks, fnLabel(v[i]).c_str()); } }
  fflush(stderr); _exit(status == "ok" ? 0 : status == "violation" ? 1 : 2);
}
