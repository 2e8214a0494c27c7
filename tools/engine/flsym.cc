// flsym: symbolic executor for dumped FLINT programs.
#include "term.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <cmath>
#include <ctime>
#include <map>
#include <set>
#include <algorithm>
#include <stdexcept>
#include <functional>
#include <fstream>
#include <sstream>

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
struct PathKill {};
struct PathEnd {};
struct StopAll {};

// ------------------------------------------------------------ values
enum VK : u32 { V_INT, V_SYM, V_REAL, V_OBJ, V_NONE };
struct Obj;
struct Value { u64 p; VK k; u32 pad; };
enum OT : u32 { O_REC, O_CON, O_CLO, O_REF, O_ARR, O_VEC, O_STR, O_BARR, O_RARR, O_CONT, O_ISO, O_NAT, O_HDLR, O_SPECIAL, O_CFUN };
static const char* otName[] = {"REC","CON","CLO","REF","ARR","VEC","STR","BARR","RARR","CONT","ISO","NAT","HDLR","SPECIAL","CFUN"};
struct Obj { OT t; u32 len; u64 aux; Value f[1]; };
static inline Value VI(u64 x) { return Value{x, V_INT, 0}; }
static inline Value VO(Obj* o) { return Value{(u64)o, V_OBJ, 0}; }
static inline Value VR(double d) { Value v{0, V_REAL, 0}; memcpy(&v.p, &d, 8); return v; }
static inline Value VT(Term* t) { return t->op == T_CONST ? VI(t->k) : Value{(u64)t, V_SYM, 0}; }
static inline Obj* O(const Value& v) { return (Obj*)v.p; }
static inline double R(const Value& v) { double d; memcpy(&d, &v.p, 8); return d; }
static inline Term* TM(const Value& v) {
  if (v.k == V_SYM) return (Term*)v.p;
  if (v.k == V_INT || v.k == V_REAL) return tConst(v.p);
  throw Unsupported("number expected"); }

static char *arena, *arenaEnd, *ap;
static size_t arenaPeak;
static inline void* aalloc(size_t n) {
  n = (n + 15) & ~15ull; char* r = ap; ap += n;
  if (ap > arenaEnd) throw Unsupported("arena exhausted"); return r; }
static inline Obj* newObj(OT t, u32 len, u64 aux = 0) {
  Obj* o = (Obj*)aalloc(sizeof(Obj) - sizeof(Value) + (len ? len : 1) * sizeof(Value));
  o->t = t; o->len = len; o->aux = aux; return o; }

// ------------------------------------------------------------ code
enum NK : u8 { N_RET, N_LET, N_FIX, N_APP, N_TAPP, N_SWITCH, N_CON, N_REC, N_SEL, N_RAISE, N_HANDLE, N_BRANCH, N_PRIM };
enum CR : u8 { C_UNT, C_TAG, C_TRA, C_CST, C_REF, C_EXN, C_SUS, C_CONS, C_NIL };
enum PO : u8 { P_IARITH, P_PURE, P_CMP, P_FSGN, P_TESTU, P_TEST, P_TRUNC, P_EXTEND, P_COPY, P_TEST_INF, P_TRUNC_INF, P_EXTEND_INF, P_COPY_INF,
  P_FLOOR, P_ROUND, P_INT_TO_REAL, P_NUMSUB, P_NUMSUBV, P_NUMUPD, P_SUBSCRIPT, P_SUBSCRIPTV, P_PTREQL, P_PTRNEQ, P_POLYEQL, P_POLYNEQ,
  P_BOXED, P_UNBOXED, P_LENGTH, P_OBJLENGTH, P_CAST, P_GETHDLR, P_SETHDLR, P_GETVAR, P_SETVAR, P_MAKEREF, P_CALLCC, P_CAPTURE, P_THROW, P_ISOLATE,
  P_DEREF, P_ASSIGN, P_UPDATE, P_UNBOXEDUPDATE, P_GETTAG, P_MKSPECIAL, P_SETSPECIAL, P_GETSPECIAL, P_NEW_ARRAY0, P_GET_SEQ_DATA, P_SUBSCRIPT_REC,
  P_SUBSCRIPT_RAW64, P_UNBOXEDASSIGN, P_MARKEXN, P_MKETAG, P_PTR_TO_WORD, P_WORD_TO_PTR, P_REAL_TO_BITS, P_BITS_TO_REAL, P_HOST_WORD_SIZE,
  P_HOST_BIG_ENDIAN, P_UNSUP };
enum AO : u8 { A_ADD, A_SUB, A_MUL, A_DIV, A_MOD, A_QUOT, A_REM, A_NEG, A_LSHIFT, A_RSHIFT, A_RSHIFTL, A_ORB, A_XORB, A_ANDB, A_NOTB, A_FDIV, A_FABS, A_FSQRT };
enum CO : u8 { CM_GT, CM_GTE, CM_LT, CM_LTE, CM_EQL, CM_NEQ };
typedef int32_t Opr; // (idx<<2)|kind : 0 local 1 captured 2 const
struct Fn;
struct Node;
struct Arm { u8 ck; u8 cr; int tag; u64 iv; u32 bind; Node* body; Opr exnBase; std::vector<int> exnPath; Value str; };
struct Node {
  NK k; u8 po, ao, sub; char nk; u16 sz, sz2;  // primop / arith / constructor rep ; numkind
  int tag; u32 dst; u32 id; Opr* args; u32 nargs; u32* dsts; u32 ndst; Node *next, *alt;
  std::vector<Fn*>* fns; std::vector<Arm>* arms; Node* dflt; Opr exnBase; std::vector<int>* exnPath; Fn* fn; std::string* txt; u64 forks;
};
struct Fn { std::string name; int nparams; int nslots; std::vector<Opr> caps; Node* body; int unit; bool hit; u64 forks; u64 calls; };
struct Unit { std::string src, exp; struct Tree; std::vector<std::pair<std::string, std::vector<std::vector<int>>>> imports; Fn* fn; };
static std::vector<Unit> units; static std::vector<Fn*> allFns; static u32 nodeCount;
static std::vector<Value> consts;

// ------------------------------------------------------------ parser
struct Tok { const char* p; const char* e;
  std::string next() { while (p < e && (*p == ' ' || *p == '\n')) p++; const char* s = p; while (p < e && *p != ' ' && *p != '\n') p++; if (s == p) throw Unsupported("eof in dump"); return std::string(s, p - s); }
  int num() { return atoi(next().c_str()); } };
static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static std::string unhex(const std::string& s, size_t off) { std::string r; for (size_t i = off; i + 1 < s.size(); i += 2) r += (char)(hexv(s[i]) * 16 + hexv(s[i + 1])); return r; }

struct Ctx { Ctx* up; Fn* fn; std::unordered_map<int, u32> loc; std::unordered_map<int, u32> cap; };
static u32 newSlot(Ctx* c, int v) { u32 s = c->fn->nslots++; c->loc[v] = s; return s; }
static Opr lookup(Ctx* c, int v) {
  if (!c) throw Unsupported("unbound variable v" + std::to_string(v));
  auto it = c->loc.find(v); if (it != c->loc.end()) return (Opr)(it->second << 2);
  auto jt = c->cap.find(v); if (jt != c->cap.end()) return (Opr)((jt->second << 2) | 1);
  Opr up = lookup(c->up, v);
  if ((up & 3) == 2) return up;
  u32 i = c->fn->caps.size(); c->fn->caps.push_back(up); c->cap[v] = i; return (Opr)((i << 2) | 1); }
static Opr constOp(Value v) { consts.push_back(v); return (Opr)(((consts.size() - 1) << 2) | 2); }
static Value mkStr(const std::string& s) { Obj* o = newObj(O_STR, s.size()); for (size_t i = 0; i < s.size(); i++) o->f[i] = VI((u8)s[i]); return VO(o); }
static u64 canon(u64 v, int sz) { if (sz == 63) return (u64)((i64)(v << 1) >> 1); if (sz >= 64 || sz == 0) return v; return v & ((1ull << sz) - 1); }
static u64 parseNum(const std::string& s) { // decimal possibly negative, mod 2^64
  bool neg = s[0] == '-'; u64 v = 0; for (size_t i = neg; i < s.size(); i++) v = v * 10 + (s[i] - '0'); return neg ? 0 - v : v; }
static std::unordered_map<std::string, Opr> strConsts;
static Opr parseVal(Tok& t, Ctx* c) {
  std::string s = t.next();
  switch (s[0]) {
  case 'v': return lookup(c, atoi(s.c_str() + 1));
  case 'i': case 'w': { size_t q = s.find(':'); int sz = atoi(s.c_str() + 1); return constOp(VI(canon(parseNum(s.substr(q + 1)), sz))); }
  case 'r': { size_t q = s.find(':'); return constOp(VR(strtod(s.c_str() + q + 1, nullptr))); }
  case 's': { auto it = strConsts.find(s); if (it != strConsts.end()) return it->second; Opr o = constOp(mkStr(unhex(s, 1))); strConsts[s] = o; return o; }
  }
  throw Unsupported("bad value " + s); }
static void parseVals(Tok& t, Ctx* c, Node* n) { n->nargs = t.num(); n->args = new Opr[n->nargs + 1]; for (u32 i = 0; i < n->nargs; i++) n->args[i] = parseVal(t, c); }
static void parseAccess(Tok& t, Ctx* c, Opr& base, std::vector<int>& path) {
  std::vector<int> p; for (;;) { std::string s = t.next(); if (s[0] == 'P') { p.push_back(t.num()); continue; }
    if (s[0] == 'L') { base = lookup(c, atoi(s.c_str() + 1)); break; } throw Unsupported("exn access " + s); }
  path.assign(p.rbegin(), p.rend()); }
static void parseDcon(Tok& t, Ctx* c, u8& cr, int& tag, Opr& base, std::vector<int>& path, std::string* name = nullptr) {
  std::string n = t.next(); if (name) *name = unhex(n, 1); std::string s = t.next(); tag = 0;
  if (s == "UNT") cr = C_UNT; else if (s == "TAG") { cr = C_TAG; tag = t.num(); } else if (s == "TRA") cr = C_TRA;
  else if (s == "CST") { cr = C_CST; tag = t.num(); } else if (s == "REF") cr = C_REF; else if (s == "EXN") { cr = C_EXN; parseAccess(t, c, base, path); }
  else if (s == "SUS") cr = C_SUS; else if (s == "CONS") cr = C_CONS; else if (s == "NIL") cr = C_NIL; else throw Unsupported("conrep " + s); }
static std::map<std::string, PO> poTab; static std::map<std::string, AO> aoTab; static std::map<std::string, CO> coTab;
static void initTabs() {
#define PP(x) poTab[#x] = P_##x;
  PP(FSGN) PP(TESTU) PP(TEST) PP(TRUNC) PP(EXTEND) PP(COPY) PP(TEST_INF) PP(TRUNC_INF) PP(EXTEND_INF) PP(COPY_INF) PP(FLOOR) PP(ROUND) PP(INT_TO_REAL)
  PP(NUMSUB) PP(NUMSUBV) PP(NUMUPD) PP(SUBSCRIPT) PP(SUBSCRIPTV) PP(PTREQL) PP(PTRNEQ) PP(POLYEQL) PP(POLYNEQ) PP(BOXED) PP(UNBOXED) PP(LENGTH) PP(OBJLENGTH)
  PP(CAST) PP(GETHDLR) PP(SETHDLR) PP(GETVAR) PP(SETVAR) PP(MAKEREF) PP(CALLCC) PP(CAPTURE) PP(THROW) PP(ISOLATE) PP(DEREF) PP(ASSIGN) PP(UPDATE) PP(UNBOXEDUPDATE)
  PP(GETTAG) PP(MKSPECIAL) PP(SETSPECIAL) PP(GETSPECIAL) PP(NEW_ARRAY0) PP(GET_SEQ_DATA) PP(SUBSCRIPT_REC) PP(SUBSCRIPT_RAW64) PP(UNBOXEDASSIGN) PP(MARKEXN) PP(MKETAG)
  PP(PTR_TO_WORD) PP(WORD_TO_PTR) PP(REAL_TO_BITS) PP(BITS_TO_REAL) PP(HOST_WORD_SIZE) PP(HOST_BIG_ENDIAN)
  poTab["WRAP"] = P_CAST; poTab["UNWRAP"] = P_CAST; poTab["WCAST"] = P_CAST; poTab["INTERN64"] = P_UNSUP; poTab["EXTERN64"] = P_UNSUP; poTab["RAW_CCALL"] = P_UNSUP; poTab["RAW_RECORD"] = P_UNSUP;
  aoTab = {{"ADD",A_ADD},{"SUB",A_SUB},{"MUL",A_MUL},{"QUOT",A_QUOT},{"REM",A_REM},{"NEG",A_NEG},{"LSHIFT",A_LSHIFT},{"RSHIFT",A_RSHIFT},{"RSHIFTL",A_RSHIFTL},{"ORB",A_ORB},{"XORB",A_XORB},{"ANDB",A_ANDB},{"NOTB",A_NOTB},{"FDIV",A_FDIV},{"FABS",A_FABS},{"FSQRT",A_FSQRT},
    {"IADD",A_ADD},{"ISUB",A_SUB},{"IMUL",A_MUL},{"IDIV",A_DIV},{"IMOD",A_MOD},{"IQUOT",A_QUOT},{"IREM",A_REM},{"INEG",A_NEG}};
  coTab = {{"GT",CM_GT},{"GTE",CM_GTE},{"LT",CM_LT},{"LTE",CM_LTE},{"EQL",CM_EQL},{"NEQ",CM_NEQ}}; }
static void parseNK(Tok& t, Node* n) { n->nk = t.next()[0]; n->sz = t.num(); }
static void parsePrim(Tok& t, Ctx* c, Node* n) {
  std::string s = t.next(); Opr dflt = -1; (void)dflt;
  if (s == "D") { t.num(); int k = t.num(); for (int i = 0; i < k; i++) t.num(); }
  s = t.next();
  if (s == "IARITH") { n->po = P_IARITH; n->ao = aoTab.at(t.next()); n->sz = t.num(); n->nk = 'I'; }
  else if (s == "PURE") { n->po = P_PURE; n->ao = aoTab.at(t.next()); parseNK(t, n); }
  else if (s == "CMP") { n->po = P_CMP; n->ao = coTab.at(t.next()); parseNK(t, n); }
  else if (s == "RAW_LOAD" || s == "RAW_STORE" || s.substr(0, 5) == "INLNU" || s == "INL_MONOARRAY" || s == "INL_MONOVECTOR") { parseNK(t, n); n->po = P_UNSUP; n->txt = new std::string(s); }
  else {
    auto it = poTab.find(s); if (it == poTab.end()) { n->po = P_UNSUP; n->txt = new std::string(s); return; }
    n->po = it->second; if (n->po == P_UNSUP) n->txt = new std::string(s);
    switch (n->po) {
    case P_NUMSUB: case P_NUMSUBV: case P_NUMUPD: parseNK(t, n); break;
    case P_TESTU: case P_TEST: case P_TRUNC: case P_EXTEND: case P_COPY: case P_FLOOR: case P_ROUND: case P_INT_TO_REAL: n->sz = t.num(); n->sz2 = t.num(); break;
    case P_FSGN: case P_TEST_INF: case P_TRUNC_INF: case P_EXTEND_INF: case P_COPY_INF: case P_REAL_TO_BITS: case P_BITS_TO_REAL: n->sz = t.num(); break;
    default: break;
    } } }
static Node* mkNode(NK k, Ctx* c) { Node* n = new Node(); memset((void*)n, 0, sizeof(Node)); n->k = k; n->id = nodeCount++; n->fn = c ? c->fn : nullptr; return n; }
static Node* parseExp(Tok& t, Ctx* c);
static Fn* parseFnBody(Tok& t, Ctx* up, int unit, const std::string& name, const std::vector<int>& params, bool isT) {
  Fn* f = new Fn(); f->name = name; f->unit = unit; f->nparams = isT ? 0 : (int)params.size(); f->nslots = 0; f->hit = false; f->forks = f->calls = 0; allFns.push_back(f);
  Ctx c{up, f, {}, {}}; for (int p : params) newSlot(&c, p);
  f->body = parseExp(t, &c); return f; }
static int curUnit;
static Node* parseExp(Tok& t, Ctx* c) {
  Node* head = nullptr; Node** tail = &head;   // straight-line chain, iterative on `next`
  for (;;) {
    std::string s = t.next(); Node* n;
    if (s == "RET") { n = mkNode(N_RET, c); parseVals(t, c, n); *tail = n; return head; }
    if (s == "APP") { n = mkNode(N_APP, c); Opr f = parseVal(t, c); n->nargs = t.num() + 1; n->args = new Opr[n->nargs]; n->args[0] = f; for (u32 i = 1; i < n->nargs; i++) n->args[i] = parseVal(t, c); *tail = n; return head; }
    if (s == "TAPP") { n = mkNode(N_TAPP, c); n->nargs = 1; n->args = new Opr[1]; n->args[0] = parseVal(t, c); *tail = n; return head; }
    if (s == "RAISE") { n = mkNode(N_RAISE, c); n->nargs = 1; n->args = new Opr[1]; n->args[0] = parseVal(t, c); *tail = n; return head; }
    if (s == "LET") { n = mkNode(N_LET, c); n->ndst = t.num(); std::vector<int> vs; for (u32 i = 0; i < n->ndst; i++) vs.push_back(t.num());
      *tail = n; n->alt = parseExp(t, c); n->dsts = new u32[n->ndst + 1]; for (u32 i = 0; i < n->ndst; i++) n->dsts[i] = newSlot(c, vs[i]); tail = &n->next; continue; }
    if (s == "FIX") { n = mkNode(N_FIX, c); int k = t.num(); n->ndst = k; n->dsts = new u32[k + 1]; n->fns = new std::vector<Fn*>;
      // function ids must be in scope before parsing bodies: two passes over the token stream
      const char* save = t.p; std::vector<int> ids;
      // first pass: we cannot know ids without parsing; ids are allocated lazily via a scan of balanced FN headers
      // so the dump is scanned with a light skip parser
      extern void skipFn(Tok&, int&); for (int i = 0; i < k; i++) { int id; skipFn(t, id); ids.push_back(id); }
      t.p = save; for (int i = 0; i < k; i++) n->dsts[i] = newSlot(c, ids[i]);
      for (int i = 0; i < k; i++) { if (t.next() != "FN") throw Unsupported("FN expected"); t.num(); std::string nm = unhex(t.next(), 1); int np = t.num(); std::vector<int> ps; for (int j = 0; j < np; j++) ps.push_back(t.num());
        n->fns->push_back(parseFnBody(t, c, curUnit, nm, ps, false)); }
      *tail = n; tail = &n->next; continue; }
    if (s == "TFN") { n = mkNode(N_FIX, c); int id = t.num(); n->ndst = 1; n->dsts = new u32[1]; n->fns = new std::vector<Fn*>; n->fns->push_back(parseFnBody(t, c, curUnit, "tfn", {}, true)); n->dsts[0] = newSlot(c, id); *tail = n; tail = &n->next; continue; }
    if (s == "SWITCH") { n = mkNode(N_SWITCH, c); n->nargs = 1; n->args = new Opr[1]; n->args[0] = parseVal(t, c); std::string cs = t.next(); if (cs == "C") { t.num(); t.num(); }
      int k = t.num(); n->arms = new std::vector<Arm>(k); *tail = n;
      for (int i = 0; i < k; i++) { Arm& a = (*n->arms)[i]; std::string q = t.next(); a.bind = 0;
        if (q == "D") { a.ck = 'D'; parseDcon(t, c, a.cr, a.tag, a.exnBase, a.exnPath); a.bind = newSlot(c, t.num()); }
        else if (q == "I" || q == "W") { a.ck = 'I'; int sz = t.num(); a.iv = canon(parseNum(t.next()), sz); }
        else if (q == "S") { a.ck = 'S'; a.str = mkStr(unhex(t.next(), 1)); } else { a.ck = 'L'; a.iv = t.num(); }
        a.body = parseExp(t, c); }
      if (t.num()) n->dflt = parseExp(t, c); return head; }
    if (s == "CON") { n = mkNode(N_CON, c); n->exnPath = new std::vector<int>; n->txt = new std::string; parseDcon(t, c, n->sub, n->tag, n->exnBase, *n->exnPath, n->txt); n->nargs = 1; n->args = new Opr[1]; n->args[0] = parseVal(t, c); n->dst = newSlot(c, t.num()); *tail = n; tail = &n->next; continue; }
    if (s == "REC") { n = mkNode(N_REC, c); n->sub = t.next()[0]; parseVals(t, c, n); n->dst = newSlot(c, t.num()); *tail = n; tail = &n->next; continue; }
    if (s == "SEL") { n = mkNode(N_SEL, c); n->nargs = 1; n->args = new Opr[1]; n->args[0] = parseVal(t, c); n->tag = t.num(); n->dst = newSlot(c, t.num()); *tail = n; tail = &n->next; continue; }
    if (s == "HANDLE") { n = mkNode(N_HANDLE, c); *tail = n; n->next = parseExp(t, c); n->nargs = 1; n->args = new Opr[1]; n->args[0] = parseVal(t, c); return head; }
    if (s == "BRANCH") { n = mkNode(N_BRANCH, c); parsePrim(t, c, n); parseVals(t, c, n); *tail = n; n->next = parseExp(t, c); n->alt = parseExp(t, c); return head; }
    if (s == "PRIM") { n = mkNode(N_PRIM, c); parsePrim(t, c, n); parseVals(t, c, n); n->dst = newSlot(c, t.num()); *tail = n; tail = &n->next; continue; }
    throw Unsupported("bad exp token " + s);
  } }
// skipping parser (to discover the ids bound by a FIX)
static void skipVals(Tok& t) { int n = t.num(); while (n--) t.next(); }
static void skipDcon(Tok& t) { t.next(); std::string s = t.next(); if (s == "TAG" || s == "CST") t.num(); else if (s == "EXN") for (;;) { std::string q = t.next(); if (q[0] == 'P') { t.num(); continue; } break; } }
static void skipPrim(Tok& t) { Node n; n.txt = nullptr; parsePrim(t, nullptr, &n); }
void skipFn(Tok& t, int& id);
static void skipExp(Tok& t) {
  for (;;) { std::string s = t.next();
    if (s == "RET") { skipVals(t); return; } if (s == "APP") { t.next(); skipVals(t); return; } if (s == "TAPP" || s == "RAISE") { t.next(); return; }
    if (s == "LET") { int n = t.num(); while (n--) t.num(); skipExp(t); continue; }
    if (s == "FIX") { int n = t.num(), id; while (n--) skipFn(t, id); continue; }
    if (s == "TFN") { t.num(); skipExp(t); continue; }
    if (s == "SWITCH") { t.next(); if (t.next() == "C") { t.num(); t.num(); } int k = t.num(); while (k--) { std::string q = t.next(); if (q == "D") { skipDcon(t); t.num(); } else if (q == "I" || q == "W") { t.num(); t.next(); } else t.next(); skipExp(t); } if (t.num()) skipExp(t); return; }
    if (s == "CON") { skipDcon(t); t.next(); t.num(); continue; } if (s == "REC") { t.next(); skipVals(t); t.num(); continue; }
    if (s == "SEL") { t.next(); t.num(); t.num(); continue; } if (s == "HANDLE") { skipExp(t); t.next(); return; }
    if (s == "BRANCH") { skipPrim(t); skipVals(t); skipExp(t); skipExp(t); return; } if (s == "PRIM") { skipPrim(t); skipVals(t); t.num(); continue; }
    throw Unsupported("skip: " + s); } }
void skipFn(Tok& t, int& id) { if (t.next() != "FN") throw Unsupported("FN"); id = t.num(); t.next(); int n = t.num(); while (n--) t.num(); skipExp(t); }
static void readTree(Tok& t, std::vector<int>& pre, std::vector<std::vector<int>>& leaves) { int n = t.num(); if (n == 0) { leaves.push_back(pre); return; } for (int i = 0; i < n; i++) { pre.push_back(t.num()); readTree(t, pre, leaves); pre.pop_back(); } }
static void loadUnit(const std::string& file) {
  std::ifstream f(file, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
  Tok t{s.data(), s.data() + s.size()}; Unit u; t.next(); u.src = unhex(t.next(), 1); t.next(); u.exp = t.next(); t.next(); int n = t.num();
  for (int i = 0; i < n; i++) { std::string pid = t.next(); std::vector<int> pre; std::vector<std::vector<int>> lv; readTree(t, pre, lv); u.imports.push_back({pid, lv}); }
  curUnit = units.size(); t.next(); t.num(); std::string nm = unhex(t.next(), 1); int np = t.num(); std::vector<int> ps; while (np--) ps.push_back(t.num());
  u.fn = parseFnBody(t, nullptr, curUnit, "<unit>", ps, false); units.push_back(u); }

// ------------------------------------------------------------ machine state
struct Frame { Obj* clo; Value s[1]; };
enum KK : u8 { K_HALT, K_LET, K_HDL, K_INF };
struct K { KK k; bool shared; Node* n; Frame* fr; K* up; Value hd; };
struct State { Node* pc; Frame* fr; K* k; Value hdlr, var; } st;
struct TrailE { Value* a; Value old; };
static std::vector<TrailE> trail;
struct FactE { Term* t; int kind; bool had; i64 lo, hi; };   // kind 0 fact, 1 range
static std::vector<FactE> factTrail;
static std::unordered_map<Term*, bool> facts;
struct Rng { i64 lo, hi; };
static std::unordered_map<Term*, Rng> refine;
struct Choice { State st; size_t trail, fact, pcs, vars, covers; char* ap; Term* c; bool side; std::vector<u64> model; u64 pathSteps; u64 hash; int depth; };
static std::vector<Choice> choices;
static std::vector<Term*> pc;            // path condition
static std::vector<int> pathVars;
static std::vector<u64> model;
static Z3_solver S;
static bool exploring = false;
static u64 nSteps, pathSteps, nPaths, nQueries, nSat, nUnsat, nUnknown, nForks, nKilled, nMerged, nReplayQ; static double solverTime, maxQuery;
static u64 maxPathSteps = 20000000, maxPaths = ~0ull; static double timeLimit = 1e9, t0; static unsigned qTimeout = 60000, incTimeout = getenv("FLSYM_INC") ? atoi(getenv("FLSYM_INC")) : 50;
static int shardN = 1, shardI = 0, shardDepth = 8; static u64 pathHash; static int pathDepth; static u64 nShardSkip;
static std::map<std::string, u64> covers; static bool incomplete = false; static std::string incompleteWhy; static u64 nStepLimit;
struct Viol { std::string msg; std::vector<std::string> vals; std::string where; };
static std::vector<Viol> viols; static size_t maxViol = 1; static bool trace = false;
static std::vector<std::string> stepLimitVals; 
static double now() { struct timeval tv; gettimeofday(&tv, 0); return tv.tv_sec + tv.tv_usec * 1e-6; }

static inline void trailSet(Value* a, Value v) { if (!choices.empty() && (char*)a < choices.back().ap) trail.push_back({a, *a}); *a = v; }

static Rng rangeOf(Term* t, int d = 0) {
  Rng r{t->lo, t->hi};
  if (t->op == T_CONST) return r;
  if (d < 5) {
    if (t->op == T_ADD || t->op == T_SUB) { Rng a = rangeOf(t->a, d + 1), b = rangeOf(t->b, d + 1); i64 l, h; bool o = t->op == T_ADD ? __builtin_add_overflow(a.lo, b.lo, &l) | __builtin_add_overflow(a.hi, b.hi, &h) : __builtin_sub_overflow(a.lo, b.hi, &l) | __builtin_sub_overflow(a.hi, b.lo, &h);
      if (!o) { r.lo = std::max(r.lo, l); r.hi = std::min(r.hi, h); } }
    else if (t->op == T_SHL && t->b->op == T_CONST && t->b->k < 62) { Rng a = rangeOf(t->a, d + 1); if (a.lo >= 0 && a.hi <= (IMAX >> t->b->k)) { r.lo = std::max(r.lo, a.lo << t->b->k); r.hi = std::min(r.hi, a.hi << t->b->k); } }
    else if (t->op == T_MUL) { Rng a = rangeOf(t->a, d+1), b = rangeOf(t->b, d+1); i64 p[4]; bool o = __builtin_mul_overflow(a.lo,b.lo,&p[0])|__builtin_mul_overflow(a.lo,b.hi,&p[1])|__builtin_mul_overflow(a.hi,b.lo,&p[2])|__builtin_mul_overflow(a.hi,b.hi,&p[3]); if(!o){ r.lo=std::max(r.lo,*std::min_element(p,p+4)); r.hi=std::min(r.hi,*std::max_element(p,p+4)); } }
    else if (t->op == T_ITE) { auto f = facts.find(t->a); if (f != facts.end()) { Rng q = rangeOf(f->second ? t->b : t->c, d + 1); r.lo = std::max(r.lo, q.lo); r.hi = std::min(r.hi, q.hi); } else { Rng a = rangeOf(t->b, d+1), b = rangeOf(t->c, d+1); r.lo = std::max(r.lo, std::min(a.lo,b.lo)); r.hi = std::min(r.hi, std::max(a.hi,b.hi)); } }
    else if (t->op == T_LSHR && t->b->op == T_CONST && t->b->k < 64) { Rng a = rangeOf(t->a, d+1); if (a.lo >= 0) { r.lo = std::max(r.lo, a.lo >> t->b->k); r.hi = std::min(r.hi, a.hi >> t->b->k); } }
    else if (t->op == T_UDIV && t->b->op == T_CONST && (i64)t->b->k > 0) { Rng a = rangeOf(t->a, d+1); if (a.lo >= 0) { r.lo = std::max(r.lo, a.lo / (i64)t->b->k); r.hi = std::min(r.hi, a.hi / (i64)t->b->k); } }
  }
  auto it = refine.find(t); if (it != refine.end()) { r.lo = std::max(r.lo, it->second.lo); r.hi = std::min(r.hi, it->second.hi); }
  return r; }
static void setRange(Term* t, i64 lo, i64 hi, int d = 0) {
  if (t->op == T_CONST || d > 4) return;
  Rng r = rangeOf(t); lo = std::max(lo, r.lo); hi = std::min(hi, r.hi); if (lo > hi) return; if (lo == r.lo && hi == r.hi) return;
  auto it = refine.find(t); if (it == refine.end()) { factTrail.push_back({t, 1, false, 0, 0}); refine[t] = {lo, hi}; } else { factTrail.push_back({t, 1, true, it->second.lo, it->second.hi}); it->second = {lo, hi}; }
  if (t->op == T_ADD && t->b->op == T_CONST) { i64 c = (i64)t->b->k, l, h, x, y; Rng a = rangeOf(t->a);
    if (!__builtin_add_overflow(a.lo, c, &x) && !__builtin_add_overflow(a.hi, c, &y) && !__builtin_sub_overflow(lo, c, &l) && !__builtin_sub_overflow(hi, c, &h)) setRange(t->a, l, h, d + 1); }
  else if (t->op == T_SUB && t->a->op == T_CONST) { i64 c = (i64)t->a->k, l, h, x, y; Rng a = rangeOf(t->b);
    if (!__builtin_sub_overflow(c, a.lo, &x) && !__builtin_sub_overflow(c, a.hi, &y) && !__builtin_sub_overflow(c, hi, &l) && !__builtin_sub_overflow(c, lo, &h)) setRange(t->b, l, h, d + 1); }
}
static void learn(Term* c, bool v) {
  if (c->op == B_CONST) return;
  if (c->op == B_NOT) { learn(c->a, !v); }
  auto it = facts.find(c); if (it != facts.end()) return;
  facts[c] = v; factTrail.push_back({c, 0, false, 0, 0});
  Term *a = c->a, *b = c->b;
  switch (c->op) {
  case B_AND: if (v) { learn(a, true); learn(b, true); } break;
  case B_OR: if (!v) { learn(a, false); learn(b, false); } break;
  case B_EQ: if (a->isBool()) break; if (v) { Rng x = rangeOf(a), y = rangeOf(b); setRange(a, y.lo, y.hi); setRange(b, x.lo, x.hi); }
    else { if (b->op == T_CONST) { Rng x = rangeOf(a); if (x.lo == (i64)b->k) setRange(a, x.lo + 1, x.hi); else if (x.hi == (i64)b->k) setRange(a, x.lo, x.hi - 1); } } break;
  case B_SLT: { Rng x = rangeOf(a), y = rangeOf(b); if (v) { if (y.hi != IMIN) setRange(a, IMIN, y.hi - 1); if (x.lo != IMAX) setRange(b, x.lo + 1, IMAX); } else { setRange(a, y.lo, IMAX); setRange(b, IMIN, x.hi); }
    if (!facts.count(tNot(c))) { facts[tNot(c)] = !v; factTrail.push_back({tNot(c), 0, false, 0, 0}); } break; }
  case B_SLE: { Rng x = rangeOf(a), y = rangeOf(b); if (v) { setRange(a, IMIN, y.hi); setRange(b, x.lo, IMAX); } else { if (y.lo != IMAX) setRange(a, y.lo + 1, IMAX); if (x.hi != IMIN) setRange(b, IMIN, x.hi - 1); }
    if (!facts.count(tNot(c))) { facts[tNot(c)] = !v; factTrail.push_back({tNot(c), 0, false, 0, 0}); } break; }
  case B_ULT: case B_ULE: { if (v) { Rng y = rangeOf(b); if (y.lo >= 0) setRange(a, 0, c->op == B_ULT ? y.hi - 1 : y.hi); }
    else { Rng x = rangeOf(a); if (x.lo >= 0) setRange(b, 0, x.hi); } break; }
  default: break;
  } }
static int evalRange(Term* c, int d = 0) { // -1 unknown
  if (c->op == B_CONST) return (int)c->k;
  auto it = facts.find(c); if (it != facts.end()) return it->second;
  if (d > 6) return -1;
  switch (c->op) {
  case B_NOT: { int x = evalRange(c->a, d + 1); return x < 0 ? x : !x; }
  case B_AND: { int x = evalRange(c->a, d + 1); if (x == 0) return 0; int y = evalRange(c->b, d + 1); if (y == 0) return 0; return x == 1 && y == 1 ? 1 : -1; }
  case B_OR: { int x = evalRange(c->a, d + 1); if (x == 1) return 1; int y = evalRange(c->b, d + 1); if (y == 1) return 1; return x == 0 && y == 0 ? 0 : -1; }
  case B_EQ: if (c->a->isBool()) return -1; { Rng x = rangeOf(c->a), y = rangeOf(c->b); if (x.hi < y.lo || y.hi < x.lo) return 0; if (x.lo == x.hi && y.lo == y.hi) return x.lo == y.lo; return -1; }
  case B_SLT: { Rng x = rangeOf(c->a), y = rangeOf(c->b); if (x.hi < y.lo) return 1; if (x.lo >= y.hi) return 0; return -1; }
  case B_SLE: { Rng x = rangeOf(c->a), y = rangeOf(c->b); if (x.hi <= y.lo) return 1; if (x.lo > y.hi) return 0; return -1; }
  case B_ULT: { Rng x = rangeOf(c->a), y = rangeOf(c->b); if ((x.lo >= 0 && y.lo >= 0) || (x.hi < 0 && y.hi < 0)) { if (x.hi < y.lo) return 1; if (x.lo >= y.hi) return 0; } else if (x.lo >= 0 && y.hi < 0) return 1; else if (x.hi < 0 && y.lo >= 0) return 0; return -1; }
  case B_ULE: { Rng x = rangeOf(c->a), y = rangeOf(c->b); if ((x.lo >= 0 && y.lo >= 0) || (x.hi < 0 && y.hi < 0)) { if (x.hi <= y.lo) return 1; if (x.lo > y.hi) return 0; } else if (x.lo >= 0 && y.hi < 0) return 1; else if (x.hi < 0 && y.lo >= 0) return 0; return -1; }
  default: return -1;
  } }

static void z3err(Z3_context c, Z3_error_code e) { throw Unsupported(std::string("z3: ") + Z3_get_error_msg(c, e)); }
static void assertT(Term* t) { if (t->op == B_CONST && t->k) return; if (t->op == B_AND) { assertT(t->a); assertT(t->b); return; } pc.push_back(t); }
// exact variable sets, memoised
static std::unordered_map<Term*, std::vector<int>> varSets;
static const std::vector<int>& varsOf(Term* t) {
  auto it = varSets.find(t); if (it != varSets.end()) return it->second;
  std::vector<int> r;
  if (t->op == T_VAR) r.push_back((int)t->k);
  else for (Term* c : {t->a, t->b, t->c}) if (c && c->vars) { const std::vector<int>& x = varsOf(c); std::vector<int> m; std::set_union(r.begin(), r.end(), x.begin(), x.end(), std::back_inserter(m)); r.swap(m); }
  return varSets.emplace(t, std::move(r)).first->second; }
static std::unordered_map<Term*, Z3_ast> proxies; static u64 nResets, nCacheHit;
static Z3_solver mkSolver() {
  Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, getenv("FLSYM_LOGIC") ? getenv("FLSYM_LOGIC") : "QF_BV")); Z3_solver_inc_ref(Z, s);
  Z3_params ps = Z3_mk_params(Z); Z3_params_inc_ref(Z, ps); Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "timeout"), std::min(qTimeout, incTimeout)); Z3_solver_set_params(Z, s, ps); Z3_params_dec_ref(Z, ps); return s; }
static Z3_ast varConstraint(int v) { VarInfo& vi = gVars[v]; if (vi.width < 64 ? vi.maxv == (1ull << vi.width) - 1 : true) return nullptr;
  Z3_ast nn = Z3_mk_unsigned_int64(Z, vi.maxv, Z3_mk_bv_sort(Z, vi.width)); Z3_inc_ref(Z, nn); Z3_ast c = Z3_mk_bvule(Z, vi.z, nn); Z3_inc_ref(Z, c); Z3_dec_ref(Z, nn); return c; }
static std::vector<char> varAsserted;
static Z3_ast proxyOf(Term* t) {
  auto it = proxies.find(t); if (it != proxies.end()) return it->second;
  for (int v : varsOf(t)) { if ((size_t)v >= varAsserted.size()) varAsserted.resize(v + 1, 0); if (!varAsserted[v]) { varAsserted[v] = 1; Z3_ast c = varConstraint(v); if (c) { Z3_solver_assert(Z, S, c); Z3_dec_ref(Z, c); } } }
  char nm[32]; snprintf(nm, 32, "p%u", t->id); Z3_ast p = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bool_sort(Z)); Z3_inc_ref(Z, p);
  Z3_ast im = Z3_mk_implies(Z, p, toZ3(t)); Z3_inc_ref(Z, im); Z3_solver_assert(Z, S, im); Z3_dec_ref(Z, im);
  proxies[t] = p; return p; }
static void resetSolver() { Z3_solver_dec_ref(Z, S); S = mkSolver(); for (auto& p : proxies) Z3_dec_ref(Z, p.second); proxies.clear(); varAsserted.assign(gVars.size(), 0); nResets++; }
static void readModel(Z3_solver s, const std::vector<int>& vars, std::vector<u64>& m) {
  Z3_model mo = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, mo); m = model; m.resize(gVars.size(), 0);
  for (int v : vars) { Z3_ast r = nullptr; if (Z3_model_eval(Z, mo, gVars[v].z, true, &r) && r) { Z3_inc_ref(Z, r); u64 x = 0; Z3_get_numeral_uint64(Z, r, &x); m[v] = x; Z3_dec_ref(Z, r); } }
  Z3_model_dec_ref(Z, mo); }
struct QRes { int r; std::vector<std::pair<int, u64>> m; };
struct VecH { size_t operator()(const std::vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 31; } return h; } };
static std::unordered_map<std::vector<u32>, QRes, VecH> qcache;
// the constraints transitively sharing variables with the query
static int checkWith(Term* extra, std::vector<u64>& m) { // 1 sat 0 unsat -1 unknown
  double a = now(); nQueries++;
  if (extra->op == B_CONST) { if (!extra->k) { nUnsat++; return 0; } m = model; nSat++; return 1; }
  std::set<int> vs(varsOf(extra).begin(), varsOf(extra).end()); std::vector<char> in(pc.size(), 0); std::vector<Term*> slice; bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { const std::vector<int>& x = varsOf(pc[i]); bool hit = false; for (int v : x) if (vs.count(v)) { hit = true; break; } if (hit) { in[i] = 1; ch = true; slice.push_back(pc[i]); vs.insert(x.begin(), x.end()); } } }
  std::vector<u32> key; for (Term* t : slice) key.push_back(t->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end()); key.push_back(extra->id);
  auto it = qcache.find(key);
  if (it != qcache.end()) { nCacheHit++; if (it->second.r == 1) { m = model; m.resize(gVars.size(), 0); for (auto& p : it->second.m) m[p.first] = p.second; nSat++; } else if (it->second.r == 0) nUnsat++; else nUnknown++; solverTime += now() - a; return it->second.r; }
  std::vector<int> vv(vs.begin(), vs.end());
  if (proxies.size() > 4000) resetSolver();
  std::vector<Z3_ast> as; as.push_back(proxyOf(extra)); for (Term* t : slice) as.push_back(proxyOf(t));
  Z3_lbool r = Z3_solver_check_assumptions(Z, S, as.size(), as.data());
  if (r == Z3_L_TRUE) { readModel(S, vv, m); // the incremental solver may be unreliable after an interrupted query: check its model
    newEvalEpoch(); bool ok = evalTerm(extra, m) != 0; for (size_t i = 0; ok && i < slice.size(); i++) ok = evalTerm(slice[i], m) != 0; newEvalEpoch(); if (!ok) r = Z3_L_UNDEF; }
  if (r == Z3_L_UNDEF) { resetSolver(); // retry with a fresh one-shot solver over the same constraints
    Z3_tactic tq = Z3_mk_tactic(Z, "qfbv"); Z3_tactic_inc_ref(Z, tq); Z3_solver s2 = Z3_mk_solver_from_tactic(Z, tq); Z3_solver_inc_ref(Z, s2);
    Z3_params ps = Z3_mk_params(Z); Z3_params_inc_ref(Z, ps); Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "timeout"), qTimeout); Z3_solver_set_params(Z, s2, ps); Z3_params_dec_ref(Z, ps);
    for (int v : vv) { Z3_ast c = varConstraint(v); if (c) Z3_solver_assert(Z, s2, c); }
    for (Term* t : slice) Z3_solver_assert(Z, s2, toZ3(t)); Z3_solver_assert(Z, s2, toZ3(extra)); r = Z3_solver_check(Z, s2); if (r == Z3_L_TRUE) readModel(s2, vv, m); Z3_solver_dec_ref(Z, s2); Z3_tactic_dec_ref(Z, tq); nReplayQ++; }
  double dt = now() - a; solverTime += dt; if (dt > maxQuery) maxQuery = dt;
  QRes q; q.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; if (q.r == 1) for (int v : vv) q.m.push_back({v, m[v]});
  qcache[key] = q;
  if (q.r == 1) nSat++; else if (q.r == 0) nUnsat++; else nUnknown++;
  return q.r; }
static void setModel(const std::vector<u64>& m) { model = m; newEvalEpoch(); }
static void markIncomplete(const std::string& w) { incomplete = true; if (incompleteWhy.empty()) incompleteWhy = w; }
static std::string fnLabel(Fn* f) { if (!f) return "?"; std::string s = units[f->unit].src; size_t q = s.rfind('/'); return s.substr(q + 1) + ":" + f->name; }

static bool decide(Term* c) {
  int r = evalRange(c); if (r >= 0) return r;
  if (!exploring) throw Unsupported("symbolic decision during initialisation");
  if (now() - t0 > timeLimit) { markIncomplete("time limit"); throw StopAll(); }
  bool s = evalTerm(c, model) != 0;
  std::vector<u64> m; Term* other = s ? tNot(c) : c;
  int q = checkWith(other, m);
  if (q == 0) { learn(c, s); return s; }
  if (q < 0) { markIncomplete("solver unknown at " + fnLabel(st.pc->fn)); assertT(s ? c : tNot(c)); learn(c, s); return s; }
  nForks++; if (st.pc) { st.pc->forks++; st.pc->fn->forks++; }
  u64 h1 = pathHash * 0x9E3779B97F4A7C15ull + 1 + s, h2 = pathHash * 0x9E3779B97F4A7C15ull + 1 + !s; h1 ^= h1 >> 31; h2 ^= h2 >> 31;
  int nd = pathDepth + 1;
  if (shardN > 1 && nd == shardDepth) {
    bool m1 = (int)((h1 >> 7) % shardN) == shardI, m2 = (int)((h2 >> 7) % shardN) == shardI;
    if (!m1 && !m2) { nShardSkip++; throw PathKill(); }
    if (m1 != m2) { bool take = m1 ? s : !s; if (take != s) setModel(m); pathHash = m1 ? h1 : h2; pathDepth = nd; assertT(take ? c : tNot(c)); learn(c, take); return take; }
  }
  choices.push_back({st, trail.size(), factTrail.size(), pc.size(), pathVars.size(), 0, ap, c, !s, m, pathSteps, h2, nd});
  pathHash = h1; pathDepth = nd;
  assertT(s ? c : tNot(c)); learn(c, s);
  return s; }

static void undoFacts(size_t n) { while (factTrail.size() > n) { FactE& f = factTrail.back(); if (f.kind == 0) facts.erase(f.t); else if (f.had) refine[f.t] = {f.lo, f.hi}; else refine.erase(f.t); factTrail.pop_back(); } }
static bool backtrack() {
  if (choices.empty()) return false;
  if ((size_t)(ap - arena) > arenaPeak) arenaPeak = ap - arena;
  Choice& c = choices.back();
  while (trail.size() > c.trail) { *trail.back().a = trail.back().old; trail.pop_back(); }
  undoFacts(c.fact); pc.resize(c.pcs); pathVars.resize(c.vars); ap = c.ap; st = c.st; pathSteps = c.pathSteps; pathHash = c.hash; pathDepth = c.depth;
  setModel(c.model);
  Term* t = c.side ? c.c : tNot(c.c); Term* cc = c.c; bool side = c.side; choices.pop_back();
  assertT(t); learn(cc, side); return true; }

static Value norm(Value v) { if (v.k == V_SYM) { Rng r = rangeOf((Term*)v.p, 2); if (r.lo == r.hi) return VI((u64)r.lo); } return v; }
static u64 concretise(Value v) {
  v = norm(v); if (v.k == V_INT) return v.p; if (v.k != V_SYM) throw Unsupported("concretise non-number");
  Term* t = (Term*)v.p;
  for (int i = 0; i < 100000; i++) { u64 x = evalTerm(t, model); if (decide(mk(B_EQ, t, tConst(x)))) return x; }
  throw Unsupported("concretise loop"); }

// ------------------------------------------------------------ symbolic inputs
static std::map<std::string, int> varKey; static int pathVarNo() { return (int)pathVars.size(); }
static Value freshVar(int kind, int width, i64 base, u64 maxv, i64 lo, i64 hi) {
  int pos = pathVarNo(); std::string key = std::to_string(pos) + "_" + std::to_string(kind) + "_" + std::to_string(width) + "_" + std::to_string(base) + "_" + std::to_string(maxv);
  int idx; auto it = varKey.find(key);
  if (it == varKey.end()) { idx = gVars.size(); VarInfo v; v.width = width; v.base = base; v.maxv = maxv; v.kind = kind; v.name = "x" + key; v.z = Z3_mk_const(Z, Z3_mk_string_symbol(Z, v.name.c_str()), Z3_mk_bv_sort(Z, width)); Z3_inc_ref(Z, v.z); gVars.push_back(v); varKey[key] = idx; }
  else idx = it->second;
  Term* t = mkVar(idx, lo, hi); pathVars.push_back(idx); if (model.size() <= (size_t)idx) model.resize(idx + 1, 0);
  model[idx] = 0; newEvalEpoch();
  return VT(t); }
static Value symRange(i64 lo, i64 hi) { if (lo > hi) throw Unsupported("empty range"); u64 w = (u64)hi - (u64)lo; if (w == 0) return VI((u64)lo);
  int bits = 64 - __builtin_clzll(w); return freshVar(0, bits, lo, w, lo, hi); }
static Value symBits(int n) { // canonical machine value of n-bit type
  if (n == 63) return freshVar(1, 63, 0, (1ull << 63) - 1, -(1ll << 62), (1ll << 62) - 1);
  if (n == 64) return freshVar(1, 64, 0, ~0ull, IMIN, IMAX);
  return freshVar(0, n, 0, (1ull << n) - 1, 0, (i64)((1ull << n) - 1)); }
static std::vector<std::string> modelVals(const std::vector<u64>& m) {
  std::vector<std::string> r; for (int v : pathVars) { VarInfo& vi = gVars[v]; u64 x = (size_t)v < m.size() ? m[v] : 0; i64 y = vi.kind == 1 ? (vi.width == 64 ? (i64)x : (i64)(x << (64 - vi.width)) >> (64 - vi.width)) : (i64)(x + (u64)vi.base); r.push_back(std::to_string(y)); } return r; }

// ------------------------------------------------------------ helpers
static inline Value opr(Frame* fr, Opr o) { switch (o & 3) { case 0: return fr->s[o >> 2]; case 1: return fr->clo->f[o >> 2]; default: return consts[o >> 2]; } }
static Value unitV() { return VI(0); }
static Value mkRec(std::initializer_list<Value> l) { Obj* o = newObj(O_REC, l.size()); int i = 0; for (auto& v : l) o->f[i++] = v; return VO(o); }
static Value mkCon(CR cr, int tag, Value a) { Obj* o = newObj(O_CON, 1, ((u64)cr << 32) | (u32)tag); o->f[0] = a; return VO(o); }
static Value nilV() { return VI(0); }
static Value consV(Value h, Value t) { return mkCon(C_CONS, 0, mkRec({h, t})); }
static Value field(Value v, int i) {
  if (v.k != V_OBJ) throw Unsupported("select from non-object");
  Obj* o = O(v); if (o->t == O_CON && (o->aux >> 32) != C_TAG) { if (O(o->f[0]) && o->f[0].k == V_OBJ) return field(o->f[0], i); }
  if ((o->t != O_REC && o->t != O_VEC && o->t != O_REF && o->t != O_ARR) || (u32)i >= o->len) throw Unsupported(std::string("bad select ") + otName[o->t] + " " + std::to_string(i) + "/" + std::to_string(o->len));
  return o->f[i]; }
static std::string strOf(Value v) { if (v.k != V_OBJ) return "<?>"; Obj* o = O(v); std::string s; for (u32 i = 0; i < o->len; i++) { if (o->f[i].k == V_INT) s += (char)o->f[i].p; else if (o->f[i].k == V_SYM) s += (char)evalTerm((Term*)o->f[i].p, model); } return s; }
static Value exnOverflow, exnDiv, tagSysErr;
static std::string exnName(Value e) { try { Value t = field(e, 0); return strOf(O(t)->f[0]); } catch (...) { return "?"; } }
static std::string showVal(Value v, int d = 4) {
  switch (v.k) { case V_INT: return std::to_string((i64)v.p); case V_SYM: return "<" + std::to_string((i64)evalTerm((Term*)v.p, model)) + ">"; case V_REAL: return std::to_string(R(v)); case V_NONE: return "NONE"; default: break; }
  Obj* o = O(v); if (o->t == O_STR) return "\"" + strOf(v) + "\""; std::string s = otName[o->t]; if (o->t == O_CON) s += std::to_string(o->aux >> 32) + "." + std::to_string((u32)o->aux);
  if (o->t == O_CLO) return "fn " + ((Fn*)o->aux)->name; if (d == 0 || o->t == O_CONT || o->t == O_HDLR || o->t == O_NAT) return s; s += "("; for (u32 i = 0; i < o->len && i < 12; i++) { if (i) s += ","; s += showVal(o->f[i], d - 1); } return s + ")"; }

static std::string where() { std::string s; if (st.pc) s = fnLabel(st.pc->fn); int n = 0; for (K* k = st.k; k && n < 12; k = k->up) if (k->k == K_LET) { s += " < " + fnLabel(k->n->fn); n++; } return s; }
static void violation(const std::string& msg, const std::vector<u64>& m) {
  std::vector<u64> save = model; setModel(m);
  bool known = false; for (auto& v : viols) if (v.msg == msg) known = true;
  if (!known) { viols.push_back({msg, modelVals(m), where()}); }
  setModel(save);
  if (viols.size() >= maxViol) throw StopAll(); }

// ------------------------------------------------------------ structural equality as a term
static Term* eqTerm(Value a, Value b, int depth = 0) {
  if (depth > 100000) throw Unsupported("equality too deep");
  bool an = a.k == V_INT || a.k == V_SYM || a.k == V_REAL, bn = b.k == V_INT || b.k == V_SYM || b.k == V_REAL;
  if (an && bn) return mk(B_EQ, TM(a), TM(b));
  if (an != bn) return bConst(false);
  Obj *x = O(a), *y = O(b); if (x == y) return bConst(true);
  // TRANSPARENT wrappers never appear as O_CON; strings vs records never compared
  if (x->t != y->t) { if ((x->t == O_REC && y->t == O_VEC) || (x->t == O_VEC && y->t == O_REC)) {} else return bConst(false); }
  switch (x->t) {
  case O_REF: case O_ARR: case O_BARR: case O_RARR: case O_CLO: case O_CONT: case O_NAT: case O_SPECIAL: case O_CFUN: return bConst(false);
  case O_CON: { // iterate along list spines
    Term* r = bConst(true); Value u = a, v = b;
    for (;;) { if (u.k != V_OBJ || v.k != V_OBJ || O(u)->t != O_CON || O(v)->t != O_CON) return mk(B_AND, r, eqTerm(u, v, depth + 1));
      Obj *p = O(u), *q = O(v); if (p == q) return r; if (p->aux != q->aux) return bConst(false);
      if ((p->aux >> 32) == C_CONS) { r = mk(B_AND, r, eqTerm(field(p->f[0], 0), field(q->f[0], 0), depth + 1)); if (r->op == B_CONST && !r->k) return r; u = field(p->f[0], 1); v = field(q->f[0], 1); continue; }
      return mk(B_AND, r, eqTerm(p->f[0], q->f[0], depth + 1)); } }
  case O_REC: case O_VEC: case O_STR: { if (x->len != y->len) return bConst(false); Term* r = bConst(true); for (u32 i = 0; i < x->len; i++) { r = mk(B_AND, r, eqTerm(x->f[i], y->f[i], depth + 1)); if (r->op == B_CONST && !r->k) return r; } return r; }
  default: throw Unsupported(std::string("equality on ") + otName[x->t]);
  } }

// ------------------------------------------------------------ arithmetic
static inline bool fits(i64 v, int n) { if (n >= 64) return true; i64 m = (i64)(1ull << (n - 1)); return v >= -m && v < m; }
static Term* canonT(Term* t, int sz) { return sz == 63 ? tSext(63, t) : sz >= 64 ? t : tZext(sz, t); }
static Term* sgn(Term* t, int sz) { return sz >= 63 ? t : tSext(sz, t); }     // canonical -> signed 64
static Term* uns(Term* t, int sz) { return sz == 63 ? tZext(63, t) : t; }      // canonical -> unsigned 64
static i64 sgnC(u64 v, int sz) { return sz >= 63 ? (i64)v : (i64)(v << (64 - sz)) >> (64 - sz); }
static u64 unsC(u64 v, int sz) { return sz == 63 ? v & ~(1ull << 63) : v; }
static const int EXN = 1;
static Term* outOfRange(Term* r, int sz) { return tNot(mk(B_EQ, tSext(sz, r), r)); }
// returns true on overflow
static bool iarith(AO op, int sz, Value a, Value b, Value& out) {
  a = norm(a); if (op != A_NEG) b = norm(b);
  if (a.k == V_INT && (op == A_NEG || b.k == V_INT)) {
    i64 x = sgnC(a.p, sz), y = op == A_NEG ? 0 : sgnC(b.p, sz); i128 r = 0;
    switch (op) { case A_ADD: r = (i128)x + y; break; case A_SUB: r = (i128)x - y; break; case A_MUL: r = (i128)x * y; break; case A_NEG: r = -(i128)x; break;
    case A_QUOT: case A_DIV: case A_REM: case A_MOD: { if (y == 0) throw Unsupported("division by zero reached primop"); i128 q = (i128)x / y, m = (i128)x % y; if ((op == A_DIV || op == A_MOD) && m != 0 && ((m < 0) != (y < 0))) { q--; m += y; } r = (op == A_QUOT || op == A_DIV) ? q : m; break; }
    default: throw Unsupported("iarith"); }
    if (sz == 64 && (op == A_REM || op == A_MOD) && y == -1 && x == INT64_MIN) return true; // the hardware division traps
    if (r < -((i128)1 << (sz - 1)) || r >= ((i128)1 << (sz - 1))) return true;
    out = VI(canon((u64)(i64)r, sz)); return false; }
  Term *x = sgn(TM(a), sz), *y = op == A_NEG ? nullptr : sgn(TM(b), sz); Term *r = nullptr, *ov = bConst(false);
  switch (op) {
  case A_ADD: r = mk(T_ADD, x, y); if (sz == 64) { // both same sign, result differs
      if (!(x->lo >= -(1ll<<62) && x->hi < (1ll<<62) && y->lo >= -(1ll<<62) && y->hi < (1ll<<62)))
      ov = mk(B_SLT, mk(T_AND, mk(T_XOR, x, r), mk(T_XOR, y, r)), tConst(0)); } else ov = outOfRange(r, sz); break;
  case A_SUB: r = mk(T_SUB, x, y); if (sz == 64) { if (!(x->lo >= -(1ll<<62) && x->hi < (1ll<<62) && y->lo >= -(1ll<<62) && y->hi < (1ll<<62)))
      ov = mk(B_SLT, mk(T_AND, mk(T_XOR, x, y), mk(T_XOR, x, r)), tConst(0)); } else ov = outOfRange(r, sz); break;
  case A_NEG: r = mk(T_SUB, tConst(0), x); ov = mk(B_EQ, x, tConst((u64)(-(i128)1 << (sz - 1)))); break;
  case A_MUL: r = mk(T_MUL, x, y); ov = mk(B_MULO, x, y, nullptr, sz); break;
  case A_QUOT: case A_DIV: case A_REM: case A_MOD: {
    Rng ry = rangeOf(y); if (ry.lo <= 0 && ry.hi >= 0 && decide(mk(B_EQ, y, tConst(0)))) throw Unsupported("division by zero reached primop");
    Term *q = mk(T_SDIV, x, y), *m = mk(T_SREM, x, y);
    if (op == A_DIV || op == A_MOD) { Term* adj = mk(B_AND, tNot(mk(B_EQ, m, tConst(0))), mk(B_SLT, mk(T_XOR, m, y), tConst(0)));
      if (x->lo >= 0 && y->lo >= 0) adj = bConst(false);
      q = tIte(adj, mk(T_SUB, q, tConst(1)), q); m = tIte(adj, mk(T_ADD, m, y), m); }
    if (op == A_QUOT || op == A_DIV || sz == 64) { ov = mk(B_AND, mk(B_EQ, y, tConst(~0ull)), mk(B_EQ, x, tConst((u64)(-(i128)1 << (sz - 1))))); } r = (op == A_QUOT || op == A_DIV) ? q : m;
    break; }
  default: throw Unsupported("iarith"); }
  if (ov->op != B_CONST) { if (decide(ov)) return true; } else if (ov->k) return true;
  out = VT(canonT(r, sz)); return false; }

static Value pureArith(AO op, char nk, int sz, Value* v) {
  if (nk == 'F') {
    bool sym = v[0].k == V_SYM || (op != A_NEG && op != A_FABS && op != A_FSQRT && v[1].k == V_SYM);
    if (!sym) { double x = R(v[0]), y = (op == A_NEG || op == A_FABS || op == A_FSQRT) ? 0 : R(v[1]);
      switch (op) { case A_ADD: return VR(x + y); case A_SUB: return VR(x - y); case A_MUL: return VR(x * y); case A_FDIV: return VR(x / y); case A_NEG: return VR(-x); case A_FABS: return VR(fabs(x)); case A_FSQRT: return VR(sqrt(x)); default: throw Unsupported("real op"); } }
    Term* x = TM(v[0]);
    switch (op) { case A_NEG: return VT(mk(T_XOR, x, tConst(1ull << 63))); case A_FABS: return VT(mk(T_AND, x, tConst(~(1ull << 63)))); case A_FSQRT: return VT(mk(T_FSQRT, x));
    case A_ADD: return VT(mk(T_FADD, x, TM(v[1]))); case A_SUB: return VT(mk(T_FSUB, x, TM(v[1]))); case A_MUL: return VT(mk(T_FMUL, x, TM(v[1]))); case A_FDIV: return VT(mk(T_FDIV, x, TM(v[1]))); default: throw Unsupported("real op"); } }
  bool un = op == A_NEG || op == A_NOTB;
  if (v[0].k == V_INT && (un || v[1].k == V_INT)) {
    u64 x = v[0].p, y = un ? 0 : v[1].p, r; bool sg = nk == 'I';
    switch (op) { case A_ADD: r = x + y; break; case A_SUB: r = x - y; break; case A_MUL: r = x * y; break; case A_NEG: r = 0 - x; break; case A_NOTB: r = ~x; break;
    case A_ORB: r = x | y; break; case A_ANDB: r = x & y; break; case A_XORB: r = x ^ y; break;
    case A_QUOT: case A_REM: if (sg) { i64 p = sgnC(x, sz), q = sgnC(y, sz); if (!q) throw Unsupported("div0"); r = op == A_QUOT ? (q == -1 ? 0 - (u64)p : (u64)(p / q)) : (q == -1 ? 0 : (u64)(p % q)); } else { u64 p = unsC(x, sz), q = unsC(y, sz); if (!q) throw Unsupported("div0"); r = op == A_QUOT ? p / q : p % q; } break;
    case A_LSHIFT: r = y > 63 ? 0 : x << y; break; case A_RSHIFT: r = (u64)(sgnC(x, sz) >> (y > 63 ? 63 : y)); break; case A_RSHIFTL: r = y > 63 ? 0 : unsC(x, sz) >> y; break;
    default: throw Unsupported("pure op"); }
    return VI(canon(r, sz)); }
  Term *x = TM(v[0]), *y = un ? nullptr : TM(v[1]), *r; bool sg = nk == 'I';
  switch (op) { case A_ADD: r = mk(T_ADD, x, y); break; case A_SUB: r = mk(T_SUB, x, y); break; case A_MUL: r = mk(T_MUL, x, y); break; case A_NEG: r = mk(T_SUB, tConst(0), x); break; case A_NOTB: r = mk(T_XOR, x, tConst(~0ull)); break;
  case A_ORB: r = mk(T_OR, x, y); break; case A_ANDB: r = mk(T_AND, x, y); break; case A_XORB: r = mk(T_XOR, x, y); break;
  case A_QUOT: r = sg ? mk(T_SDIV, sgn(x, sz), sgn(y, sz)) : mk(T_UDIV, uns(x, sz), uns(y, sz)); break; case A_REM: r = sg ? mk(T_SREM, sgn(x, sz), sgn(y, sz)) : mk(T_UREM, uns(x, sz), uns(y, sz)); break;
  case A_LSHIFT: r = mk(T_SHL, x, y); break; case A_RSHIFT: r = mk(T_ASHR, sgn(x, sz), y); break; case A_RSHIFTL: r = mk(T_LSHR, uns(x, sz), y); break; default: throw Unsupported("pure op"); }
  return VT(canonT(r, sz)); }

static Term* cmpTerm(CO op, char nk, int sz, Value a, Value b) {
  if (nk == 'F') {
    if (a.k == V_REAL && b.k == V_REAL) { double x = R(a), y = R(b); switch (op) { case CM_GT: return bConst(x > y); case CM_GTE: return bConst(x >= y); case CM_LT: return bConst(x < y); case CM_LTE: return bConst(x <= y); case CM_EQL: return bConst(x == y); default: return bConst(!(x == y)); } }
    Term *x = TM(a), *y = TM(b); switch (op) { case CM_GT: return mk(B_FLT, y, x); case CM_GTE: return mk(B_FLE, y, x); case CM_LT: return mk(B_FLT, x, y); case CM_LTE: return mk(B_FLE, x, y); case CM_EQL: return mk(B_FEQ, x, y); default: return tNot(mk(B_FEQ, x, y)); } }
  if (a.k == V_OBJ || b.k == V_OBJ) { // equality on cast values
    if (op == CM_EQL) return eqTerm(a, b); if (op == CM_NEQ) return tNot(eqTerm(a, b)); throw Unsupported("compare objects"); }
  Term *x = TM(a), *y = TM(b); bool sg = nk == 'I';
  if (op == CM_EQL) return mk(B_EQ, x, y); if (op == CM_NEQ) return tNot(mk(B_EQ, x, y));
  if (sg && sz < 63) { x = sgn(x, sz); y = sgn(y, sz); }
  TOp lt = sg ? B_SLT : B_ULT, le = sg ? B_SLE : B_ULE;
  switch (op) { case CM_GT: return mk(lt, y, x); case CM_GTE: return mk(le, y, x); case CM_LT: return mk(lt, x, y); default: return mk(le, x, y); } }
static inline int cmpConc(CO op, char nk, int sz, const Value& a, const Value& b) { // both V_INT
  if (op == CM_EQL) return a.p == b.p; if (op == CM_NEQ) return a.p != b.p;
  if (nk == 'I') { i64 x = sgnC(a.p, sz), y = sgnC(b.p, sz); switch (op) { case CM_GT: return x > y; case CM_GTE: return x >= y; case CM_LT: return x < y; default: return x <= y; } }
  switch (op) { case CM_GT: return a.p > b.p; case CM_GTE: return a.p >= b.p; case CM_LT: return a.p < b.p; default: return a.p <= b.p; } }

// conversions. TEST/TESTU return true on overflow
static bool testConv(bool isU, int m, int n, Value v, Value& out) {
  v = norm(v);
  if (v.k == V_INT) { if (isU) { u64 x = unsC(v.p, m); i128 y = (i128)x; if (y >= ((i128)1 << (n - 1))) return true; out = VI(canon(x, n)); return false; }
    i64 x = sgnC(v.p, m); if (!fits(x, n)) return true; out = VI(canon((u64)x, n)); return false; }
  Term* t = TM(v);
  if (isU) { Term* x = uns(t, m); Term* ov = tNot(mk(B_ULT, x, tConst(1ull << (n - 1)))); if (decide(ov)) return true; out = VT(canonT(x, n)); return false; }
  Term* x = sgn(t, m); if (n >= 64) { out = VT(canonT(x, n)); return false; }
  if (decide(outOfRange(x, n))) return true; out = VT(canonT(x, n)); return false; }
static Value conv(PO p, int m, int n, Value v) {
  if (v.k == V_INT) { switch (p) { case P_TRUNC: return VI(canon(v.p, n)); case P_EXTEND: return VI(canon((u64)sgnC(v.p, m), n)); default: return VI(canon(unsC(v.p, m), n)); } }
  if (v.k != V_SYM) { if (v.k == V_OBJ || v.k == V_REAL) return v; throw Unsupported("conv"); }
  Term* t = TM(v); switch (p) { case P_TRUNC: return VT(canonT(t, n)); case P_EXTEND: return VT(canonT(sgn(t, m), n)); default: return VT(canonT(uns(t, m), n)); } }

// ------------------------------------------------------------ memory access
static void memSafety(const std::string& what) { if (!exploring) throw Unsupported(what); violation("memory-safety: " + what, model); throw PathEnd(); }
static Value readIdx(Obj* o, Value iv) {
  iv = norm(iv);
  if (iv.k == V_INT) { if (iv.p >= o->len) { if (o->t == O_STR && iv.p == o->len) return VI(0); memSafety("unchecked read outside an object"); } return o->f[iv.p]; }
  Term* t = TM(iv); Rng r = rangeOf(t);
  if (r.lo < 0 || r.hi >= (i64)o->len) { // establish bounds through the path condition
    if (!decide(mk(B_ULT, t, tConst(o->len)))) memSafety("unchecked read outside an object");
    r = rangeOf(t); r.lo = std::max<i64>(r.lo, 0); r.hi = std::min<i64>(r.hi, (i64)o->len - 1); }
  bool numeric = true; for (i64 i = r.lo; i <= r.hi; i++) if (o->f[i].k != V_INT && o->f[i].k != V_SYM) { numeric = false; break; }
  if (!numeric) { u64 i = concretise(iv); return o->f[i]; }
  std::function<Term*(i64, i64)> build = [&](i64 lo, i64 hi) -> Term* { if (lo == hi) return TM(o->f[lo]); i64 mid = lo + (hi - lo) / 2; Term* a = build(lo, mid); Term* b = build(mid + 1, hi); return a == b ? a : tIte(mk(B_SLE, t, tConst((u64)mid)), a, b); };
  return VT(build(r.lo, r.hi)); }
static void writeIdx(Obj* o, Value iv, Value x) {
  u64 i = concretise(iv); if (i >= o->len) memSafety("unchecked write outside an object"); trailSet(&o->f[i], x); }

// ------------------------------------------------------------ natives
enum NAT { NA_array, NA_bind_cfun, NA_callc, NA_create_b, NA_create_r, NA_create_s, NA_create_v, NA_floor, NA_logb, NA_scalb, NA_try_lock, NA_unlock };
static std::vector<std::pair<std::string, std::string>> cfuns; static std::map<std::string, int> cfunIdx;
static std::vector<std::pair<std::string, Value>> entries;
static Value pairArg(Value v) { if (v.k == V_OBJ && O(v)->t == O_CON) return O(v)->f[0]; return v; }
static std::vector<Value> listOf(Value v) { std::vector<Value> r; while (v.k == V_OBJ) { Value p = O(v)->f[0]; r.push_back(field(p, 0)); v = field(p, 1); } return r; }
static Value mkList(const std::vector<Value>& v) { Value r = nilV(); for (size_t i = v.size(); i-- > 0;) r = consV(v[i], r); return r; }
static u64 lenArg(Value v) { u64 n = concretise(v); if (n > (1u << 26)) throw Unsupported("allocation too large: " + std::to_string((i64)n)); return n; }
static Value someV(Value v) { return mkCon(C_UNT, 0, v); }
static Value callNative(int id, Value arg, bool& raised, Value& exn);
static Value cfunCall(const std::string& m, const std::string& f, Value arg, bool& raised, Value& exn);
static int tierOpt = 0; static std::vector<std::string> newCov;
#include "natives.inc"

static Value callNative(int id, Value arg, bool& raised, Value& exn) {
  arg = pairArg(arg);
  switch (id) {
  case NA_array: { u64 n = lenArg(field(arg, 0)); Value x = field(arg, 1); Obj* o = newObj(x.k == V_REAL ? O_ARR : O_ARR, n); for (u64 i = 0; i < n; i++) o->f[i] = x; return VO(o); }
  case NA_bind_cfun: { std::string m = strOf(field(arg, 0)), f = strOf(field(arg, 1)); std::string key = m + "." + f; auto it = cfunIdx.find(key); int i; if (it == cfunIdx.end()) { i = cfuns.size(); cfuns.push_back({m, f}); cfunIdx[key] = i; } else i = it->second; return VO(newObj(O_CFUN, 0, i)); }
  case NA_callc: { Value c = field(arg, 0); if (c.k != V_OBJ || O(c)->t != O_CFUN) throw Unsupported("callc of non-cfun"); auto& p = cfuns[O(c)->aux]; return cfunCall(p.first, p.second, field(arg, 1), raised, exn); }
  case NA_create_b: case NA_create_s: { u64 n = lenArg(arg); Obj* o = newObj(id == NA_create_b ? O_BARR : O_STR, n); for (u64 i = 0; i < n; i++) o->f[i] = VI(0xA5); return VO(o); }
  case NA_create_r: { u64 n = lenArg(arg); Obj* o = newObj(O_RARR, n); for (u64 i = 0; i < n; i++) o->f[i] = VR(-1.2345e67); return VO(o); }
  case NA_create_v: { u64 n = lenArg(field(arg, 0)); std::vector<Value> l = listOf(field(arg, 1)); if (l.size() < n) throw Unsupported("create_v list too short"); Obj* o = newObj(O_VEC, n); for (u64 i = 0; i < n; i++) o->f[i] = l[i]; return VO(o); }
  case NA_floor: return VI((u64)(i64)floor(R(arg)));
  case NA_logb: return VI((u64)(i64)logb(R(arg)));
  case NA_scalb: return VR(scalbn(R(field(arg, 0)), (int)concretise(field(arg, 1))));
  case NA_try_lock: return VI(1); case NA_unlock: return unitV();
  }
  throw Unsupported("native"); }

// ------------------------------------------------------------ interpreter
static void doRaise(Value e) {
  if (st.hdlr.k != V_OBJ || O(st.hdlr)->t != O_HDLR) {
    std::string n = exnName(e), extra; try { extra = showVal(field(e, 1), 3); } catch (...) {}
    if (!exploring) throw Unsupported("uncaught exception during initialisation: " + n + " " + extra + " at " + where());
    violation("uncaught exception " + n, model); throw PathEnd(); }
  Obj* h = O(st.hdlr); st.hdlr = h->f[1]; st.k = (K*)h->aux; Value f = h->f[0];
  extern void applyFn(Value, Value*, int); applyFn(f, &e, 1); }
static void doReturn(Value* vs, int n);
void applyFn(Value f, Value* args, int n) {
  if (f.k != V_OBJ) throw Unsupported("apply non-function " + showVal(f) + " at " + where());
  Obj* o = O(f);
  switch (o->t) {
  case O_CLO: {
    Fn* fn = (Fn*)o->aux; fn->hit = true; fn->calls++;
    Frame* fr = (Frame*)aalloc(sizeof(Frame) + fn->nslots * sizeof(Value)); fr->clo = o; int np = fn->nparams;
    if (np == n) { for (int i = 0; i < n; i++) fr->s[i] = args[i]; }
    else if (n == 1 && np > 1) { Value v = args[0]; if (v.k != V_OBJ || O(v)->len != (u32)np) throw Unsupported("arity unpack at " + fnLabel(fn) + ": " + showVal(v)); for (int i = 0; i < np; i++) fr->s[i] = field(v, i); }
    else if (np == 1) { if (n == 0) fr->s[0] = unitV(); else { Obj* r = newObj(O_REC, n); for (int i = 0; i < n; i++) r->f[i] = args[i]; fr->s[0] = VO(r); } }
    else if (np == 0) {}
    else throw Unsupported("arity mismatch at " + fnLabel(fn));
    st.fr = fr; st.pc = fn->body; return; }
  case O_NAT: { Value a; if (n == 1) a = args[0]; else if (n == 0) a = unitV(); else { Obj* r = newObj(O_REC, n); for (int i = 0; i < n; i++) r->f[i] = args[i]; a = VO(r); }
    bool raised = false; Value e; Value r = callNative((int)o->aux, a, raised, e); if (raised) { doRaise(e); return; } doReturn(&r, 1); return; }
  case O_CONT: { Value a; if (n == 1) a = args[0]; else if (n == 0) a = unitV(); else { Obj* r = newObj(O_REC, n); for (int i = 0; i < n; i++) r->f[i] = args[i]; a = VO(r); }
    st.k = (K*)o->aux; if (o->f[0].k != V_NONE) st.hdlr = o->f[0]; doReturn(&a, 1); return; }
  case O_ISO: { K* k = (K*)aalloc(sizeof(K)); k->k = K_HALT; k->shared = false; k->up = nullptr; k->n = nullptr; k->fr = nullptr; st.k = k; st.hdlr = VI(0); applyFn(o->f[0], args, n); return; }
  default: throw Unsupported(std::string("apply ") + otName[o->t]);
  } }
struct UnitDone { Value v; };
static Value haltVal; static bool halted;
static void doReturn(Value* vs, int n) {
  for (;;) {
    K* k = st.k;
    switch (k->k) {
    case K_HALT: { if (n == 1) haltVal = vs[0]; else if (n == 0) haltVal = unitV(); else { Obj* r = newObj(O_REC, n); for (int i = 0; i < n; i++) r->f[i] = vs[i]; haltVal = VO(r); } halted = true; st.pc = nullptr; return; }
    case K_HDL: st.hdlr = k->hd; if (k->shared && k->up) k->up->shared = true; st.k = k->up; continue;
    case K_LET: { Node* nd = k->n; Frame* fr = k->fr;
      if (k->shared) { int ns = nd->fn->nslots; Frame* f2 = (Frame*)aalloc(sizeof(Frame) + ns * sizeof(Value)); memcpy((void*)f2, (void*)fr, sizeof(Frame) + ns * sizeof(Value)); fr = f2; if (k->up) k->up->shared = true; }
      int nb = nd->ndst;
      if (nb == n) for (int i = 0; i < n; i++) fr->s[nd->dsts[i]] = vs[i];
      else if (nb == 1) { if (n == 0) fr->s[nd->dsts[0]] = unitV(); else { Obj* r = newObj(O_REC, n); for (int i = 0; i < n; i++) r->f[i] = vs[i]; fr->s[nd->dsts[0]] = VO(r); } }
      else if (n == 1) { Value v = vs[0]; for (int i = 0; i < nb; i++) fr->s[nd->dsts[i]] = field(v, i); }
      else throw Unsupported("return arity");
      st.fr = fr; st.k = k->up; st.pc = nd->next; return; }
    case K_INF: { Node* nd = k->n; Value v = n == 1 ? vs[0] : unitV(), out; Frame* fr = k->fr;
      switch (nd->po) { case P_TEST_INF: if (nd->sz < 64) { if (testConv(false, 64, nd->sz, v, out)) { st.k = k->up; doRaise(exnOverflow); return; } } else out = v; break;
      case P_TRUNC_INF: out = nd->sz < 64 ? conv(P_TRUNC, 64, nd->sz, v) : v; break; default: out = v; }
      if (k->shared) { int ns = nd->fn->nslots; Frame* f2 = (Frame*)aalloc(sizeof(Frame) + ns * sizeof(Value)); memcpy((void*)f2, (void*)fr, sizeof(Frame) + ns * sizeof(Value)); fr = f2; if (k->up) k->up->shared = true; }
      fr->s[nd->dst] = out; st.fr = fr; st.k = k->up; st.pc = nd->next; return; }
    } } }
static Value exnTagOf(Frame* fr, Opr base, const std::vector<int>& path) { Value v = opr(fr, base); for (int i : path) v = field(v, i); return v; }
static bool isBoxed(Value v) { return v.k == V_OBJ || v.k == V_REAL; }

static Value doCon(Frame* fr, Node* n) {
  switch (n->sub) {
  case C_CST: return VI((u64)n->tag); case C_NIL: return VI(0); case C_TRA: { return opr(fr, n->args[0]); }
  case C_REF: { Obj* r = newObj(O_REF, 1); r->f[0] = opr(fr, n->args[0]); return VO(r); }
  case C_EXN: return mkRec({exnTagOf(fr, n->exnBase, *n->exnPath), opr(fr, n->args[0]), nilV()});
  case C_SUS: throw Unsupported("susp");
  default: return mkCon((CR)n->sub, n->tag, opr(fr, n->args[0]));
  } }

// evaluate the condition of a BRANCH as a term (may decide() internally only for safety)
static Term* branchTerm(Frame* fr, Node* n) {
  Value a = n->nargs > 0 ? opr(fr, n->args[0]) : VI(0), b = n->nargs > 1 ? opr(fr, n->args[1]) : VI(0);
  switch (n->po) {
  case P_CMP: return cmpTerm((CO)n->ao, n->nk, n->sz, a, b);
  case P_PTREQL: case P_PTRNEQ: { Term* t; if (a.k == V_OBJ && b.k == V_OBJ) t = bConst(a.p == b.p); else if (a.k == V_OBJ || b.k == V_OBJ) t = bConst(false); else t = mk(B_EQ, TM(a), TM(b)); return n->po == P_PTREQL ? t : tNot(t); }
  case P_POLYEQL: return eqTerm(a, b); case P_POLYNEQ: return tNot(eqTerm(a, b));
  case P_BOXED: return bConst(isBoxed(a)); case P_UNBOXED: return bConst(!isBoxed(a));
  case P_FSGN: { if (a.k == V_REAL) return bConst(std::signbit(R(a))); return mk(B_SLT, TM(a), tConst(0)); }
  default: throw Unsupported("branch prim " + std::to_string(n->po) + (n->txt ? *n->txt : ""));
  } }
// speculative pure evaluation of a small arm ending in RET 1
static bool pureEval(Frame* fr, Node* n, int& fuel, Value& out) {
  for (;;) {
    if (--fuel < 0) return false;
    switch (n->k) {
    case N_RET: { if (n->nargs != 1) return false; out = opr(fr, n->args[0]); return out.k == V_INT || out.k == V_SYM; }
    case N_CON: if (n->sub != C_CST && n->sub != C_NIL && n->sub != C_TRA) return false; fr->s[n->dst] = doCon(fr, n); n = n->next; continue;
    case N_REC: if (n->nargs != 0 || n->sub == 'V') return false; fr->s[n->dst] = unitV(); n = n->next; continue;
    case N_SEL: { Value v = opr(fr, n->args[0]); if (v.k != V_OBJ || O(v)->t != O_REC) return false; fr->s[n->dst] = field(v, n->tag); n = n->next; continue; }
    case N_PRIM: {
      Value v[3]; for (u32 i = 0; i < n->nargs && i < 3; i++) v[i] = opr(fr, n->args[i]);
      for (u32 i = 0; i < n->nargs && i < 3; i++) if (n->po != P_LENGTH && n->po != P_CAST && v[i].k != V_INT && v[i].k != V_SYM) return false;
      switch (n->po) {
      case P_PURE: if (n->nk == 'F') return false; if ((n->ao == A_QUOT || n->ao == A_REM)) { if (v[1].k != V_INT || v[1].p == 0) return false; } fr->s[n->dst] = pureArith((AO)n->ao, n->nk, n->sz, v); break;
      case P_TRUNC: case P_EXTEND: case P_COPY: fr->s[n->dst] = conv((PO)n->po, n->sz, n->sz2, v[0]); break;
      case P_CAST: fr->s[n->dst] = v[0]; break;
      case P_LENGTH: if (v[0].k != V_OBJ) return false; fr->s[n->dst] = VI(O(v[0])->len); break;
      case P_IARITH: { if (n->ao != A_ADD && n->ao != A_SUB && n->ao != A_NEG) return false; if (n->sz != 63) return false; Rng x = rangeOf(TM(v[0])), y = n->ao == A_NEG ? Rng{0,0} : rangeOf(TM(v[1])); const i64 B = 1ll << 60; if (x.lo < -B || x.hi > B || y.lo < -B || y.hi > B) return false;
        Value o; if (iarith((AO)n->ao, n->sz, v[0], v[1], o)) return false; fr->s[n->dst] = o; break; }
      default: return false; }
      n = n->next; continue; }
    case N_BRANCH: { if (n->po != P_CMP || n->nk == 'F') return false; Value a = opr(fr, n->args[0]), b = opr(fr, n->args[1]); if ((a.k != V_INT && a.k != V_SYM) || (b.k != V_INT && b.k != V_SYM)) return false;
      Term* c = cmpTerm((CO)n->ao, n->nk, n->sz, a, b); int r = evalRange(c); if (r >= 0) { n = r ? n->next : n->alt; continue; }
      Value x, y; if (!pureEval(fr, n->next, fuel, x) || !pureEval(fr, n->alt, fuel, y)) return false; out = VT(tIte(c, TM(x), TM(y))); return true; }
    default: return false;
    } } }
static bool mergeOn = true; struct Wit { std::string c; std::vector<std::string> vals; }; static std::vector<Wit> wits; static u64 nUnsup = 0; static std::set<std::string> unsup;

static void runLoop() {
  while (st.pc) {
    Node* n = st.pc; Frame* fr = st.fr; nSteps++;
    if (exploring && ++pathSteps > maxPathSteps) { nStepLimit++; if (stepLimitVals.empty()) stepLimitVals = modelVals(model); markIncomplete("path step limit at " + where()); throw PathEnd(); }
    if ((nSteps & 0xfffff) == 0 && now() - t0 > timeLimit) { markIncomplete("time limit"); throw StopAll(); }
    switch (n->k) {
    case N_RET: { Value vs[64]; if (n->nargs > 64) throw Unsupported("RET arity"); for (u32 i = 0; i < n->nargs; i++) vs[i] = opr(fr, n->args[i]); doReturn(vs, n->nargs); break; }
    case N_LET: { K* k = (K*)aalloc(sizeof(K)); k->k = K_LET; k->shared = false; k->n = n; k->fr = fr; k->up = st.k; st.k = k; st.pc = n->alt; break; }
    case N_FIX: {
      size_t m = n->fns->size();
      for (size_t i = 0; i < m; i++) { Fn* f = (*n->fns)[i]; Obj* o = newObj(O_CLO, f->caps.size(), (u64)f); fr->s[n->dsts[i]] = VO(o); }
      for (size_t i = 0; i < m; i++) { Fn* f = (*n->fns)[i]; Obj* o = O(fr->s[n->dsts[i]]); for (size_t j = 0; j < f->caps.size(); j++) o->f[j] = opr(fr, f->caps[j]); }
      st.pc = n->next; break; }
    case N_APP: { Value a[64]; Value f = opr(fr, n->args[0]); int m = n->nargs - 1; if (m > 64) throw Unsupported("arity"); for (int i = 0; i < m; i++) a[i] = opr(fr, n->args[i + 1]); applyFn(f, a, m); break; }
    case N_TAPP: { Value f = opr(fr, n->args[0]); applyFn(f, nullptr, 0); break; }
    case N_REC: { if (n->nargs == 0 && n->sub != 'V') fr->s[n->dst] = unitV(); else { Obj* o = newObj(n->sub == 'V' ? O_VEC : O_REC, n->nargs); for (u32 i = 0; i < n->nargs; i++) o->f[i] = opr(fr, n->args[i]); fr->s[n->dst] = VO(o); } st.pc = n->next; break; }
    case N_SEL: fr->s[n->dst] = field(opr(fr, n->args[0]), n->tag); st.pc = n->next; break;
    case N_CON: fr->s[n->dst] = doCon(fr, n); st.pc = n->next; break;
    case N_RAISE: doRaise(opr(fr, n->args[0])); break;
    case N_HANDLE: { Obj* h = newObj(O_HDLR, 2, (u64)st.k); h->f[0] = opr(fr, n->args[0]); h->f[1] = st.hdlr; K* k = (K*)aalloc(sizeof(K)); k->k = K_HDL; k->shared = false; k->hd = st.hdlr; k->up = st.k; k->n = nullptr; k->fr = nullptr; st.k = k; st.hdlr = VO(h); st.pc = n->next; break; }
    case N_SWITCH: {
      Value v = norm(opr(fr, n->args[0])); Node* target = nullptr;
      for (auto& a : *n->arms) {
        bool m = false;
        switch (a.ck) {
        case 'I': if (v.k == V_INT) m = v.p == a.iv; else m = decide(mk(B_EQ, TM(v), tConst(a.iv))); break;
        case 'S': m = decide(eqTerm(v, a.str)); break;
        case 'L': m = O(v)->len == a.iv; break;
        case 'D':
          switch (a.cr) {
          case C_CST: case C_NIL: if (v.k == V_INT) m = v.p == (u64)a.tag; else if (v.k == V_SYM) m = decide(mk(B_EQ, TM(v), tConst((u64)a.tag))); else m = false; break;
          case C_TRA: m = n->arms->size() == 1 && !n->dflt ? true : isBoxed(v) ; if (m) fr->s[a.bind] = v; break;
          case C_UNT: m = v.k == V_OBJ; if (m) { if (O(v)->t != O_CON) throw Unsupported("UNT switch on " + showVal(v)); fr->s[a.bind] = O(v)->f[0]; } break;
          case C_CONS: m = v.k == V_OBJ; if (m) fr->s[a.bind] = O(v)->f[0]; break;
          case C_TAG: m = v.k == V_OBJ && O(v)->t == O_CON && O(v)->aux == (((u64)C_TAG << 32) | (u32)a.tag); if (m) fr->s[a.bind] = O(v)->f[0]; break;
          case C_REF: m = true; if (v.k != V_OBJ || O(v)->t != O_REF) throw Unsupported("REF switch"); fr->s[a.bind] = O(v)->f[0]; break;
          case C_EXN: m = field(v, 0).p == exnTagOf(fr, a.exnBase, a.exnPath).p; if (m) fr->s[a.bind] = field(v, 1); break;
          default: throw Unsupported("switch conrep"); } break;
        }
        if (m) { target = a.body; break; } }
      if (!target) target = n->dflt; if (!target) throw Unsupported("switch fell through: " + showVal(v) + " at " + where());
      st.pc = target; break; }
    case N_BRANCH: {
      bool t;
      if (n->po == P_CMP && n->nk != 'F') { Value a = opr(fr, n->args[0]), b = opr(fr, n->args[1]); if (a.k == V_INT && b.k == V_INT) { st.pc = cmpConc((CO)n->ao, n->nk, n->sz, a, b) ? n->next : n->alt; break; } }
      Term* c = branchTerm(fr, n);
      int r = evalRange(c);
      if (r >= 0) t = r;
      else {
        if (mergeOn) { int fuel = 24; Value x, y; if (pureEval(fr, n->next, fuel, x) && pureEval(fr, n->alt, fuel, y)) { Value res = VT(tIte(c, TM(x), TM(y))); nMerged++; doReturn(&res, 1); break; } }
        t = decide(c); }
      st.pc = t ? n->next : n->alt; break; }
    case N_PRIM: {
      Value v[4]; u32 na = n->nargs; if (na > 4) throw Unsupported("prim arity"); for (u32 i = 0; i < na; i++) v[i] = opr(fr, n->args[i]);
      Value& d = fr->s[n->dst];
      switch (n->po) {
      case P_IARITH: { Value o; if (iarith((AO)n->ao, n->sz, v[0], v[1], o)) { doRaise(exnOverflow); continue; } d = o; break; }
      case P_PURE: d = pureArith((AO)n->ao, n->nk, n->sz, v); break;
      case P_TESTU: case P_TEST: { Value o; if (testConv(n->po == P_TESTU, n->sz, n->sz2, v[0], o)) { doRaise(exnOverflow); continue; } d = o; break; }
      case P_TRUNC: case P_EXTEND: case P_COPY: d = conv((PO)n->po, n->sz, n->sz2, v[0]); break;
      case P_TEST_INF: case P_TRUNC_INF: case P_EXTEND_INF: case P_COPY_INF: {
        Value a = v[0]; if (n->po == P_EXTEND_INF) a = conv(P_EXTEND, n->sz, 64, a); else if (n->po == P_COPY_INF) a = conv(P_COPY, n->sz, 64, a);
        K* k = (K*)aalloc(sizeof(K)); k->k = K_INF; k->shared = false; k->n = n; k->fr = fr; k->up = st.k; st.k = k; applyFn(v[1], &a, 1); continue; }
      case P_FLOOR: d = VI(canon((u64)(i64)floor(R(v[0])), n->sz2)); break;
      case P_ROUND: d = VI(canon((u64)(i64)nearbyint(R(v[0])), n->sz2)); break;
      case P_INT_TO_REAL: { Value a = norm(v[0]); if (a.k == V_SYM) d = VT(mk(T_I2F, sgn(TM(a), n->sz))); else d = VR((double)sgnC(a.p, n->sz)); break; }
      case P_NUMSUB: case P_NUMSUBV: case P_SUBSCRIPT: case P_SUBSCRIPTV: case P_SUBSCRIPT_REC: case P_SUBSCRIPT_RAW64: if (v[0].k != V_OBJ) throw Unsupported("subscript of non-object"); d = readIdx(O(v[0]), v[1]); break;
      case P_NUMUPD: case P_UPDATE: case P_UNBOXEDUPDATE: writeIdx(O(v[0]), v[1], v[2]); d = unitV(); break;
      case P_LENGTH: { if (v[0].k != V_OBJ) throw Unsupported("length"); d = VI(O(v[0])->len); break; }
      case P_OBJLENGTH: d = VI(v[0].k == V_OBJ ? O(v[0])->len : 0); break;
      case P_CAST: d = v[0]; break;
      case P_GETHDLR: d = st.hdlr; break; case P_SETHDLR: st.hdlr = v[0]; d = unitV(); break;
      case P_GETVAR: d = st.var; break; case P_SETVAR: st.var = v[0]; d = unitV(); break;
      case P_MAKEREF: { Obj* r = newObj(O_REF, 1); r->f[0] = v[0]; d = VO(r); break; }
      case P_DEREF: if (v[0].k != V_OBJ || O(v[0])->t != O_REF) throw Unsupported("deref " + showVal(v[0])); d = O(v[0])->f[0]; break;
      case P_ASSIGN: case P_UNBOXEDASSIGN: if (v[0].k != V_OBJ || O(v[0])->t != O_REF) throw Unsupported("assign"); trailSet(&O(v[0])->f[0], v[1]); d = unitV(); break;
      case P_CALLCC: case P_CAPTURE: { // continuation of this primop: bind dst, go on
        K* k = (K*)aalloc(sizeof(K)); k->k = K_INF; k->shared = true; k->n = n; k->fr = fr; k->up = st.k; st.k = k;
        Obj* c = newObj(O_CONT, 1, (u64)k); c->f[0] = n->po == P_CALLCC ? st.hdlr : Value{0, V_NONE, 0}; Value a = VO(c); applyFn(v[0], &a, 1); continue; }
      case P_THROW: d = v[0]; break;
      case P_ISOLATE: { Obj* o = newObj(O_ISO, 1); o->f[0] = v[0]; d = VO(o); break; }
      case P_MARKEXN: d = v[0]; break;
      case P_MKETAG: { Obj* r = newObj(O_REF, 1); r->f[0] = v[0]; d = VO(r); break; }
      case P_NEW_ARRAY0: d = VO(newObj(O_ARR, 0)); break;
      case P_GET_SEQ_DATA: d = v[0]; break;
      case P_REAL_TO_BITS: d = v[0].k == V_SYM ? v[0] : VI(v[0].p); break;
      case P_BITS_TO_REAL: if (v[0].k == V_SYM) d = v[0]; else { d = v[0]; d.k = V_REAL; } break;
      case P_MKSPECIAL: { Obj* o = newObj(O_SPECIAL, 1, v[0].p); o->f[0] = v[1]; d = VO(o); break; }
      case P_GETSPECIAL: d = VI(O(v[0])->aux); break;
      case P_SETSPECIAL: { Obj* o = O(v[0]); o->aux = v[1].p; d = unitV(); break; }
      case P_PTR_TO_WORD: case P_WORD_TO_PTR: d = v[0]; break;
      case P_HOST_WORD_SIZE: d = VI(64); break;
      case P_HOST_BIG_ENDIAN: d = VI(0); break;
      case P_GETTAG: { if (v[0].k != V_OBJ) { d = VI(0); break; } switch (O(v[0])->t) { case O_STR: d = VI(0x82); break; default: d = VI(2); } break; }
      case P_BOXED: d = VI(isBoxed(v[0])); break; case P_UNBOXED: d = VI(!isBoxed(v[0])); break;
      default: throw Unsupported("primop " + std::to_string(n->po) + " " + (n->txt ? *n->txt : ""));
      }
      st.pc = n->next; break; }
    }
  } }

static void startApply(Value f, Value a) {
  K* k = (K*)aalloc(sizeof(K)); k->k = K_HALT; k->shared = false; k->up = nullptr; k->n = nullptr; k->fr = nullptr; halted = false;
  st.pc = nullptr; st.fr = nullptr; st.k = k; st.hdlr = VI(0); applyFn(f, &a, 1); }
static Value runFn(Value f, Value a) { startApply(f, a); runLoop(); return haltVal; }

static std::map<std::string, Value> dynEnv;
static Value natClo(int id) { return VO(newObj(O_NAT, 0, id)); }
static Value mkRef(Value v) { Obj* r = newObj(O_REF, 1); r->f[0] = v; return VO(r); }
static Value assembly() {
  Obj* a = newObj(O_REC, 12); for (int i = 0; i < 12; i++) a->f[i] = natClo(i);
  Value tDiv = mkRef(mkStr("Div")), tOv = mkRef(mkStr("Overflow")), tSys = mkRef(mkStr("SysErr"));
  exnOverflow = mkRec({tOv, unitV(), nilV()}); exnDiv = mkRec({tDiv, unitV(), nilV()}); tagSysErr = tSys;
  Value in = mkRec({VO(a), tDiv, tOv, tSys, mkRef(VI(0)), mkRef(VI(0)), mkRef(VI(0)), mkRef(VI(0)), mkRef(VI(0)), mkRef(VI(0)), mkRef(VI(0)), VO(newObj(O_VEC, 0))});
  return mkRec({in}); }
static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

int main(int argc, char** argv) {
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (!getenv("FLSYM_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (rlim_t)4 << 30 : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("FLSYM_STACK", "1", 1); execv("/proc/self/exe", argv); }
  std::string dir, entry, out; bool verbose = false, list = false; size_t arenaGB = 24; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--time") timeLimit = atof(argv[++i]); else if (a == "--steps") maxPathSteps = atoll(argv[++i]); else if (a == "--paths") maxPaths = atoll(argv[++i]);
    else if (a == "--shard") { sscanf(argv[++i], "%d/%d", &shardI, &shardN); } else if (a == "--shard-depth") shardDepth = atoi(argv[++i]); else if (a == "--qtimeout") qTimeout = atoi(argv[++i]); else if (a == "--max-viol") maxViol = atoi(argv[++i]); else if (a == "--arena-gb") arenaGB = atoi(argv[++i]);
    else if (a == "-v") verbose = true; else if (a == "--list") list = true; else if (a == "--tier") tierOpt = atoi(argv[++i]); else if (a == "--no-merge") mergeOn = false; else dir = a; }
  t0 = now();
  arena = (char*)mmap(0, arenaGB << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (arena == MAP_FAILED) { perror("mmap"); return 3; } ap = arena; arenaEnd = arena + (arenaGB << 30);
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg); Z3_set_error_handler(Z, z3err);
  S = mkSolver();
  initTabs(); std::string status = "ok", err;
  try {
    for (int i = 0;; i++) { char b[32]; snprintf(b, 32, "/%05d.fl", i); std::string f = dir + b; if (access(f.c_str(), R_OK)) break; loadUnit(f); }
    if (units.empty()) throw Unsupported("no units in " + dir);
    if (verbose) fprintf(stderr, "loaded %zu units, %zu fns, %u nodes in %.2fs\n", units.size(), allFns.size(), nodeCount, now() - t0);
    for (auto& u : units) {
      const std::string& s = u.src; Value exp;
      if (s.size() > 15 && s.substr(s.size() - 15) == "/init/dummy.sml") exp = assembly();
      else {
        std::vector<Value> leaves; for (auto& im : u.imports) { auto it = dynEnv.find(im.first); if (it == dynEnv.end()) throw Unsupported("missing import " + im.first + " in " + s); for (auto& p : im.second) { Value v = it->second; for (int i : p) v = field(v, i); leaves.push_back(v); } }
        Value arg; if (leaves.empty()) arg = unitV(); else { Obj* o = newObj(O_REC, leaves.size()); for (size_t i = 0; i < leaves.size(); i++) o->f[i] = leaves[i]; arg = VO(o); }
        Obj* c = newObj(O_CLO, 0, (u64)u.fn);
        try { exp = runFn(VO(c), arg); } catch (Unsupported& e) { throw Unsupported(std::string(e.what()) + " [linking " + s + "]"); } }
      if (u.exp != "-") dynEnv[u.exp] = exp; }
    if (verbose) fprintf(stderr, "linked: %llu steps, arena %.1f MB, %.2fs\n", (unsigned long long)nSteps, (ap - arena) / 1e6, now() - t0);
    if (list) { for (auto& e : entries) printf("%s\n", e.first.c_str()); return 0; }
    Value f = VI(0); for (auto& e : entries) if (e.first == entry) f = e.second;
    if (f.k != V_OBJ) throw Unsupported("no entry " + entry);
    exploring = true; nSteps = 0; for (Fn* x : allFns) { x->hit = false; x->calls = 0; }
    bool first = true;
    for (;;) {
      newCov.clear();
      try {
        if (first) { first = false; startApply(f, unitV()); }
        runLoop(); nPaths++;
        if (!newCov.empty()) { if (wits.size() < 6) { std::string c; for (auto& x : newCov) c += (c.empty() ? "" : ",") + x; wits.push_back({c, modelVals(model)}); } newCov.clear(); }
      } catch (PathKill&) { nKilled++; } catch (PathEnd&) { nPaths++; }
      catch (Unsupported& e) { nUnsup++; if (unsup.size() < 20) unsup.insert(std::string(e.what()) + " @ " + where()); markIncomplete(std::string("unsupported: ") + e.what() + " @ " + where()); }
      if (nPaths >= maxPaths) { markIncomplete("path limit"); break; }
      if (!backtrack()) break;
      if (now() - t0 > timeLimit) { markIncomplete("time limit"); break; }
    }
  } catch (StopAll&) {} catch (Unsupported& e) { status = "error"; err = e.what(); if (exploring) { err += " @ " + where(); } } catch (std::exception& e) { status = "error"; err = e.what(); }
  if (status == "ok") { if (!viols.empty()) status = "violation"; else if (incomplete) status = "incomplete"; }
  std::string j = "{\n \"entry\":" + jstr(entry) + ",\n \"status\":" + jstr(status) + ",\n \"error\":" + jstr(err) + ",\n \"incomplete\":" + jstr(incompleteWhy);
  auto num = [&](const char* k, double v) { char b[80]; snprintf(b, 80, ",\n \"%s\":%.15g", k, v); j += b; };
  num("paths", nPaths); num("assumed_away", nKilled); num("forks", nForks); num("merged", nMerged); num("queries", nQueries); num("sat", nSat); num("unsat", nUnsat); num("unknown", nUnknown); num("oneshot", nReplayQ); num("cache_hits", nCacheHit); num("solver_s", solverTime); num("max_query_s", maxQuery); num("steps", nSteps); num("step_limit_paths", nStepLimit); num("wall_s", now() - t0); num("terms", gTermCount); num("arena_mb", std::max<double>(arenaPeak, ap - arena) / 1e6);
  num("unsupported_paths", nUnsup); j += ",\n \"unsupported\":["; { bool c0 = true; for (auto& u : unsup) { j += (c0 ? "" : ",") + jstr(u); c0 = false; } } j += "]";
  j += ",\n \"covers\":{"; bool c1 = true; for (auto& c : covers) { j += (c1 ? "" : ",") + jstr(c.first) + ":" + std::to_string(c.second); c1 = false; } j += "}";
  j += ",\n \"violations\":["; c1 = true; for (auto& v : viols) { j += (c1 ? "" : ",") + std::string("{\"msg\":") + jstr(v.msg) + ",\"where\":" + jstr(v.where) + ",\"values\":["; bool c2 = true; for (auto& x : v.vals) { j += (c2 ? "" : ",") + x; c2 = false; } j += "]}"; c1 = false; } j += "]";
  j += ",\n \"witnesses\":["; c1 = true; for (auto& v : wits) { j += (c1 ? "" : ",") + std::string("{\"cover\":") + jstr(v.c) + ",\"values\":["; bool c2 = true; for (auto& x : v.vals) { j += (c2 ? "" : ",") + x; c2 = false; } j += "]}"; c1 = false; } j += "]";
  if (!stepLimitVals.empty()) { j += ",\n \"step_limit_values\":["; bool c2 = true; for (auto& x : stepLimitVals) { j += (c2 ? "" : ",") + x; c2 = false; } j += "]"; }
  std::map<std::string, std::set<std::string>> fs; for (Fn* f : allFns) if (f->hit && f->name != "tfn") fs[units[f->unit].src].insert(f->name);
  j += ",\n \"functions\":{"; c1 = true; for (auto& f : fs) { j += (c1 ? "" : ",") + jstr(f.first) + ":["; bool c2 = true; for (auto& x : f.second) { j += (c2 ? "" : ",") + jstr(x); c2 = false; } j += "]"; c1 = false; } j += "}\n}\n";
  if (!out.empty()) { std::ofstream o(out); o << j; }
  if (verbose || out.empty()) { fprintf(stderr, "%s paths=%llu killed=%llu forks=%llu merged=%llu queries=%llu (sat %llu unsat %llu unk %llu cached %llu) solver=%.2fs max=%.2fs steps=%llu wall=%.2fs terms=%llu %s %s\n", status.c_str(), (unsigned long long)nPaths, (unsigned long long)nKilled, (unsigned long long)nForks, (unsigned long long)nMerged, (unsigned long long)nQueries, (unsigned long long)nSat, (unsigned long long)nUnsat, (unsigned long long)nUnknown, (unsigned long long)nCacheHit, solverTime, maxQuery, (unsigned long long)nSteps, now() - t0, (unsigned long long)gTermCount, err.c_str(), incompleteWhy.c_str());
    for (auto& v : viols) { fprintf(stderr, "  VIOL %s  [%s] vals:", v.msg.c_str(), v.where.c_str()); for (auto& x : v.vals) fprintf(stderr, " %s", x.c_str()); fprintf(stderr, "\n"); }
    for (auto& c : covers) fprintf(stderr, "  cover %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
    if (verbose) { std::vector<Fn*> v = allFns; std::sort(v.begin(), v.end(), [](Fn* a, Fn* b) { return a->forks > b->forks; }); for (size_t i = 0; i < 12 && i < v.size() && v[i]->forks; i++) fprintf(stderr, "  forks %8llu %s\n", (unsigned long long)v[i]->forks, fnLabel(v[i]).c_str()); } }
  _exit(status == "ok" ? 0 : status == "violation" ? 1 : 2);
}
