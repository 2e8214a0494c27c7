struct FactE { Term* t; int kind; bool had; i64 lo, hi; };   // kind 0 fact, 1 range
static std::vector<FactE> factTrail;
static std::unordered_map<Term*, bool> facts;
struct Rng { i64 lo, hi; };
static std::unordered_map<Term*, Rng> refine;
static std::vector<Term*> pc;            // path condition
static std::vector<int> pathVars;
static std::vector<u64> model;
static Z3_solver S;
static bool exploring = false;
static u64 nSteps, pathSteps, nPaths, nQueries, nSat, nUnsat, nUnknown, nForks, nKilled, nMerged, nReplayQ; static double solverTime, maxQuery;
static u64 maxPathSteps = 20000000, maxPaths = ~0ull; static double timeLimit = 1e9, t0; static unsigned qTimeout = 60000, incTimeout = getenv("FLSYM_INC") ? atoi(getenv("FLSYM_INC")) : 50;
static int shardN = 1, shardI = 0, shardDepth = 8; static u64 pathHash; static int pathDepth; static u64 nShardSkip;
static std::map<std::string, u64> covers; static bool incomplete = false; static std::string incompleteWhy; static u64 nStepLimit;
struct Viol { std::string msg; std::vector<std::string> vals; std::string where; };
static std::vector<Viol> viols; static size_t maxViol = 1; static bool trace = false;
static std::vector<std::string> stepLimitVals; 
static double now() { struct timeval tv; gettimeofday(&tv, 0); return tv.tv_sec + tv.tv_usec * 1e-6; }
static Rng rangeOf(Term* t, int d = 0) {
  Rng r{t->lo, t->hi};
  if (t->op == T_CONST) return r;
  if (d < 5) {
    if (t->op == T_ADD || t->op == T_SUB) { Rng a = rangeOf(t->a, d + 1), b = rangeOf(t->b, d + 1); i64 l, h; bool o = t->op == T_ADD ? __builtin_add_overflow(a.lo, b.lo, &l) | __builtin_add_overflow(a.hi, b.hi, &h) : __builtin_sub_overflow(a.lo, b.hi, &l) | __builtin_sub_overflow(a.hi, b.lo, &h);
      if (!o) { r.lo = std::max(r.lo, l); r.hi = std::min(r.hi, h); } }
    else if (t->op == T_SHL && t->b->op == T_CONST && t->b->k < 62) { Rng a = rangeOf(t->a, d + 1); if (a.lo >= 0 && a.hi <= (IMAX >> t->b->k)) { r.lo = std::max(r.lo, a.lo << t->b->k); r.hi = std::min(r.hi, a.hi << t->b->k); } }
    else if (t->op == T_MUL) { Rng a = rangeOf(t->a, d+1), b = rangeOf(t->b, d+1); i64 p[4]; bool o = __builtin_mul_overflow(a.lo,b.lo,&p[0])|__builtin_mul_overflow(a.lo,b.hi,&p[1])|__builtin_mul_overflow(a.hi,b.lo,&p[2])|__builtin_mul_overflow(a.hi,b.hi,&p[3]); if(!o){ r.lo=std::max(r.lo,*std::min_element(p,p+4)); r.hi=std::min(r.hi,*std::max_element(p,p+4)); } }
    else if (t->op == T_ITE) { auto f = facts.find(t->a); if (f != facts.end()) { Rng q = rangeOf(f->second ? t->b : t->c, d + 1); r.lo = std::max(r.lo, q.lo); r.hi = std::min(r.hi, q.hi); } else { Rng a = rangeOf(t->b, d+1), b = rangeOf(t->c, d+1); r.lo = std::max(r.lo, std::min(a.lo,b.lo)); r.hi = std::min(r.hi, std::max(a.hi,b.hi)); } }
    else if (t->op == T_LSHR && t->b->op == T_CONST && t->b->k < 64) { Rng a = rangeOf(t->a, d+1); if (a.lo >= 0) { r.lo = std::max(r.lo, a.lo >> t->b->k); r.hi = std::min(r.hi, a.hi >> t->b->k); } }
    else if (t->op == T_UDIV && t->b->op == T_CONST && (i64)t->b->k > 0) { Rng a = rangeOf(t->a, d+1); if (a.lo >= 0) { r.lo = std::max(r.lo, a.lo / (i64)t->b->k); r.hi = std::min(r.hi, a.hi / (i64)t->b->k); } }
  }
  auto it = refine.find(t); if (it != refine.end()) { r.lo = std::max(r.lo, it->second.lo); r.hi = std::min(r.hi, it->second.hi); }
  return r; }
static void setRange(Term* t, i64 lo, i64 hi, int d = 0) {
  if (t->op == T_CONST || d > 4) return;
  Rng r = rangeOf(t); lo = std::max(lo, r.lo); hi = std::min(hi, r.hi); if (lo > hi) return; if (lo == r.lo && hi == r.hi) return;
  auto it = refine.find(t); if (it == refine.end()) { factTrail.push_back({t, 1, false, 0, 0}); refine[t] = {lo, hi}; } else { factTrail.push_back({t, 1, true, it->second.lo, it->second.hi}); it->second = {lo, hi}; }
  if (t->op == T_ADD && t->b->op == T_CONST) { i64 c = (i64)t->b->k, l, h, x, y; Rng a = rangeOf(t->a);
    if (!__builtin_add_overflow(a.lo, c, &x) && !__builtin_add_overflow(a.hi, c, &y) && !__builtin_sub_overflow(lo, c, &l) && !__builtin_sub_overflow(hi, c, &h)) setRange(t->a, l, h, d + 1); }
  else if (t->op == T_SUB && t->a->op == T_CONST) { i64 c = (i64)t->a->k, l, h, x, y; Rng a = rangeOf(t->b);
    if (!__builtin_sub_overflow(c, a.lo, &x) && !__builtin_sub_overflow(c, a.hi, &y) && !__builtin_sub_overflow(c, hi, &l) && !__builtin_sub_overflow(c, lo, &h)) setRange(t->b, l, h, d + 1); }
}
static void learn(Term* c, bool v) {
  if (c->op == B_CONST) return;
  if (c->op == B_NOT) { learn(c->a, !v); }
  auto it = facts.find(c); if (it != facts.end()) return;
  facts[c] = v; factTrail.push_back({c, 0, false, 0, 0});
  Term *a = c->a, *b = c->b;
  switch (c->op) {
  case B_AND: if (v) { learn(a, true); learn(b, true); } break;
  case B_OR: if (!v) { learn(a, false); learn(b, false); } break;
  case B_EQ: if (a->isBool()) break; if (v) { Rng x = rangeOf(a), y = rangeOf(b); setRange(a, y.lo, y.hi); setRange(b, x.lo, x.hi); }
    else { if (b->op == T_CONST) { Rng x = rangeOf(a); if (x.lo == (i64)b->k) setRange(a, x.lo + 1, x.hi); else if (x.hi == (i64)b->k) setRange(a, x.lo, x.hi - 1); } } break;
  case B_SLT: { Rng x = rangeOf(a), y = rangeOf(b); if (v) { if (y.hi != IMIN) setRange(a, IMIN, y.hi - 1); if (x.lo != IMAX) setRange(b, x.lo + 1, IMAX); } else { setRange(a, y.lo, IMAX); setRange(b, IMIN, x.hi); }
    if (!facts.count(tNot(c))) { facts[tNot(c)] = !v; factTrail.push_back({tNot(c), 0, false, 0, 0}); } break; }
  case B_SLE: { Rng x = rangeOf(a), y = rangeOf(b); if (v) { setRange(a, IMIN, y.hi); setRange(b, x.lo, IMAX); } else { if (y.lo != IMAX) setRange(a, y.lo + 1, IMAX); if (x.hi != IMIN) setRange(b, IMIN, x.hi - 1); }
    if (!facts.count(tNot(c))) { facts[tNot(c)] = !v; factTrail.push_back({tNot(c), 0, false, 0, 0}); } break; }
  case B_ULT: case B_ULE: { if (v) { Rng y = rangeOf(b); if (y.lo >= 0) setRange(a, 0, c->op == B_ULT ? y.hi - 1 : y.hi); }
    else { Rng x = rangeOf(a); if (x.lo >= 0) setRange(b, 0, x.hi); } break; }
  default: break;
  } }
static int evalRange(Term* c, int d = 0) { // -1 unknown
  if (c->op == B_CONST) return (int)c->k;
  auto it = facts.find(c); if (it != facts.end()) return it->second;
  if (d > 6) return -1;
  switch (c->op) {
  case B_NOT: { int x = evalRange(c->a, d + 1); return x < 0 ? x : !x; }
  case B_AND: { int x = evalRange(c->a, d + 1); if (x == 0) return 0; int y = evalRange(c->b, d + 1); if (y == 0) return 0; return x == 1 && y == 1 ? 1 : -1; }
  case B_OR: { int x = evalRange(c->a, d + 1); if (x == 1) return 1; int y = evalRange(c->b, d + 1); if (y == 1) return 1; return x == 0 && y == 0 ? 0 : -1; }
  case B_EQ: if (c->a->isBool()) return -1; { Rng x = rangeOf(c->a), y = rangeOf(c->b); if (x.hi < y.lo || y.hi < x.lo) return 0; if (x.lo == x.hi && y.lo == y.hi) return x.lo == y.lo; return -1; }
  case B_SLT: { Rng x = rangeOf(c->a), y = rangeOf(c->b); if (x.hi < y.lo) return 1; if (x.lo >= y.hi) return 0; return -1; }
  case B_SLE: { Rng x = rangeOf(c->a), y = rangeOf(c->b); if (x.hi <= y.lo) return 1; if (x.lo > y.hi) return 0; return -1; }
  case B_ULT: { Rng x = rangeOf(c->a), y = rangeOf(c->b); if ((x.lo >= 0 && y.lo >= 0) || (x.hi < 0 && y.hi < 0)) { if (x.hi < y.lo) return 1; if (x.lo >= y.hi) return 0; } else if (x.lo >= 0 && y.hi < 0) return 1; else if (x.hi < 0 && y.lo >= 0) return 0; return -1; }
  case B_ULE: { Rng x = rangeOf(c->a), y = rangeOf(c->b); if ((x.lo >= 0 && y.lo >= 0) || (x.hi < 0 && y.hi < 0)) { if (x.hi <= y.lo) return 1; if (x.lo > y.hi) return 0; } else if (x.lo >= 0 && y.hi < 0) return 1; else if (x.hi < 0 && y.lo >= 0) return 0; return -1; }
  default: return -1;
  } }

static void z3err(Z3_context c, Z3_error_code e) { throw Unsupported(std::string("z3: ") + Z3_get_error_msg(c, e)); }
static void assertT(Term* t) { if (t->op == B_CONST && t->k) return; if (t->op == B_AND) { assertT(t->a); assertT(t->b); return; } pc.push_back(t); }
// exact variable sets, memoised
static std::unordered_map<Term*, std::vector<int>> varSets;
static const std::vector<int>& varsOf(Term* t) {
  auto it = varSets.find(t); if (it != varSets.end()) return it->second;
  std::vector<int> r;
  if (t->op == T_VAR) r.push_back((int)t->k);
  else for (Term* c : {t->a, t->b, t->c}) if (c && c->vars) { const std::vector<int>& x = varsOf(c); std::vector<int> m; std::set_union(r.begin(), r.end(), x.begin(), x.end(), std::back_inserter(m)); r.swap(m); }
  return varSets.emplace(t, std::move(r)).first->second; }
static std::unordered_map<Term*, Z3_ast> proxies; static u64 nResets, nCacheHit;
static Z3_solver mkSolver() {
  Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, getenv("FLSYM_LOGIC") ? getenv("FLSYM_LOGIC") : "QF_BV")); Z3_solver_inc_ref(Z, s);
  Z3_params ps = Z3_mk_params(Z); Z3_params_inc_ref(Z, ps); Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "timeout"), std::min(qTimeout, incTimeout)); Z3_solver_set_params(Z, s, ps); Z3_params_dec_ref(Z, ps); return s; }
static Z3_ast varConstraint(int v) { VarInfo& vi = gVars[v]; if (vi.width < 64 ? vi.maxv == (1ull << vi.width) - 1 : true) return nullptr;
  Z3_ast nn = Z3_mk_unsigned_int64(Z, vi.maxv, Z3_mk_bv_sort(Z, vi.width)); Z3_inc_ref(Z, nn); Z3_ast c = Z3_mk_bvule(Z, vi.z, nn); Z3_inc_ref(Z, c); Z3_dec_ref(Z, nn); return c; }
static std::vector<char> varAsserted;
static Z3_ast proxyOf(Term* t) {
  auto it = proxies.find(t); if (it != proxies.end()) return it->second;
  for (int v : varsOf(t)) { if ((size_t)v >= varAsserted.size()) varAsserted.resize(v + 1, 0); if (!varAsserted[v]) { varAsserted[v] = 1; Z3_ast c = varConstraint(v); if (c) { Z3_solver_assert(Z, S, c); Z3_dec_ref(Z, c); } } }
  char nm[32]; snprintf(nm, 32, "p%u", t->id); Z3_ast p = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bool_sort(Z)); Z3_inc_ref(Z, p);
  Z3_ast im = Z3_mk_implies(Z, p, toZ3(t)); Z3_inc_ref(Z, im); Z3_solver_assert(Z, S, im); Z3_dec_ref(Z, im);
  proxies[t] = p; return p; }
static void resetSolver() { Z3_solver_dec_ref(Z, S); S = mkSolver(); for (auto& p : proxies) Z3_dec_ref(Z, p.second); proxies.clear(); varAsserted.assign(gVars.size(), 0); nResets++; }
static void readModel(Z3_solver s, const std::vector<int>& vars, std::vector<u64>& m) {
  Z3_model mo = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, mo); m = model; m.resize(gVars.size(), 0);
  for (int v : vars) { Z3_ast r = nullptr; if (Z3_model_eval(Z, mo, gVars[v].z, true, &r) && r) { Z3_inc_ref(Z, r); u64 x = 0; Z3_get_numeral_uint64(Z, r, &x); m[v] = x; Z3_dec_ref(Z, r); } }
  Z3_model_dec_ref(Z, mo); }
struct QRes { int r; std::vector<std::pair<int, u64>> m; };
struct VecH { size_t operator()(const std::vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 31; } return h; } };
static std::unordered_map<std::vector<u32>, QRes, VecH> qcache;
// the constraints transitively sharing variables with the query
static int checkWith(Term* extra, std::vector<u64>& m) { // 1 sat 0 unsat -1 unknown
  double a = now(); nQueries++;
  if (extra->op == B_CONST) { if (!extra->k) { nUnsat++; return 0; } m = model; nSat++; return 1; }
  std::set<int> vs(varsOf(extra).begin(), varsOf(extra).end()); std::vector<char> in(pc.size(), 0); std::vector<Term*> slice; bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { const std::vector<int>& x = varsOf(pc[i]); bool hit = false; for (int v : x) if (vs.count(v)) { hit = true; break; } if (hit) { in[i] = 1; ch = true; slice.push_back(pc[i]); vs.insert(x.begin(), x.end()); } } }
  std::vector<u32> key; for (Term* t : slice) key.push_back(t->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end()); key.push_back(extra->id);
  auto it = qcache.find(key);
  if (it != qcache.end()) { nCacheHit++; if (it->second.r == 1) { m = model; m.resize(gVars.size(), 0); for (auto& p : it->second.m) m[p.first] = p.second; nSat++; } else if (it->second.r == 0) nUnsat++; else nUnknown++; solverTime += now() - a; return it->second.r; }
  std::vector<int> vv(vs.begin(), vs.end());
  if (proxies.size() > 4000) resetSolver();
  std::vector<Z3_ast> as; as.push_back(proxyOf(extra)); for (Term* t : slice) as.push_back(proxyOf(t));
  Z3_lbool r = Z3_solver_check_assumptions(Z, S, as.size(), as.data());
  if (r == Z3_L_TRUE) { readModel(S, vv, m); // the incremental solver may be unreliable after an interrupted query: check its model
    newEvalEpoch(); bool ok = evalTerm(extra, m) != 0; for (size_t i = 0; ok && i < slice.size(); i++) ok = evalTerm(slice[i], m) != 0; newEvalEpoch(); if (!ok) r = Z3_L_UNDEF; }
  if (r == Z3_L_UNDEF) { resetSolver(); // retry with a fresh one-shot solver over the same constraints
    Z3_tactic tq = Z3_mk_tactic(Z, "qfbv"); Z3_tactic_inc_ref(Z, tq); Z3_solver s2 = Z3_mk_solver_from_tactic(Z, tq); Z3_solver_inc_ref(Z, s2);
    Z3_params ps = Z3_mk_params(Z); Z3_params_inc_ref(Z, ps); Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "timeout"), qTimeout); Z3_solver_set_params(Z, s2, ps); Z3_params_dec_ref(Z, ps);
    for (int v : vv) { Z3_ast c = varConstraint(v); if (c) Z3_solver_assert(Z, s2, c); }
    for (Term* t : slice) Z3_solver_assert(Z, s2, toZ3(t)); Z3_solver_assert(Z, s2, toZ3(extra)); r = Z3_solver_check(Z, s2); if (r == Z3_L_TRUE) readModel(s2, vv, m); Z3_solver_dec_ref(Z, s2); Z3_tactic_dec_ref(Z, tq); nReplayQ++; }
  double dt = now() - a; solverTime += dt; if (dt > maxQuery) maxQuery = dt;
  QRes q; q.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; if (q.r == 1) for (int v : vv) q.m.push_back({v, m[v]});
  qcache[key] = q;
  if (q.r == 1) nSat++; else if (q.r == 0) nUnsat++; else nUnknown++;
  return q.r; }
static void setModel(const std::vector<u64>& m) { model = m; newEvalEpoch(); }
static void markIncomplete(const std::string& w) { incomplete = true; if (incompleteWhy.empty()) incompleteWhy = w; }
