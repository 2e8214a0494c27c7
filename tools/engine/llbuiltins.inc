// builtin functions of llsym: the harness interface, allocation, block memory operations, intrinsics
enum BI { BI_RANGE, BI_BITS, BI_CHOOSE, BI_ASSUME, BI_ASSERT, BI_COVER, BI_TIER, BI_CONCRETE, BI_STOP, BI_FAIL, BI_ITE, BI_SHOW, BI_BYTES, BI_VALID, BI_ISSYM, BI_ENDPATH, BI_MINE,
  BI_MALLOC, BI_CALLOC, BI_REALLOC, BI_FREE, BI_MEMALIGN, BI_MMAP, BI_MUNMAP, BI_MEMCPY, BI_MEMMOVE, BI_MEMSET, BI_ERRNO, BI_ABORT, BI_EXIT, BI_NOP, BI_ZERO,
  BI_EXPECT, BI_VASTART, BI_VACOPY, BI_OBJSIZE, BI_BSWAP, BI_CTPOP, BI_CTLZ, BI_CTTZ, BI_SADDO, BI_UADDO, BI_SSUBO, BI_USUBO, BI_SMULO, BI_UMULO, BI_ABS, BI_SMAX, BI_SMIN, BI_UMAX, BI_UMIN, BI_FABS, BI_FUN1, BI_STACKSAVE, BI_TRAP, BI_FSHL, BI_FSHR, BI_USUBSAT, BI_FMULADD };
static u64 errnoAddr;
static void initBuiltins() {
  auto& t = builtinTab;
  t["sym_range"] = BI_RANGE; t["sym_bits"] = BI_BITS; t["sym_choose"] = BI_CHOOSE; t["sym_assume"] = BI_ASSUME; t["sym_assert_"] = BI_ASSERT; t["sym_cover"] = BI_COVER; t["sym_tier"] = BI_TIER; t["sym_concrete"] = BI_CONCRETE; t["sym_stop"] = BI_STOP; t["sym_fail"] = BI_FAIL; t["sym_ite"] = BI_ITE; t["sym_show"] = BI_SHOW; t["sym_bytes"] = BI_BYTES; t["sym_valid"] = BI_VALID; t["sym_is_symbolic"] = BI_ISSYM; t["sym_end"] = BI_ENDPATH;
  t["malloc"] = BI_MALLOC; t["calloc"] = BI_CALLOC; t["realloc"] = BI_REALLOC; t["free"] = BI_FREE; t["memalign"] = t["aligned_alloc"] = BI_MEMALIGN; t["mmap"] = t["mmap64"] = BI_MMAP; t["munmap"] = BI_MUNMAP;
  t["memcpy"] = t["llvm.memcpy"] = t["llvm.memcpy.inline"] = t["__memcpy_chk"] = BI_MEMCPY; t["memmove"] = t["llvm.memmove"] = t["__memmove_chk"] = BI_MEMMOVE; t["memset"] = t["llvm.memset"] = t["__memset_chk"] = BI_MEMSET; t["__errno_location"] = BI_ERRNO;
  t["abort"] = BI_ABORT; t["exit"] = t["_exit"] = t["_Exit"] = BI_EXIT; t["llvm.trap"] = BI_TRAP;
  for (const char* s : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.va_end", "llvm.dbg.declare", "llvm.dbg.value", "llvm.dbg.label", "llvm.dbg.assign", "llvm.stackrestore", "llvm.donothing", "llvm.prefetch", "llvm.experimental.noalias.scope.decl"}) t[s] = BI_NOP;
  for (const char* s : {"fflush", "fclose", "setvbuf", "setbuf", "puts", "putchar", "fputs", "fputc", "putc", "perror", "printf", "fprintf", "vfprintf", "vprintf", "fwrite_", "setlinebuf", "mprotect", "madvise"}) t[s] = BI_ZERO;
  t["llvm.expect"] = t["llvm.expect.with.probability"] = BI_EXPECT; t["llvm.va_start"] = BI_VASTART; t["llvm.va_copy"] = BI_VACOPY; t["llvm.objectsize"] = BI_OBJSIZE; t["llvm.bswap"] = BI_BSWAP; t["llvm.ctpop"] = BI_CTPOP; t["llvm.ctlz"] = BI_CTLZ; t["llvm.cttz"] = BI_CTTZ;
  t["llvm.sadd.with.overflow"] = BI_SADDO; t["llvm.uadd.with.overflow"] = BI_UADDO; t["llvm.ssub.with.overflow"] = BI_SSUBO; t["llvm.usub.with.overflow"] = BI_USUBO; t["llvm.smul.with.overflow"] = BI_SMULO; t["llvm.umul.with.overflow"] = BI_UMULO;
  t["llvm.abs"] = BI_ABS; t["llvm.smax"] = BI_SMAX; t["llvm.smin"] = BI_SMIN; t["llvm.umax"] = BI_UMAX; t["llvm.umin"] = BI_UMIN; t["llvm.fabs"] = t["fabs"] = BI_FABS; t["llvm.stacksave"] = BI_STACKSAVE; t["llvm.fshl"] = BI_FSHL; t["llvm.fshr"] = BI_FSHR; t["llvm.usub.sat"] = BI_USUBSAT; t["llvm.fmuladd"] = BI_FMULADD;
  for (const char* s : {"sqrt", "sin", "cos", "exp", "log", "atan", "floor", "ceil", "llvm.floor", "llvm.ceil", "llvm.sqrt", "pow"}) t[s] = BI_FUN1;
  errnoAddr = 0x5f0000; newRegion(errnoAddr, 8, RK_MISC, 0, "errno"); }
static void initExternGlobal(const std::string& n, u64 a) { Region* r = findRegion(a); if (n == "stdin" || n == "stdout" || n == "stderr") memWrite(a, 8, VC(0x5e0000 + (n == "stdin" ? 0 : n == "stdout" ? 16 : 32))); }
static u64 heapAlloc(u64 sz, int fill, u64 al = 16) { if (sz > (1ull << 40)) return 0; heapNext = (heapNext + al - 1) & ~(al - 1); u64 a = heapNext; heapNext += ((sz + 15) & ~15ull) + 48; newRegion(a, sz, RK_HEAP, fill, "malloc block"); return a; }
static void setAlive(Region* r, bool v) { if (!choices.empty()) { TrailE e; e.a = nullptr; e.flag = &r->alive; e.old.c = r->alive; trail.push_back(e); } r->alive = v; }
static void unmap(u64 a, u64 n) { u64 e = a + n;
  std::vector<Region*> hit; for (auto& p : regs) { Region* r = p.second; if (r->kind == RK_MMAP && r->alive && r->base < e && r->base + r->size > a) hit.push_back(r); }
  for (Region* r : hit) { u64 b0 = r->base, e0 = r->base + r->size; 
    if (b0 >= a && e0 <= e) { setAlive(r, false); continue; }
    // keep the parts outside [a,e): fresh regions holding the old contents
    struct Part { u64 b, n; std::vector<std::pair<u64, Cell>> cs; }; std::vector<Part> parts;
    auto keepPart = [&](u64 b, u64 x) { Part p{b, x - b, {}}; for (u64 q = b; q < x; q += 8 * PGC) { } for (size_t pg = 0; pg < r->pages.size(); pg++) if (r->pages[pg]) for (u32 i = 0; i < PGC; i++) { u64 ad = r->base + (pg * PGC + i) * 8; if (ad >= b && ad < x) p.cs.push_back({ad, r->pages[pg][i]}); } parts.push_back(p); };
    if (b0 < a) keepPart(b0, a); if (e0 > e) keepPart(e, e0);
    int fill = r->fill; 
    if (choices.empty() || std::find(regLog.begin() + choices.back().nreg, regLog.end(), r) != regLog.end()) { regLog.erase(std::find(regLog.begin(), regLog.end(), r)); freeRegion(r); for (auto& p : parts) { Region* q = newRegion(p.b, p.n, RK_MMAP, fill, "mapped memory"); for (auto& c : p.cs) *cellAt(q, (c.first - p.b) >> 3) = c.second; } }
    else throw Unsupported("partial unmap of an older mapping"); } lastReg = nullptr; }
static Term* condT(Val v) { if (!v.t) return bConst(v.c != 0); if (v.t->isBool()) return v.t; return tNot(mk(B_EQ, v.t, tConst(0))); }
static void callBuiltin(int id, Ins& n, std::vector<Val>& a, llvm::Function* F) {
  auto ret = [&](Val v) { if (n.nf) fr->r[n.dst] = v; fr->i++; };
  int w = n.w;
  switch (id) {
  case BI_RANGE: { i64 lo = (i64)concretise(a[0]), hi = (i64)concretise(a[1]); if (lo > hi) throw Unsupported("empty range"); u64 d = (u64)hi - (u64)lo; if (!d) { ret(VC((u64)lo)); return; } int bits = 64 - __builtin_clzll(d); ret(freshVar(0, bits, lo, d, lo, hi)); return; }
  case BI_BITS: { int k = (int)concretise(a[0]); if (k >= 64) ret(freshVar(1, 64, 0, ~0ull, IMIN, IMAX)); else ret(freshVar(0, k, 0, (1ull << k) - 1, 0, (i64)((1ull << k) - 1))); return; }
  case BI_CHOOSE: { // a fork per value; the variable is created once per path position
    i64 k = (i64)concretise(a[0]); if (k <= 1) { ret(VC(0)); return; }
    // the variable does not count as drawn until the fork is complete: a choice point re-executes this call
    Val v = freshVar(0, 64 - __builtin_clzll(k - 1), 0, k - 1, 0, k - 1, false); pathVars.pop_back();
    for (i64 i = 0; i < k - 1; i++) { if (decide(mk(B_EQ, v.t, tConst(i)))) { pathVars.push_back((int)v.t->k); ret(VC(i)); return; } }
    pathVars.push_back((int)v.t->k); ret(VC(k - 1)); return; }
  case BI_ASSUME: assumeT(condT(a[0])); ret(VC(0)); return;
  case BI_ASSERT: assertCheck(condT(a[0]), cstr(concretise(a[1]))); ret(VC(0)); return;
  case BI_COVER: { std::string s = cstr(concretise(a[0])); if (!covers[s]++) newCov.insert(s); ret(VC(0)); return; }
  case BI_TIER: ret(VC(tierOpt)); return;
  case BI_CONCRETE: ret(VC(concretise(a[0]))); return;
  case BI_STOP: throw PathKill();
  case BI_ENDPATH: running = false; return;
  case BI_FAIL: violate(cstr(concretise(a[0]))); return;
  case BI_ITE: { Term* c = condT(a[0]); ret(VT(tIte(c, asInt(TM(a[1])), asInt(TM(a[2]))))); return; }
  case BI_SHOW: { std::string s = cstr(concretise(a[0])); u64 v = a[1].t ? evalTerm(a[1].t, model) : a[1].c; fprintf(stderr, "SHOW %s %lld %#llx%s\n", s.c_str(), (long long)v, (unsigned long long)v, a[1].t ? (" " + showTerm(a[1].t)).c_str() : ""); ret(VC(0)); return; }
  case BI_BYTES: { u64 p = concretise(a[0]), k = concretise(a[1]); for (u64 i = 0; i < k; i++) memWrite(p + i, 1, freshVar(0, 8, 0, 255, 0, 255)); ret(VC(0)); return; }
  case BI_VALID: { u64 p = concretise(a[0]), k = concretise(a[1]); Region* r = findRegion(p); ret(VC(r && r->alive && p - r->base + k <= r->size)); return; }
  case BI_ISSYM: ret(VC(a[0].t != nullptr)); return;
  case BI_MALLOC: ret(VC(heapAlloc(concretise(a[0]), 1))); return;
  case BI_CALLOC: ret(VC(heapAlloc(concretise(a[0]) * concretise(a[1]), 0))); return;
  case BI_MEMALIGN: { u64 al = concretise(a[0]); ret(VC(heapAlloc(concretise(a[1]), 1, std::max<u64>(16, al)))); return; }
  case BI_REALLOC: { u64 p = concretise(a[0]), k = concretise(a[1]); if (!p) { ret(VC(heapAlloc(k, 1))); return; } auto it = regs.find(p); if (it == regs.end() || !it->second->alive || it->second->kind != RK_HEAP) violate("memory-safety: realloc of a bad pointer"); u64 q = heapAlloc(k, 1); memCopy(q, p, std::min(k, it->second->size)); setAlive(it->second, false); ret(VC(q)); return; }
  case BI_FREE: { u64 p = concretise(a[0]); if (p) { auto it = regs.find(p); if (it == regs.end() || it->second->kind != RK_HEAP) violate("memory-safety: free of a pointer that was not allocated in " + fnLabel(fr->f)); if (!it->second->alive) violate("memory-safety: double free in " + fnLabel(fr->f)); killRegion(p); } ret(VC(0)); return; }
  case BI_MMAP: { u64 sz = (concretise(a[1]) + 4095) & ~4095ull; u64 p = mmapNext + 0x7000; mmapNext = ((p + sz + 0xfffff) & ~0xfffffull) + 0x100000; newRegion(p, sz, RK_MMAP, 0, "mapped memory"); ret(VC(p)); return; }
  case BI_MUNMAP: { u64 p = concretise(a[0]), k = (concretise(a[1]) + 4095) & ~4095ull; if (p & 4095) { memWrite(errnoAddr, 4, VC(22)); ret(VC(maskv(~0ull, w))); return; } unmap(p, k); ret(VC(0)); return; }
  case BI_MEMCPY: case BI_MEMMOVE: { u64 d = concretise(a[0]), s = concretise(a[1]), k = concretise(a[2]); if (id == BI_MEMCPY && k && d != s && ((d < s && s - d < k) || (s < d && d - s < k))) violate("memory-safety: memcpy of overlapping blocks in " + fnLabel(fr->f)); if (k > (1ull << 40)) violate("memory-safety: copy of " + std::to_string(k) + " bytes in " + fnLabel(fr->f)); memCopy(d, s, k); ret(VC(d)); return; }
  case BI_MEMSET: { u64 d = concretise(a[0]), k = concretise(a[2]); if (k > (1ull << 40)) violate("memory-safety: memset of " + std::to_string(k) + " bytes in " + fnLabel(fr->f)); memSet(d, a[1], k); ret(VC(d)); return; }
  case BI_ERRNO: ret(VC(errnoAddr)); return;
  case BI_ABORT: case BI_TRAP: violate("abort called in " + fnLabel(fr->f)); return;
  case BI_EXIT: throw PathEnd();
  case BI_NOP: fr->i++; return;
  case BI_ZERO: ret(VC(0)); return;
  case BI_EXPECT: ret(a[0]); return;
  case BI_STACKSAVE: ret(VC(0)); return;
  case BI_VASTART: { u64 p = concretise(a[0]); memWrite(p, 4, VC(48)); memWrite(p + 4, 4, VC(304)); memWrite(p + 8, 8, VC(fr->va)); memWrite(p + 16, 8, VC(0)); fr->i++; return; }
  case BI_VACOPY: memCopy(concretise(a[0]), concretise(a[1]), 24); fr->i++; return;
  case BI_OBJSIZE: ret(VC(maskv(~0ull, w))); return;
  case BI_BSWAP: { if (!a[0].t) { u64 v = 0; for (int i = 0; i < w / 8; i++) v |= ((a[0].c >> (8 * i)) & 255) << (w - 8 - 8 * i); ret(VC(v)); } else { Term* b[8]; for (int i = 0; i < w / 8; i++) b[w / 8 - 1 - i] = byteOf(a[0].t, i); ret(VT(joinBytes(b, w / 8))); } return; }
  case BI_CTPOP: case BI_CTLZ: case BI_CTTZ: { u64 v = concretise(a[0]); ret(VC(id == BI_CTPOP ? __builtin_popcountll(v) : id == BI_CTLZ ? (v ? __builtin_clzll(v) - (64 - w) : w) : (v ? __builtin_ctzll(v) : w))); return; }
  case BI_SADDO: case BI_SSUBO: case BI_UADDO: case BI_USUBO: case BI_SMULO: case BI_UMULO: {
    int ww = n.fl[0].w; unsigned op = id == BI_SADDO || id == BI_UADDO ? llvm::Instruction::Add : id == BI_SSUBO || id == BI_USUBO ? llvm::Instruction::Sub : llvm::Instruction::Mul;
    Val r = binop(op, ww, a[0], a[1]); Val o;
    if (!a[0].t && !a[1].t) { i128 x, y, z; if (id == BI_SADDO || id == BI_SSUBO || id == BI_SMULO) { x = sx(a[0].c, ww); y = sx(a[1].c, ww); z = op == llvm::Instruction::Add ? x + y : op == llvm::Instruction::Sub ? x - y : x * y; o = VC(z != (i128)sx(r.c, ww)); } else { unsigned __int128 p = a[0].c, q = a[1].c, s = op == llvm::Instruction::Add ? p + q : op == llvm::Instruction::Sub ? p - q : p * q; o = VC(s != (unsigned __int128)r.c); } }
    else { Term *x = asInt(TM(a[0])), *y = asInt(TM(a[1])), *z = asInt(TM(r));
      if (id == BI_UADDO) o = VT(mk(B_ULT, z, x)); else if (id == BI_USUBO) o = VT(mk(B_ULT, x, y));
      else if (id == BI_SADDO || id == BI_SSUBO) { if (ww < 64) { Term* s = mk(id == BI_SADDO ? T_ADD : T_SUB, ts(ww, x), ts(ww, y)); o = VT(tNot(mk(B_EQ, s, ts(ww, z)))); } else { Term* zero = tConst(0); Term *nx = mk(B_SLT, x, zero), *ny = mk(B_SLT, y, zero), *nz = mk(B_SLT, z, zero); Term* same = id == BI_SADDO ? mk(B_EQ, nx, ny) : tNot(mk(B_EQ, nx, ny)); o = VT(mk(B_AND, same, tNot(mk(B_EQ, nx, nz)))); } }
      else if (id == BI_SMULO) o = VT(mk(B_MULO, ts(ww, x), ts(ww, y), 0, ww)); else if (ww <= 32) o = VT(tNot(mk(B_EQ, mk(T_MUL, x, y), z))); else throw Unsupported("symbolic umul.with.overflow"); }
    fr->r[n.dst] = r; fr->r[n.dst + 1] = o; fr->i++; return; }
  case BI_ABS: { Val v = a[0]; if (!v.t) ret(VC(maskv((u64)std::llabs(sx(v.c, w)), w))); else { Term* s = ts(w, asInt(v.t)); ret(VT(tz(w, tIte(mk(B_SLT, s, tConst(0)), mk(T_SUB, tConst(0), s), s)))); } return; }
  case BI_SMAX: case BI_SMIN: case BI_UMAX: case BI_UMIN: { unsigned p = id == BI_SMAX ? llvm::CmpInst::ICMP_SGT : id == BI_SMIN ? llvm::CmpInst::ICMP_SLT : id == BI_UMAX ? llvm::CmpInst::ICMP_UGT : llvm::CmpInst::ICMP_ULT; Val c = icmp(p, w, a[0], a[1]); if (!c.t) ret(c.c ? a[0] : a[1]); else ret(VT(tIte(TB(c), asInt(TM(a[0])), asInt(TM(a[1]))))); return; }
  case BI_USUBSAT: { Val c = icmp(llvm::CmpInst::ICMP_ULT, w, a[0], a[1]); Val s = binop(llvm::Instruction::Sub, w, a[0], a[1]); if (!c.t) ret(c.c ? VC(0) : s); else ret(VT(tIte(TB(c), tConst(0), asInt(TM(s))))); return; }
  case BI_FSHL: case BI_FSHR: { u64 s = concretise(a[2]) % w; if (!a[0].t && !a[1].t) { u64 v = s == 0 ? (id == BI_FSHL ? a[0].c : a[1].c) : id == BI_FSHL ? maskv((a[0].c << s) | (a[1].c >> (w - s)), w) : maskv((a[0].c << (w - s)) | (a[1].c >> s), w); ret(VC(v)); return; } if (!s) { ret(id == BI_FSHL ? a[0] : a[1]); return; } u64 l = id == BI_FSHL ? s : w - s; Term *x = asInt(TM(a[0])), *y = asInt(TM(a[1])); ret(VT(tz(w, mk(T_OR, mk(T_SHL, x, tConst(l)), mk(T_LSHR, y, tConst(w - l)))))); return; }
  case BI_FABS: { Val v = a[0]; u64 m = (1ull << (w - 1)) - 1; ret(v.t ? VT(mk(T_AND, v.t, tConst(m))) : VC(v.c & m)); return; }
  case BI_FMULADD: { if (a[0].t || a[1].t || a[2].t) { ret(VT(mk(T_FADD, mk(T_FMUL, TM(a[0]), TM(a[1])), TM(a[2])))); return; } ret(VC(VF(FV(a[0].c, w) * FV(a[1].c, w) + FV(a[2].c, w), w))); return; }
  case BI_FUN1: { if (a[0].t) throw Unsupported("symbolic argument of " + F->getName().str()); std::string f = F->getName().str(); double x = DB(a[0].c), r = 0; if (f == "sqrt" || f.rfind("llvm.sqrt", 0) == 0) r = sqrt(x); else if (f == "sin") r = sin(x); else if (f == "cos") r = cos(x); else if (f == "exp") r = exp(x); else if (f == "log") r = log(x); else if (f == "atan") r = atan(x); else if (f == "pow") r = pow(x, DB(a[1].c)); else if (f.find("floor") != std::string::npos) r = floor(x); else r = ceil(x); ret(VC(BD(r))); return; }
  default: throw Unsupported("builtin " + F->getName().str()); } }
