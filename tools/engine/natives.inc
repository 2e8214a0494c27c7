// C-function stubs.  Module "SYM" is the harness interface; the rest are the
// runtime's C functions that Basis initialisation or concrete code reaches.
static void assertCheck(Term* t, const std::string& msg) {
  int r = evalRange(t); if (r == 1) return;
  if (r == 0) { violation(msg, model); throw PathEnd(); }
  if (!evalTerm(t, model)) { violation(msg, model); throw PathEnd(); }
  std::vector<u64> m; int q = checkWith(tNot(t), m);
  if (q == 1) { violation(msg, m); assertT(t); learn(t, true); return; }
  if (q < 0) { markIncomplete("solver unknown on assertion: " + msg); return; }
  learn(t, true); }
static void assumeT(Term* t) {
  int r = evalRange(t); if (r == 1) return; if (r == 0) throw PathKill();
  if (!evalTerm(t, model)) { std::vector<u64> m; int q = checkWith(t, m); if (q == 0) throw PathKill(); if (q < 0) { markIncomplete("solver unknown on assumption"); throw PathKill(); } assertT(t); setModel(m); learn(t, true); return; }
  assertT(t); learn(t, true); }
static Term* boolT(Value v) { if (v.k == V_INT) return bConst(v.p != 0); return tNot(mk(B_EQ, TM(v), tConst(0))); }
static Value boolV(Term* t) { if (t->op == B_CONST) return VI(t->k); return VT(tIte(t, tConst(1), tConst(0))); }
static Value sysErr(const std::string& msg) { return mkRec({tagSysErr, mkRec({mkStr(msg), VI(0)}), nilV()}); }

static Value cfunCall(const std::string& m, const std::string& f, Value arg, bool& raised, Value& exn) {
  if (m == "SYM") {
    if (f == "range") return symRange((i64)concretise(field(arg, 0)), (i64)concretise(field(arg, 1)));
    if (f == "bits") return symBits((int)concretise(arg));
    if (f == "assume") { assumeT(boolT(arg)); return unitV(); }
    if (f == "assert") { assertCheck(boolT(field(arg, 0)), strOf(field(arg, 1))); return unitV(); }
    if (f == "fail") { violation(strOf(arg), model); throw PathEnd(); }
    if (f == "cover") { std::string c = strOf(arg); if (!covers[c]++) newCov.push_back(c); return unitV(); }
    if (f == "tier") return VI(tierOpt);
    if (f == "concrete") return VI(concretise(arg));
    if (f == "register") { entries.push_back({strOf(field(arg, 0)), field(arg, 1)}); return unitV(); }
    if (f == "log") { fprintf(stderr, "LOG %s\n", strOf(arg).c_str()); return unitV(); }
    if (f == "show") { fprintf(stderr, "SHOW %s\n", showVal(arg, 6).c_str()); return unitV(); }
    if (f == "ite") return VT(tIte(boolT(field(arg, 0)), TM(field(arg, 1)), TM(field(arg, 2))));
    if (f == "and") return boolV(mk(B_AND, boolT(field(arg, 0)), boolT(field(arg, 1))));
    if (f == "or") return boolV(mk(B_OR, boolT(field(arg, 0)), boolT(field(arg, 1))));
    if (f == "not") return boolV(tNot(boolT(arg)));
    if (f == "eq") return boolV(eqTerm(field(arg, 0), field(arg, 1)));
    if (f == "stop") throw PathKill();
    throw Unsupported("SYM." + f);
  }
  if (m == "SMLNJ-Math") {
    if (f == "ctlRoundingMode") return unitV();
    Value a = arg; auto r1 = [&](double (*g)(double)) { return VR(g(R(a))); };
    if (a.k == V_SYM) throw Unsupported("symbolic real in " + f);
    if (f == "cos64") return r1(cos); if (f == "sin64") return r1(sin); if (f == "exp64") return r1(exp); if (f == "log64") return r1(log); if (f == "atan64") return r1(atan); if (f == "sqrt64") return r1(sqrt); if (f == "tan64") return r1(tan);
    if (f == "pow64") return VR(pow(R(field(arg, 0)), R(field(arg, 1))));
  }
  if (m == "SMLNJ-RunT") {
    if (f == "debug") return unitV();
    if (f == "setIntTimer") return unitV();
    if (f == "gcControl") return unitV();
    if (f == "mkCode" || f == "mkExec") throw Unsupported(f);
    if (f == "sysInfo") { std::string q = strOf(arg); return someV(mkStr(q == "OS_NAME" ? "Linux" : q == "HOST_ARCH" || q == "TARGET_ARCH" ? "AMD64" : q.substr(0, 3) == "HAS" || q.substr(0, 4) == "SOFT" ? "NO" : "1")); }
    if (f == "record1") return mkRec({arg});
    if (f == "argv" || f == "rawArgv") return nilV();
    if (f == "cmdName") return mkStr("sml");
  }
  if (m == "SMLNJ-Time") { if (f == "timeofday") return VI(0); if (f == "gettime") return mkRec({VI(0), VI(0), VI(0)}); }
  if (f == "listerrors") { static const char* nm[] = {"toobig","acces","again","badf","badmsg","busy","canceled","child","deadlk","dom","exist","fault","fbig","inprogress","intr","inval","io","isdir","loop","mfile","mlink","msgsize","nametoolong","nfile","nodev","noent","noexec","nolck","nomem","nospc","nosys","notdir","notempty","notsup","notty","nxio","perm","pipe","range","rofs","spipe","srch","xdev"}; std::vector<Value> l; int i = 1; for (auto n : nm) l.push_back(mkRec({VI(i++), mkStr(n)})); return mkList(l); }
  if (f == "listSignals") { std::vector<Value> l; static const char* nm[] = {"HUP","INT","QUIT","ALRM","TERM","URG","CHLD","CONT","TSTP","TTIN","TTOU","VTALRM","WINCH","USR1","USR2","IO","PIPE","GC"}; int i = 1; for (auto n : nm) l.push_back(mkRec({VI(i++), mkStr(n)})); return mkList(l); }
  if (f == "osval") { static std::map<std::string, int> o; std::string n = strOf(arg); auto it = o.find(n); if (it == o.end()) { int k = 1 << (o.size() % 30); o[n] = k; return VI(k); } return VI(it->second); }
  if (f == "errmsg") return mkStr("error");
  if (f == "sysconf") return VI(100);
  if (f == "isreg" || f == "ftype") return VI(1);
  if (m == "SMLNJ-Signals") return VI(0);
  if (f == "listSockTypes") return mkList({mkRec({VI(1), mkStr("STREAM")}), mkRec({VI(2), mkStr("DGRAM")})});
  if (f == "listAddrFamilies") return mkList({mkRec({VI(1), mkStr("UNIX")}), mkRec({VI(2), mkStr("INET")})});
  if (f == "getAddrFamily") return unitV();
  if (f == "inetany") { Obj* o = newObj(O_STR, 4); for (int i = 0; i < 4; i++) o->f[i] = VI(0); return VO(o); }
  if (f == "fstat" || f == "stat" || f == "lstat") { Obj* o = newObj(O_REC, 11); for (int i = 0; i < 11; i++) o->f[i] = VI(0); return VO(o); }
  if (f == "fcntl_gfl") return mkRec({VI(0), VI(0)});
  if (f == "isatty") return VI(0);
  throw Unsupported("C function " + m + "." + f);
}
