// One handler per script command.  Syntax: see tools/script.md.  Slot 0 is the
// null diagram.
static vector<int> ints(const vector<string> &a, size_t from, size_t to = 1u << 30) {
  vector<int> r; for (size_t i = from; i < a.size() && i < to; i++) r.push_back(atoi(a[i].c_str())); return r;
}
static vector<Cal_Bdd> handles(const vector<int> &s) {   // null-terminated
  vector<Cal_Bdd> r; for (int x : s) r.push_back(S(x)); r.push_back((Cal_Bdd)0); return r;
}
static int I(const vector<string> &a, size_t i) { if (i >= a.size()) die("missing argument %zu of %s", i, a[0].c_str()); return atoi(a[i].c_str()); }
static void dropSlot(Mgr &g, int s) { g.slot.erase(s); g.refs.erase(s); g.last.erase(s); }

// ---- printing ---------------------------------------------------------------
static char *nameV(Cal_BddManager m, Cal_Bdd v, Cal_Pointer_t) {
  static char buf[32]; sprintf(buf, "v%d", (int)Cal_BddGetIfId(m, v)); return buf;
}
static int nameToId(Mgr &g, const string &n) {
  if (n.compare(0, 4, "var.") == 0) {
    int ix = atoi(n.c_str() + 4); if (ix < 0 || ix >= Cal_BddVars(g.m)) return 0; return probeIdAt(g.m, ix); }
  if (n.size() > 1 && n[0] == 'v' && isdigit((unsigned char)n[1])) return atoi(n.c_str() + 1);
  return 0;
}
// [kind, number, variable id]; purely lexical
static string printTokens(Mgr &g, FILE *f) {
  string out = "["; char buf[4096]; bool first = true;
  while (fgets(buf, sizeof buf, f)) {
    string l = buf; while (!l.empty() && (l.back() == '\n')) l.pop_back();
    size_t p = l.find_first_not_of(' '); l = p == string::npos ? "" : l.substr(p);
    int kind = 0, num = -1, id = 0;
    size_t c = l.find(": if ");
    if (c != string::npos && c > 0 && isdigit((unsigned char)l[0])) { kind = 1; num = atoi(l.c_str()); id = nameToId(g, l.substr(c + 5)); }
    else if (l.compare(0, 3, "if ") == 0) { kind = 1; id = nameToId(g, l.substr(3)); }
    else if (l.compare(0, 9, "else if !") == 0) { kind = 2; id = nameToId(g, l.substr(9)); }
    else if (l.compare(0, 6, "endif ") == 0) { kind = 3; id = nameToId(g, l.substr(6)); }
    else if (l.compare(0, 11, "subformula ") == 0) { kind = 4; num = atoi(l.c_str() + 11); }
    else if (l.compare(0, 12, "!subformula ") == 0) { kind = 5; num = atoi(l.c_str() + 12); }
    else if (l == "0" || l == "1") { kind = 8; num = l[0] - '0'; }
    else if (l[0] == '!') { kind = 7; id = nameToId(g, l.substr(1)); }
    else { id = nameToId(g, l); kind = id ? 6 : 0; }
    if ((kind != 4 && kind != 5 && kind != 8) && id == 0) kind = 0;
    if (!first) out += ","; first = false;
    out += "[" + std::to_string(kind) + "," + std::to_string(num) + "," + std::to_string(id) + "]";
  }
  return out + "]";
}
// printed profile -> counts by index, leaf, total
static vector<long> profileTokens(Mgr &g, FILE *f, int &bad, vector<int> &bars) {
  vector<long> v(Cal_BddVars(g.m) + 2, 0); bars.assign(Cal_BddVars(g.m) + 1, 0); char buf[65536]; bad = 0; int leaf = 0, tot = 0;
  while (fgets(buf, sizeof buf, f)) {
    string l = buf; size_t c = l.find(':'); if (c == string::npos) { bad = 1; continue; }
    string nm = l.substr(0, c); long n = atol(l.c_str() + c + 1); int bar = (int)std::count(l.begin() + c, l.end(), '#');
    if (nm == "leaf") { v[v.size() - 2] = n; bars.back() = bar; leaf++; }
    else if (nm == "Total") { v[v.size() - 1] = n; tot++; }
    else { int id = nameToId(g, nm); if (!id) { bad = 1; continue; } int ix = probeIndexOf(g.m, id); if (v[ix]) bad = 1; v[ix] = n; bars[ix] = bar; }
  }
  if (leaf != 1 || tot != 1) bad = 1;
  return v;
}
// Cal_BddFunctionPrint writes to stdout: capture it
static string captureStdout(const std::function<void()> &fn) {
  fflush(stdout);
  string path = scratch + "/stdout.txt";
  int keep = dup(1); FILE *f = fopen(path.c_str(), "w"); if (!f) die("scratch");
  dup2(fileno(f), 1); fn(); fflush(stdout); dup2(keep, 1); close(keep); fclose(f);
  std::ifstream in(path); std::stringstream ss; ss << in.rdbuf(); return ss.str();
}
// ---- dump files -------------------------------------------------------------
static string fpath(const string &id) { for (char c : id) if (!isalnum((unsigned char)c)) die("file id"); return scratch + "/d_" + id; }
static vector<unsigned char> slurp(const string &p) { std::ifstream in(p, std::ios::binary); return vector<unsigned char>((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); }
static void spit(const string &p, const vector<unsigned char> &b) { std::ofstream o(p, std::ios::binary); o.write((const char*)b.data(), b.size()); }

// ---- public-accessor walk ----------------------------------------------------
struct Walk { Mgr &g; map<Cal_Bdd, TT> memo; long visited = 0; int bad = 0;
  TT go(Cal_Bdd h, int depth) {
    if (Cal_BddIsBddOne(g.m, h)) return constTT(g, true);
    if (Cal_BddIsBddZero(g.m, h)) return constTT(g, false);
    auto it = memo.find(h); if (it != memo.end()) return it->second;
    if (++visited > 200000 || depth > 5000 || Cal_BddIsBddNull(g.m, h)) { bad = 1; return constTT(g, false); }
    Cal_Bdd v = Cal_BddIf(g.m, h), t = Cal_BddThen(g.m, h), e = Cal_BddElse(g.m, h);
    int id = Cal_BddGetIfId(g.m, h), ix = Cal_BddGetIfIndex(g.m, h);
    Cal_Bdd w = Cal_BddManagerGetVarWithId(g.m, id), w2 = Cal_BddManagerGetVarWithIndex(g.m, ix);
    if (v != w || v != w2 || id < 1 || id >= (int)g.vf.size() || g.vf[id].empty() || Cal_BddType(g.m, v) != CAL_BDD_TYPE_POSVAR) bad = 1;
    if (!Cal_BddIsBddConst(g.m, t) && (int)Cal_BddGetIfIndex(g.m, t) <= ix) bad = 1;
    if (!Cal_BddIsBddConst(g.m, e) && (int)Cal_BddGetIfIndex(g.m, e) <= ix) bad = 1;
    TT a = go(t, depth + 1), b = go(e, depth + 1), r(g.W);
    if (id >= 1 && id < (int)g.vf.size() && !g.vf[id].empty()) for (int i = 0; i < g.W; i++) r[i] = (g.vf[id][i] & a[i]) | (~g.vf[id][i] & b[i]);
    for (Cal_Bdd x : {v, t, e, w, w2}) Cal_BddFree(g.m, x);
    return memo[h] = r;
  } };

// The diagrams below some handles as a table, read through the public accessors:
// entries [id, then, else], deepest level first; 0 = Zero, 1 = One, k+1 = entry k.
static const size_t TABLE_MAX = 240;
struct Table { Mgr &g; map<Cal_Bdd, long> no; vector<vector<long>> raw; vector<Cal_Bdd> held; int bad = 0; vector<long> place;
  long go(Cal_Bdd h, int depth) {
    if (Cal_BddIsBddOne(g.m, h)) return 1;
    if (Cal_BddIsBddZero(g.m, h)) return 0;
    auto it = no.find(h); if (it != no.end()) return it->second;
    if (raw.size() > 20000 || depth > 5000 || Cal_BddIsBddNull(g.m, h)) { bad = 1; return 0; }
    Cal_Bdd t = Cal_BddThen(g.m, h), e = Cal_BddElse(g.m, h); held.push_back(t); held.push_back(e);
    long id = Cal_BddGetIfId(g.m, h), ix = Cal_BddGetIfIndex(g.m, h);
    long a = go(t, depth + 1), b = go(e, depth + 1);
    raw.push_back({id, a, b, ix}); return no[h] = raw.size() + 1; }
  long ref(long r) { return r < 2 ? r : place[r - 2] + 2; }
  string text() {              // sorts the entries
    vector<int> o(raw.size()); for (size_t i = 0; i < o.size(); i++) o[i] = i;
    std::stable_sort(o.begin(), o.end(), [&](int x, int y) { return raw[x][3] > raw[y][3]; });
    place.assign(raw.size(), 0); for (size_t i = 0; i < o.size(); i++) place[o[i]] = i;
    string r = "["; for (size_t i = 0; i < o.size(); i++) { auto &n = raw[o[i]]; if (i) r += ","; r += jl(vector<long>{n[0], ref(n[1]), ref(n[2])}); }
    return r + "]"; }
  ~Table() { for (Cal_Bdd h : held) if (!Cal_BddIsBddNull(g.m, h)) Cal_BddFree(g.m, h); } };
static void diag(Mgr &g, const vector<int> &x) {
  begin("diag"); jlist("a", x);
  int nv = (int)Cal_BddVars(g.m); auto h = handles(x); Table t{g}; vector<long> roots, sizes, q(nv + 1);
  for (int s : x) roots.push_back(t.go(S(s), 0));
  if (t.raw.size() > TABLE_MAX) return;       // too large to be judged
  string tb = t.text(); for (auto &r : roots) r = t.ref(r);
  jkey("tb"); J += tb; jlist("roots", roots); jnum("bad", t.bad);
  bool one = x.size() == 1;
  string pr = "[";
  for (int neg = 0; neg < 2; neg++) {
    sizes.push_back(one ? Cal_BddSize(g.m, h[0], neg) : Cal_BddSizeMultiple(g.m, h.data(), neg));
    q.assign(nv + 1, -7); if (one) Cal_BddProfile(g.m, h[0], q.data(), neg); else Cal_BddProfileMultiple(g.m, h.data(), q.data(), neg);
    pr += (neg ? "," : "") + jl(q); }
  jlist("sz", sizes); jkey("pr"); J += pr + "]";
  q.assign(nv + 1, -7); if (one) Cal_BddFunctionProfile(g.m, h[0], q.data()); else Cal_BddFunctionProfileMultiple(g.m, h.data(), q.data());
  jlist("fp", q);
  string su = "[", fr = "["; bool first = true;
  for (int s : x) { vector<Cal_Bdd> sp(nv + 2, (Cal_Bdd)0); Cal_BddSupport(g.m, S(s), sp.data()); vector<long> ids;
    for (int i = 0; i <= nv && sp[i]; i++) { ids.push_back(Cal_BddGetIfId(g.m, sp[i])); Cal_BddFree(g.m, sp[i]); }
    double d = Cal_BddSatisfyingFraction(g.m, S(s)) * 281474976710656.0; uint64_t n = d >= 0 && d <= 281474976710656.0 ? (uint64_t)d : 0; bool exact = (double)n == d;
    if (!first) { su += ","; fr += ","; } first = false; su += jl(ids);
    fr += jl(vector<long>{(long)(n & 65535), (long)(n >> 16 & 65535), (long)(n >> 32 & 65535), (long)(n >> 48), exact ? 1 : 0}); }
  jkey("su"); J += su + "]"; jkey("fr"); J += fr + "]"; finish(); }

static long blocksAtInit = 0;
static Cal_Bdd binop(Mgr &g, const string &f, Cal_Bdd a, Cal_Bdd b) {
  if (f == "and") return Cal_BddAnd(g.m, a, b);
  if (f == "or") return Cal_BddOr(g.m, a, b);
  if (f == "xor") return Cal_BddXor(g.m, a, b);
  if (f == "nand") return Cal_BddNand(g.m, a, b);
  if (f == "nor") return Cal_BddNor(g.m, a, b);
  if (f == "xnor") return Cal_BddXnor(g.m, a, b);
  if (f == "rp") return Cal_BddRelProd(g.m, a, b);
  if (f == "cof") return Cal_BddCofactor(g.m, a, b);
  if (f == "red") return Cal_BddReduce(g.m, a, b);
  if (f == "btw") return Cal_BddBetween(g.m, a, b);
  if (f == "inter") return Cal_BddIntersects(g.m, a, b);
  if (f == "impl") return Cal_BddImplies(g.m, a, b);
  die("binop %s", f.c_str());
}
static Cal_Bdd unop(Mgr &g, const string &f, Cal_Bdd a) {
  if (f == "id") return Cal_BddIdentity(g.m, a);
  if (f == "not") return Cal_BddNot(g.m, a);
  if (f == "ex") return Cal_BddExists(g.m, a);
  if (f == "all") return Cal_BddForAll(g.m, a);
  if (f == "sub") return Cal_BddSubstitute(g.m, a);
  if (f == "vsub") return Cal_BddVarSubstitute(g.m, a);
  if (f == "sat") return Cal_BddSatisfy(g.m, a);
  if (f == "sats") return Cal_BddSatisfySupport(g.m, a);
  if (f == "then") return Cal_BddThen(g.m, a);
  if (f == "else") return Cal_BddElse(g.m, a);
  if (f == "if") return Cal_BddIf(g.m, a);
  if (f == "reg") { Cal_Bdd r = Cal_BddGetRegular(g.m, a); Cal_BddUnFree(g.m, r); return r; }
  die("unop %s", f.c_str());
}
static Cal_Bdd ternop(Mgr &g, const string &f, Cal_Bdd a, Cal_Bdd b, Cal_Bdd c) {
  if (f == "ite") return Cal_BddITE(g.m, a, b, c);
  if (f == "comp") return Cal_BddCompose(g.m, a, b, c);
  if (f == "swap") return Cal_BddSwapVars(g.m, a, b, c);
  die("ternop %s", f.c_str());
}
static bool isUn(const string &f) { static set<string> s{"id","not","ex","all","sub","vsub","sat","sats","then","else","if","reg"}; return s.count(f); }
static bool isTern(const string &f) { static set<string> s{"ite","comp","swap"}; return s.count(f); }
static Cal_Bdd anyop(Mgr &g, const string &f, const vector<int> &x) {
  if (isUn(f)) { if (x.size() != 1) die("arity %s", f.c_str()); return unop(g, f, S(x[0])); }
  if (isTern(f)) { if (x.size() != 3) die("arity %s", f.c_str()); return ternop(g, f, S(x[0]), S(x[1]), S(x[2])); }
  if (x.size() != 2) die("arity %s", f.c_str());
  return binop(g, f, S(x[0]), S(x[1]));
}

// inner nodes whose 8-bit count has saturated (never reclaimed by design)
static long saturatedNodes(Mgr &g) {
  long n = 0;
  for (int id = 1; id <= (int)Cal_BddVars(g.m); id++) probeEachNode(g.m, id, [&](CalBddNode_t *p, long) {
    if (probeNodeRefCount(p) == 255 && !(probeThenRaw(g.m, p).node.isOne && probeElseRaw(g.m, p).node.isOne)) n++; });
  return n;
}
static void snapshot(Mgr &g);
static void memCommand(const vector<string> &a);
static bool wrapCommand(const vector<string> &a);

static void query(Mgr &g, const vector<string> &a) {     // q NAME args
  string f = a[1];
  begin("q"); jstr("f", f);
  vector<int> x; vector<int> p; vector<long> v;
  int nv = (int)Cal_BddVars(g.m);
  auto arr = [&](size_t from) { x = ints(a, from); return handles(x); };
  if (f == "size") { x = {I(a,2)}; p = {I(a,3)}; v = {Cal_BddSize(g.m, S(x[0]), p[0])}; }
  else if (f == "sizem") { p = {I(a,2)}; auto h = arr(3); v = {Cal_BddSizeMultiple(g.m, h.data(), p[0])}; }
  else if (f == "prof") { x = {I(a,2)}; p = {I(a,3)}; v.assign(nv + 1, -7); Cal_BddProfile(g.m, S(x[0]), v.data(), p[0]); }
  else if (f == "profm") { p = {I(a,2)}; auto h = arr(3); v.assign(nv + 1, -7); Cal_BddProfileMultiple(g.m, h.data(), v.data(), p[0]); }
  else if (f == "fprof") { x = {I(a,2)}; v.assign(nv + 1, -7); Cal_BddFunctionProfile(g.m, S(x[0]), v.data()); }
  else if (f == "fprofm") { auto h = arr(2); v.assign(nv + 1, -7); Cal_BddFunctionProfileMultiple(g.m, h.data(), v.data()); }
  else if (f == "supp") { x = {I(a,2)}; vector<Cal_Bdd> s(nv + 2, (Cal_Bdd)0); Cal_BddSupport(g.m, S(x[0]), s.data());
    for (int i = 0; i <= nv && s[i]; i++) { v.push_back(Cal_BddGetIfId(g.m, s[i])); if (Cal_BddType(g.m, s[i]) != CAL_BDD_TYPE_POSVAR) v.push_back(-1); Cal_BddFree(g.m, s[i]); } }
  else if (f == "dep") { x = {I(a,2), I(a,3)}; v = {Cal_BddDependsOn(g.m, S(x[0]), S(x[1]))}; }
  else if (f == "type") { x = {I(a,2)}; v = {Cal_BddType(g.m, S(x[0]))}; }
  else if (f == "ifid") { x = {I(a,2)}; v = {Cal_BddGetIfId(g.m, S(x[0]))}; }
  else if (f == "ifidx") { x = {I(a,2)}; v = {Cal_BddGetIfIndex(g.m, S(x[0]))}; }
  else if (f == "eq") { x = {I(a,2), I(a,3)}; v = {Cal_BddIsEqual(g.m, S(x[0]), S(x[1]))}; }
  else if (f == "isone") { x = {I(a,2)}; v = {Cal_BddIsBddOne(g.m, S(x[0]))}; }
  else if (f == "iszero") { x = {I(a,2)}; v = {Cal_BddIsBddZero(g.m, S(x[0]))}; }
  else if (f == "isconst") { x = {I(a,2)}; v = {Cal_BddIsBddConst(g.m, S(x[0]))}; }
  else if (f == "isnull") { x = {I(a,2)}; v = {Cal_BddIsBddNull(g.m, S(x[0]))}; }
  else if (f == "cube") { x = {I(a,2)}; v = {Cal_BddIsCube(g.m, S(x[0]))}; }
  else if (f == "isprov") { x = {I(a,2)}; v = {Cal_BddIsProvisional(g.m, S(x[0])) ? 1 : 0}; }
  else if (f == "frac") { x = {I(a,2)}; double d = Cal_BddSatisfyingFraction(g.m, S(x[0])); double sc = d * (double)(16L * g.W);
    long n = llround(sc); v = {n, (double)n == sc ? 1 : 0}; }
  else if (f == "fraclog") { x = {I(a,2)}; double d = Cal_BddSatisfyingFraction(g.m, S(x[0])); int e = 0; double m = d == 0 ? 0 : frexp(d, &e); v = {(long)(m * 1048576.0), e}; }
  else if (f == "walk") { x = {I(a,2)}; Walk w{g}; TT t = w.go(S(x[0]), 0); v.assign(t.begin(), t.end()); p = {w.bad}; }
  else if (f == "nodes") { v = {(long)Cal_BddManagerGetNumNodes(g.m), (long)Cal_BddTotalSize(g.m)}; }
  else if (f == "vars") { v = {Cal_BddVars(g.m)}; }
  else if (f == "rc") { x = {I(a,2)}; v = {probeRefCount(S(x[0]))}; }
  else if (f == "stats") { string path = scratch + "/stats.txt"; FILE *fp = fopen(path.c_str(), "w"); Cal_BddStats(g.m, fp); fclose(fp); v = {0};
    std::ifstream in(path); string l; while (std::getline(in, l)) if (l.compare(0, 12, "Node limit: ") == 0) v[0] = atol(l.c_str() + 12); }
  else if (f == "pprof" || f == "pfprof") { x = {I(a,2)}; string path = scratch + "/pp.txt"; FILE *fp = fopen(path.c_str(), "w");
    int opt = I(a,3), len = opt >> 1 ? opt >> 1 : 79; Cal_VarNamingFn_t nm = opt & 1 ? nameV : Cal_BddNamingFnNone; p = {opt};
    if (f == "pprof") Cal_BddPrintProfile(g.m, S(x[0]), nm, 0, len, fp); else Cal_BddPrintFunctionProfile(g.m, S(x[0]), nm, 0, len, fp);
    fclose(fp); fp = fopen(path.c_str(), "r"); int bad; vector<int> bars; v = profileTokens(g, fp, bad, bars); p.push_back(bad); p.push_back(len); p.insert(p.end(), bars.begin(), bars.end()); fclose(fp); }
  else if (f == "pprofm" || f == "pfprofm") { p = {I(a,2)}; auto h = arr(3); string path = scratch + "/pp.txt"; FILE *fp = fopen(path.c_str(), "w");
    int len = p[0] >> 1 ? p[0] >> 1 : 79; Cal_VarNamingFn_t nm = p[0] & 1 ? nameV : Cal_BddNamingFnNone;
    if (f == "pprofm") Cal_BddPrintProfileMultiple(g.m, h.data(), nm, 0, len, fp); else Cal_BddPrintFunctionProfileMultiple(g.m, h.data(), nm, 0, len, fp);
    fclose(fp); fp = fopen(path.c_str(), "r"); int bad; vector<int> bars; v = profileTokens(g, fp, bad, bars); p.push_back(bad); p.push_back(len); p.insert(p.end(), bars.begin(), bars.end()); fclose(fp); }
  else die("query %s", f.c_str());
  jlist("a", x); jlist("p", p); jlist("v", v); finish();
}

static Cal_Bdd newVar(Mgr &g, const string &pos, int s) {
  return pos == "first" ? Cal_BddManagerCreateNewVarFirst(g.m) : pos == "last" ? Cal_BddManagerCreateNewVarLast(g.m)
    : pos == "before" ? Cal_BddManagerCreateNewVarBefore(g.m, S(s)) : Cal_BddManagerCreateNewVarAfter(g.m, S(s)); }

// A generated script cannot know which calls will answer null (node limit,
// rejected files).  Calls that are illegal on the null diagram are dropped.
static bool droppable(Mgr &g, const vector<string> &a) {
  const string &c = a[0]; size_t from = 0, to = 0;
  if (c == "unfree" || c == "dec" || c == "pr" || c == "fpr") { from = 1; to = 2; }
  else if (c == "blk") { from = 2; to = 3; }
  else if (c == "pu") { return a.size() > 2 && !g.prov.count(atoi(a[2].c_str())); }
  else if (c == "pc") { for (size_t i = 2; i < a.size(); i++) { int s = atoi(a[i].c_str()); if (s && !g.slot.count(s) && !g.prov.count(s)) return true; } }
  else if (c == "var" && a.size() > 4) { from = 4; to = 5; }
  else if (c == "idle" && a.size() > 3) { from = 3; to = 4; }
  else if (c == "op" && a.size() > 3 && (a[1] == "if" || a[1] == "then" || a[1] == "else")) { int s = atoi(a[3].c_str()); return g.slot.count(s) && g.slot[s] && Cal_BddIsBddConst(g.m, g.slot[s]); }
  else if (c == "op" && a.size() > 3 && (a[1] == "id" || a[1] == "not" || a[1] == "reg")) { from = 3; to = 4; }
  else if (c == "q" && a.size() > 2 && (a[1] == "walk" || a[1] == "cube" || a[1] == "rc" || a[1] == "isprov" || a[1] == "ifidx")) { from = 2; to = 3; }
  else if (c == "ainit" || c == "tinit" || c == "taug") { from = c == "ainit" ? 3 : 2; to = a.size(); }
  else if (c == "spin") { from = 2; to = 3; }
  else if (c == "revive") { int d = atoi(a[1].c_str()); return g.slot.count(d) || !g.pub.count(d); }
  for (size_t i = from; i < to && i < a.size(); i++) { int s = atoi(a[i].c_str()); if (!g.slot.count(s) && !g.prov.count(s)) return true; }
  if (c == "dec") return g.refs[atoi(a[1].c_str())] < 2;
  return false;
}
static void command(const vector<string> &a, long) {
  const string &c = a[0];
  if (c == "m") { cur = I(a,1); return; }
  if (c == "every") { evalEvery = std::max(1, I(a,1)); evalCount = 0; return; }
  if (c == "quiet") { return; }
  if (c == "reset") {            // new section: forget everything
    for (auto &kv : MG) if (kv.second.alive) die("reset with live manager");
    MG.clear(); cur = 0; evalEvery = 1; begin("reset"); jstr("name", a.size() > 1 ? a[1] : ""); finish(); return; }
  if (c == "minit") {            // minit M N
    cur = I(a,1); if (MG.count(cur) && MG[cur].alive) die("minit busy");
    long b0 = g_blocks; bool none = true; for (auto &kv : MG) if (kv.second.alive) none = false;
    if (none) blocksAtInit = b0;
    Cal_BddManager m = Cal_BddManagerInit();
    MG.erase(cur); Mgr &g = MG[cur]; g.alive = true; g.m = m; g.N = I(a,2); g.W = g.N <= 4 ? 1 : 1 << (g.N - 4);
    begin("minit"); jnum("N", g.N); jnum("W", g.W); jnum("one", Cal_BddIsBddOne(m, Cal_BddOne(m))); finish(); return; }
  if (c == "mem") { memCommand(a); return; }
  if (c[0] == 'x' && wrapCommand(a)) return;
  Mgr &g = G();
  if (droppable(g, a)) return;
  if (c == "mquit") {
    for (auto &kv : g.blocks) (void)kv;
    int r = Cal_BddManagerQuit(g.m); g.alive = false; g.slot.clear(); g.prov.clear(); g.last.clear(); g.refs.clear(); g.blocks.clear(); g.lastOrder.clear();
    bool none = true; for (auto &kv : MG) if (kv.second.alive) none = false;
    begin("mquit"); jnum("ret", r); jnum("lk", none ? g_blocks - blocksAtInit : 0); finish(); return; }
  if (c == "var") {              // var D SPEC first|last|before|after [S]
    int d = I(a,1); int coord; TT t = ttSpec(g, a[2], coord); string pos = a[3]; int s = pos == "before" || pos == "after" ? I(a,4) : 0;
    g.vf.push_back(t);
    Cal_Bdd h = newVar(g, pos, s);
    if (!h) g.vf.pop_back();
    begin("var"); jnum("c", coord); jlist("vt", t); jstr("pos", pos); jnum("s", s); result(d, h); finish(); return; }
  if (c == "vars") {             // vars N SEED LO : N variables at the end, no handles kept
    int n = I(a,1); uint64_t seed = strtoull(a[2].c_str(), 0, 10); string vts = "[";
    int ok = 1;
    for (int i = 0; i < n; i++) { int coord; TT t = ttSpec(g, "m" + std::to_string(seed + i) + "/" + a[3], coord); g.vf.push_back(t);
      Cal_Bdd h = Cal_BddManagerCreateNewVarLast(g.m); if (Cal_BddGetIfId(g.m, h) != (int)g.vf.size() - 1) ok = 0; Cal_BddFree(g.m, h);
      vts += (i ? "," : "") + jl(t); }
    begin("vars"); jnum("n", n); jnum("ok", ok); jkey("vts"); J += vts + "]"; finish(); return; }
  if (c == "idle") {             // idle N first|last|before|after [S] : N variables no function will depend on
    int n = I(a,1), ok = 1, s = a.size() > 3 ? I(a,3) : 0; string pos = a[2];
    for (int i = 0; i < n; i++) { g.vf.push_back(TT()); Cal_Bdd h = newVar(g, pos, s); if (Cal_BddGetIfId(g.m, h) != (int)g.vf.size() - 1) ok = 0; Cal_BddFree(g.m, h); }
    begin("idle"); jnum("n", n); jnum("ok", ok); jstr("pos", pos); jnum("s", s); finish(); return; }
  if (c == "op") {               // op NAME D ARGS
    string f = a[1]; int d = I(a,2); vector<int> x = ints(a, 3);
    Cal_Bdd h = anyop(g, f, x);
    begin("op"); jstr("f", f); jlist("a", x); result(d, h); finish(); return; }
  if (c == "opw") {              // opw sat|sats D S : the call, and the two diagrams as tables
    string f = a[1]; int d = I(a,2); vector<int> x = ints(a, 3);
    Cal_Bdd h = anyop(g, f, x);
    begin("op"); jstr("f", f); jlist("a", x); result(d, h);
    if (h) { Table t{g}; vector<long> roots{t.go(S(x[0]), 0), t.go(h, 0)}; if (t.raw.size() <= TABLE_MAX) { string tb = t.text(); for (auto &r : roots) r = t.ref(r); jkey("tb"); J += tb; jlist("roots", roots); jnum("bad", t.bad); } }
    finish(); return; }
  if (c == "diag") { vector<int> x; for (int s : ints(a, 1)) if (g.slot.count(s)) x.push_back(s); if (x.empty()) return; diag(g, x); return; }
  if (c == "const") { int d = I(a,1), v = I(a,2); begin("const"); jnum("v", v); result(d, v ? Cal_BddOne(g.m) : Cal_BddZero(g.m)); finish(); return; }
  if (c == "vid") { int d = I(a,1), v = I(a,2); Cal_Bdd h = Cal_BddManagerGetVarWithId(g.m, v); begin("vid"); jlist("p", vector<int>{v}); result(d, h); finish(); return; }
  if (c == "vidx") { int d = I(a,1), v = I(a,2); Cal_Bdd h = Cal_BddManagerGetVarWithIndex(g.m, v); begin("vidx"); jlist("p", vector<int>{v}); result(d, h); finish(); return; }
  if (c == "unfree") { int s = I(a,1), n = a.size() > 2 ? I(a,2) : 1; if (!g.slot.count(s)) die("unfree dead"); for (int i = 0; i < n; i++) Cal_BddUnFree(g.m, S(s)); g.refs[s] += n;
    begin("unfree"); jlist("a", vector<int>{s}); jlist("p", vector<int>{n}); finish(); return; }
  if (c == "revive") { int d = I(a,1); if (g.slot.count(d) || !g.pub.count(d)) die("revive"); Cal_BddUnFree(g.m, g.pub[d]); begin("revive"); result(d, g.pub[d]); finish(); return; }
  if (c == "free") {             // free S.. : give up every reference held through each slot
    vector<int> x; for (int s : ints(a, 1)) if (g.slot.count(s)) x.push_back(s);
    if (x.empty()) return;
    for (int s : x) { if (!g.slot.count(s)) continue; for (int i = 0; i < g.refs[s]; i++) Cal_BddFree(g.m, g.slot[s]); dropSlot(g, s); }
    begin("free"); jlist("a", x); finish(); return; }
  if (c == "dec") { int s = I(a,1); if (!g.slot.count(s) || g.refs[s] < 2) die("dec"); Cal_BddFree(g.m, g.slot[s]); g.refs[s]--; begin("dec"); jlist("a", vector<int>{s}); finish(); return; }
  if (c == "freeall") {
    vector<int> x; for (auto &kv : g.slot) x.push_back(kv.first);
    for (int s : x) { for (int i = 0; i < g.refs[s]; i++) Cal_BddFree(g.m, g.slot[s]); dropSlot(g, s); }
    begin("free"); jlist("a", x); finish(); return; }
  if (c == "mw") {               // mw and|or|xor D ARGS
    string f = a[1]; int d = I(a,2); vector<int> x = ints(a, 3); auto h = handles(x);
    Cal_Bdd r = f == "and" ? Cal_BddMultiwayAnd(g.m, h.data()) : f == "or" ? Cal_BddMultiwayOr(g.m, h.data()) : Cal_BddMultiwayXor(g.m, h.data());
    begin("mw"); jstr("f", f); jlist("a", x); result(d, r); finish(); return; }
  if (c == "pw") {               // pw and|or|xor D0 ARGS : results into D0, D0+1, ...
    string f = a[1]; int d = I(a,2); vector<int> x = ints(a, 3); auto h = handles(x);
    Cal_Bdd *r = f == "and" ? Cal_BddPairwiseAnd(g.m, h.data()) : f == "or" ? Cal_BddPairwiseOr(g.m, h.data()) : Cal_BddPairwiseXor(g.m, h.data());
    begin("pw"); jstr("f", f); jlist("a", x); jnum("nul", r == 0);
    int n = 0; while (h[n]) n++; n /= 2;      // the array holds one result per pair
    if (r) { for (int i = 0; i < n; i++) result(d + i, r[i]); free(r); } else n = 0;
    jnum("cnt", n); jnum("d0", d); if (!RS.size()) { jkey("rs"); J += "[]"; } finish(); return; }
  if (c == "row") {              // row NAME A K [EXTRA] : NAME(A, j) for j = 1..K ; results as slots
    string f = a[1]; int s = I(a,2), k = I(a,3); vector<int> ex = ints(a, 4); vector<int> r;
    map<Cal_Bdd, int> where; for (auto &kv : g.slot) if (!where.count(kv.second)) where[kv.second] = kv.first;
    for (int j = 1; j <= k; j++) { vector<int> x;
      if (isUn(f)) x = {j}; else if (isTern(f)) { if (f == "ite") x = {s, j, ex[0]}; else if (f == "comp") x = {j, s, ex[0]}; else x = {j, s, ex[0]}; } else x = {s, j};
      if (!g.slot.count(j)) die("row slot");
      Cal_Bdd h = anyop(g, f, x); auto it = where.find(h); r.push_back(h == 0 ? -1 : it == where.end() ? 0 : it->second); if (h) Cal_BddFree(g.m, h); }
    begin("row"); jstr("f", f); jlist("a", vector<int>{s}); jlist("p", ex); jlist("v", r); finish(); return; }
  if (c == "qrow") {             // qrow NAME K P : query over slots 1..K
    string f = a[1]; int k = I(a,2), p = a.size() > 3 ? I(a,3) : 0; vector<long> v;
    for (int j = 1; j <= k; j++) {
      Cal_Bdd h = S(j);
      if (f == "size") v.push_back(Cal_BddSize(g.m, h, p)); else if (f == "type") v.push_back(Cal_BddType(g.m, h));
      else if (f == "cube") v.push_back(Cal_BddIsBddZero(g.m, h) ? -1 : Cal_BddIsCube(g.m, h)); else if (f == "frac") v.push_back(llround(Cal_BddSatisfyingFraction(g.m, h) * 16.0 * g.W));
      else if (f == "dep") v.push_back(Cal_BddDependsOn(g.m, h, S(p))); else die("qrow"); }
    begin("qrow"); jstr("f", f); jlist("p", vector<int>{p}); jlist("v", v); finish(); return; }
  if (c == "gc") { int r = Cal_BddManagerGC(g.m); (void)r; begin("gc"); jnum("sn", saturatedNodes(g)); finish(); return; }
  if (c == "reorder") { Cal_BddReorder(g.m); begin("reorder"); finish(); return; }
  if (c == "dyn") { int t = I(a,1), m = I(a,2); Cal_BddDynamicReordering(g.m, t, m); begin("dyn"); jlist("p", vector<int>{t, m}); finish(); return; }
  if (c == "params") { Cal_BddManagerSetParameters(g.m, atol(a[1].c_str()), atol(a[2].c_str()), atof(a[3].c_str()), atof(a[4].c_str())); begin("params"); finish(); return; }
  if (c == "limit") { long n = atol(a[1].c_str()); long o = Cal_BddNodeLimit(g.m, n); begin("limit"); jlist("p", vector<long>{n}); jlist("v", vector<long>{o}); finish(); return; }
  if (c == "bounded") { begin("bounded"); jlist("p", vector<int>{I(a,1)}); finish(); return; }
  if (c == "gcmode") { Cal_BddSetGCMode(g.m, I(a,1)); begin("gcmode"); jlist("p", vector<int>{I(a,1)}); finish(); return; }
  if (c == "gclimit") { Cal_BddManagerSetGCLimit(g.m); begin("gclimit"); finish(); return; }
  if (c == "ovf") { int o = Cal_BddOverflow(g.m); begin("ovf"); jlist("v", vector<int>{o}); finish(); return; }
  if (c == "hset") { Cal_BddManagerSetHooks(g.m, (void*)(intptr_t)I(a,1)); begin("hset"); jlist("p", vector<int>{I(a,1)}); finish(); return; }
  if (c == "hget") { int o = (int)(intptr_t)Cal_BddManagerGetHooks(g.m); begin("hget"); jlist("v", vector<int>{o}); finish(); return; }
  // associations
  if (c == "ainit") { int nm = I(a,1), pairs = I(a,2); vector<int> x = ints(a, 3); auto h = handles(x);
    int id = Cal_AssociationInit(g.m, h.data(), pairs); g.assoc[nm] = id;
    begin("ainit"); jlist("a", x); jlist("p", vector<int>{pairs}); jlist("v", vector<int>{id}); finish(); return; }
  if (c == "aquit" || c == "aset") { int nm = I(a,1); int id = a.size() > 2 ? I(a,2) : nm < 0 ? -1 : g.assoc.count(nm) ? g.assoc[nm] : -1;
    if (c == "aquit") { Cal_AssociationQuit(g.m, id); begin("aquit"); jlist("p", vector<int>{id}); finish(); }
    else { int o = Cal_AssociationSetCurrent(g.m, id); begin("aset"); jlist("p", vector<int>{id}); jlist("v", vector<int>{o}); finish(); }
    return; }
  if (c == "tinit" || c == "taug") { int pairs = I(a,1); vector<int> x = ints(a, 2); auto h = handles(x);
    if (c == "tinit") Cal_TempAssociationInit(g.m, h.data(), pairs); else Cal_TempAssociationAugment(g.m, h.data(), pairs);
    begin(c.c_str()); jlist("a", x); jlist("p", vector<int>{pairs}); finish(); return; }
  if (c == "tquit") { Cal_TempAssociationQuit(g.m); begin("tquit"); finish(); return; }
  if (c == "afill") {            // afill N : N further associations of the first four variables with literals, all different
    int n = I(a,1), nv = (int)g.vf.size() - 1, base = 2 * nv + 1; vector<Cal_Bdd> lit(1, (Cal_Bdd)0);
    for (int i = 1; i <= nv; i++) { Cal_Bdd x = Cal_BddManagerGetVarWithId(g.m, i); lit.push_back(x); lit.push_back(Cal_BddNot(g.m, x)); }
    std::set<int> ids; vector<long> v(1, 0);
    for (int k = 1; k <= n; k++) { Cal_Bdd pr[9]; int q = 0, w = g.filled + k;
      for (int j = 1; j <= 4; j++, w /= base) if (w % base) { pr[q++] = lit[2 * j - 1]; pr[q++] = lit[w % base]; }
      if (w) die("afill full");
      pr[q] = 0; ids.insert(Cal_AssociationInit(g.m, pr, 1)); }
    for (int i = 1; i <= 2 * nv; i++) Cal_BddFree(g.m, lit[i]);
    g.filled += n; v[0] = (long)ids.size() - (ids.count(-1) ? 1 : 0);
    for (auto &kv : g.assoc) if (ids.count(kv.second)) v.push_back(kv.second);
    begin("afill"); jlist("p", vector<int>{n}); jlist("v", v); finish(); return; }
  if (c == "spin") {             // spin N F : N times exists/forall of F under the temporary association, results freed
    long n = atol(a[1].c_str()); int s = I(a,2); string f = a.size() > 3 ? a[3] : "ex"; Cal_Bdd first = 0; long diff = 0;
    for (long i = 0; i < n; i++) { Cal_Bdd h = unop(g, f, S(s)); if (!i) first = h; else if (h != first) diff++; if (h) Cal_BddFree(g.m, h); }
    begin("spin"); jstr("f", f); jlist("a", vector<int>{s}); jlist("v", vector<long>{diff}); finish(); return; }
  // pipeline
  if (c == "pi") { Cal_BddOp_t o = a[1] == "and" ? CAL_AND : a[1] == "or" ? CAL_OR : a[1] == "xor" ? CAL_XOR : (Cal_BddOp_t)77; int r = Cal_PipelineInit(g.m, o); begin("pi"); jstr("f", a[1]); jlist("v", vector<int>{r}); finish(); return; }
  if (c == "psetdepth") { Cal_PipelineSetDepth(g.m, I(a,1)); begin("psetdepth"); jlist("p", vector<int>{I(a,1)}); finish(); return; }
  if (c == "pc") { int d = I(a,1); vector<int> x = ints(a, 2); if (g.slot.count(d) || g.prov.count(d)) die("pc busy"); Cal_Bdd h = Cal_PipelineCreateProvisionalBdd(g.m, S(x[0]), S(x[1])); if (h) g.prov[d] = h;
    begin("pc"); jnum("d", d); jlist("a", x); jlist("v", vector<int>{h != 0, h ? (Cal_BddIsProvisional(g.m, h) ? 1 : 0) : 0}); finish(); return; }
  if (c == "px") { int r = Cal_PipelineExecute(g.m); if (!r && g.m->pipelineState == READY) g.prov.clear(); begin("px"); jlist("v", vector<int>{r}); finish(); return; }
  if (c == "pu") { int d = I(a,1), p = I(a,2); Cal_Bdd h = Cal_PipelineUpdateProvisionalBdd(g.m, S(p)); begin("pu"); jlist("a", vector<int>{p}); result(d, h); finish(); return; }
  if (c == "pq") { Cal_PipelineQuit(g.m); g.prov.clear(); begin("pq"); finish(); return; }
  // files
  if (c == "dump") { string id = a[1]; int s = I(a,2); vector<int> x = ints(a, 3); auto h = handles(x); FILE *fp = fopen(fpath(id).c_str(), "wb"); if (!fp) die("scratch");
    int r = Cal_BddDumpBdd(g.m, S(s), h.data(), fp); fclose(fp); auto by = slurp(fpath(id));
    begin("dump"); jstr("fid", id); jlist("a", vector<int>{s}); jlist("p", x); jlist("v", vector<long>{r, (long)by.size()}); finish(); return; }
  if (c == "undump") { string id = a[1]; int d = I(a,2); vector<int> x = ints(a, 3); auto h = handles(x); FILE *fp = fopen(fpath(id).c_str(), "rb"); if (!fp) die("no file %s", id.c_str());
    int err = -1; Cal_Bdd r = Cal_BddUndumpBdd(g.m, h.data(), fp, &err); fclose(fp);
    begin("undump"); jstr("fid", id); jlist("p", x); jlist("v", vector<int>{err}); result(d, r); finish(); return; }
  if (c == "damage") {           // damage NEW OLD trunc N | flip OFF VAL | put OFF VAL.. | app VAL..
    auto by = slurp(fpath(a[2])); string k = a[3]; long n = atol(a[4].c_str());
    if (k == "trunc") { if (n < 0) n = by.size() + n; if (n < 0) n = 0; if (n < (long)by.size()) by.resize(n); }
    else if (k == "flip") { long off = by.empty() ? 0 : n % (long)by.size(); if (!by.empty()) by[off] ^= (unsigned char)I(a,5); }
    else if (k == "put") { for (size_t i = 5; i < a.size(); i++) { size_t o = n + (i - 5); if (o >= by.size()) by.resize(o + 1); by[o] = (unsigned char)I(a,i); } }
    else die("damage");
    spit(fpath(a[1]), by); begin("damage"); jstr("fid", a[1]); finish(); return; }
  // blocks
  if (c == "blk") { int b = I(a,1), s = I(a,2); long n = atol(a[3].c_str()); g.blocks[b] = Cal_BddNewVarBlock(g.m, S(s), n); begin("blk"); jnum("b", b); jlist("a", vector<int>{s}); jlist("p", vector<long>{n}); jlist("v", vector<int>{g.blocks[b] != 0}); finish(); return; }
  if (c == "blkre") { int b = I(a,1), r = I(a,2); if (!g.blocks.count(b)) die("blkre"); Cal_BddVarBlockReorderable(g.m, g.blocks[b], r); begin("blkre"); jnum("b", b); jlist("p", vector<int>{r}); finish(); return; }
  // printing
  if (c == "pr") { int s = I(a,1), nm = I(a,2); string path = scratch + "/pr.txt"; FILE *fp = fopen(path.c_str(), "w");
    Cal_BddPrintBdd(g.m, S(s), nm ? nameV : Cal_BddNamingFnNone, Cal_BddTerminalIdFnNone, 0, fp); fclose(fp);
    fp = fopen(path.c_str(), "r"); string t = printTokens(g, fp); fclose(fp);
    begin("pr"); jlist("a", vector<int>{s}); jlist("p", vector<int>{nm}); jkey("v"); J += t; finish(); return; }
  if (c == "fpr") { int s = I(a,1); string name = "nm"; string t = captureStdout([&] { Cal_BddFunctionPrint(g.m, S(s), (char*)name.c_str()); });
    // tokens: 1 "(" 2 ")" 3 letter 4 "+" 5 letter' 6 0/1
    string out = "["; bool first = true; std::istringstream is(t); string w; int bad = 0;
    is >> w; if (w != "nm") bad = 1; is >> w; if (w != "=") bad = 1;
    while (is >> w) { int k = 0, n = 0; if (w == "(") k = 1; else if (w == ")") k = 2; else if (w == "+") k = 4; else if (w == "0" || w == "1") { k = 6; n = w[0] - '0'; }
      else if (w.size() == 1 && w[0] >= 'a') { k = 3; n = w[0] - 'a' + 1; } else if (w.size() == 2 && w[1] == '\'') { k = 5; n = w[0] - 'a' + 1; } else bad = 1;
      if (!first) out += ","; first = false; out += "[" + std::to_string(k) + "," + std::to_string(n) + "]"; }
    begin("fpr"); jlist("a", vector<int>{s}); jlist("p", vector<int>{bad}); jkey("v"); J += out + "]"; finish(); return; }
  if (c == "snap") { snapshot(g); return; }
  if (c == "q") { query(g, a); return; }
  die("unknown command %s", c.c_str());
}

// ---- snapshot of the node store ----------------------------------------------
// nodes numbered from 1; edges as signed numbers (negative: complemented); 0 = the constant One
static void snapshot(Mgr &g) {
  std::unordered_map<const void*, int> num; int n = 0; int nv = (int)Cal_BddVars(g.m);
  for (int id = 1; id <= nv; id++) probeEachNode(g.m, id, [&](CalBddNode_t *p, long) { if (!num.count(p)) num[p] = ++n; });
  int dangling = 0;
  // edge code: 2*number + sign
  auto enc = [&](const PEdge &e) -> long { if (e.node.isOne) return e.neg ? 1 : 0; auto it = num.find(e.node.key); if (it == num.end()) { dangling++; return -1; } return 2L * it->second + (e.neg ? 1 : 0); };
  string ns = "["; bool first = true; long cnt = 0; int cntBad = 0;
  for (int id = 1; id <= nv; id++) { long c = 0;
    probeEachNode(g.m, id, [&](CalBddNode_t *p, long) { c++; cnt++;
      PEdge t = probeThenRaw(g.m, p), e = probeElseRaw(g.m, p);
      if (!first) ns += ","; first = false;
      ns += "[" + std::to_string(id) + "," + std::to_string(enc(t)) + "," + std::to_string(enc(e)) + "," + std::to_string(probeNodeRefCount(p)) + "]"; });
    if (c != probeTableCount(g.m, id)) cntBad++; }
  string us = "["; first = true;
  probeEachNode(g.m, 0, [&](CalBddNode_t *p, long) { PEdge t = probeThenRaw(g.m, p); if (!first) us += ","; first = false;
    us += "[" + std::to_string(enc(t)) + "," + std::to_string(probeNodeRefCount(p)) + "]"; });
  string as = "["; first = true;
  probeEachAssoc(g.m, [&](int aid, int v, const PEdge &e) { if (!first) as += ","; first = false; as += "[" + std::to_string(aid) + "," + std::to_string(v) + "," + std::to_string(enc(e)) + "]"; });
  begin("snap"); jkey("nodes"); J += ns + "]"; jkey("users"); J += us + "]"; jkey("as"); J += as + "]"; jnum("dg", dangling); jnum("cb", cntBad); finish();
}

// ---- block allocator -----------------------------------------------------------
struct MBlk { unsigned char *p; size_t n; unsigned seed; };
static map<int, MBlk> MB; static map<int, Cal_RecMgr> RMG; static map<int, std::pair<int, unsigned char*>> RECS; static map<int, int> RSZ;
static char *memBase = 0;
static void fillB(MBlk &b) { for (size_t i = 0; i < b.n; i++) b.p[i] = (unsigned char)(b.seed * 131u + i * 7u + (i >> 8)); }
static size_t okPrefix(const MBlk &b, size_t n) { for (size_t i = 0; i < n; i++) if (b.p[i] != (unsigned char)(b.seed * 131u + i * 7u + (i >> 8))) return i; return n; }
static void memFinish() {          // which blocks and records lost their contents
  vector<int> bad; for (auto &kv : MB) if (okPrefix(kv.second, kv.second.n) != kv.second.n) { bad.push_back(kv.first); fillB(kv.second); }
  for (auto &kv : RECS) { MBlk b{kv.second.second, (size_t)RSZ[kv.second.first], (unsigned)kv.first}; if (okPrefix(b, b.n) != b.n) { bad.push_back(100000 + kv.first); fillB(b); } }
  jlist("bad", bad); jnum("tot", (long)(Cal_MemAllocation() / 1024)); finish();
}
static void memAddr(const char *k, void *p) {   // offset from the first address, split in 2^16 pages (32-bit integers in TLC)
  if (!memBase) memBase = (char*)p; long off = (char*)p - memBase; long hi = off >= 0 ? off / 65536 : -((-off + 65535) / 65536); jlist(k, vector<long>{hi, off - hi * 65536}); }
static unsigned memSeed = 1;
static void memCommand(const vector<string> &a) {
  string c = a[1];
  if (c == "get") { int id = I(a,2); size_t n = strtoul(a[3].c_str(), 0, 10); void *p = Cal_MemGetBlock(n); begin("mget"); jnum("id", id); jnum("n", (long)n); jnum("nul", p == 0); jnum("al", (long)((uintptr_t)p % sizeof(void*)));
    if (p) { memAddr("ad", p); MBlk b{(unsigned char*)p, n, memSeed++}; fillB(b); MB[id] = b; } else jlist("ad", vector<int>{0, 0}); memFinish(); return; }
  if (c == "free") { int id = I(a,2); if (!MB.count(id)) die("mem free"); Cal_MemFreeBlock(MB[id].p); MB.erase(id); begin("mfree"); jnum("id", id); memFinish(); return; }
  if (c == "freenull") { Cal_MemFreeBlock(0); begin("mnop"); memFinish(); return; }
  if (c == "resize") { int id = I(a,2); size_t n = strtoul(a[3].c_str(), 0, 10); bool had = MB.count(id); MBlk o = had ? MB[id] : MBlk{0, 0, 0};
    void *p = Cal_MemResizeBlock(o.p, n); begin("mresize"); jnum("id", id); jnum("n", (long)n); jnum("old", (long)o.n); jnum("had", had); jnum("nul", p == 0); jnum("al", (long)((uintptr_t)p % sizeof(void*)));
    if (p) { memAddr("ad", p); MBlk b{(unsigned char*)p, n, o.seed}; size_t keep = had ? std::min(o.n, n) : 0; jnum("kept", okPrefix(b, keep) == keep); b.seed = memSeed++; fillB(b); MB[id] = b; }
    else { jlist("ad", vector<int>{0, 0}); jnum("kept", 1); MB.erase(id); }
    memFinish(); return; }
  if (c == "newmgr") { int id = I(a,2), sz = I(a,3); RMG[id] = Cal_MemNewRecMgr(sz); RSZ[id] = sz; begin("rnewmgr"); jnum("id", id); jnum("n", sz); memFinish(); return; }
  if (c == "freemgr") { int id = I(a,2); for (auto it = RECS.begin(); it != RECS.end();) if (it->second.first == id) it = RECS.erase(it); else ++it; Cal_MemFreeRecMgr(RMG[id]); RMG.erase(id); begin("rfreemgr"); jnum("id", id); memFinish(); return; }
  if (c == "new") { int m = I(a,2), r = I(a,3); if (!RMG.count(m)) die("rec mgr"); void *p = Cal_MemNewRec(RMG[m]); begin("rnew"); jnum("mg", m); jnum("id", r); jnum("n", RSZ[m]); jnum("nul", p == 0); jnum("al", (long)((uintptr_t)p % sizeof(void*)));
    memAddr("ad", p); RECS[r] = {m, (unsigned char*)p}; MBlk b{(unsigned char*)p, (size_t)RSZ[m], (unsigned)r}; fillB(b); memFinish(); return; }
  if (c == "del") { int r = I(a,2); if (!RECS.count(r)) die("rec"); Cal_MemFreeRec(RMG[RECS[r].first], RECS[r].second); RECS.erase(r); begin("rdel"); jnum("id", r); memFinish(); return; }
  if (c == "morecore") { void *p = sbrk(I(a,2)); (void)p; begin("mnop"); memFinish(); return; }   // somebody else moves the break
  die("mem %s", c.c_str());
}
#include "wrapper.inc"
