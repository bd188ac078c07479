// C++ wrapper programs (calObj.hh).  Objects live on the heap so that a script
// decides when they are constructed, assigned, moved from and destroyed.
static map<int, Cal*> XC; static map<int, map<int, BDD*>> XO; static map<int, long> XB0; static map<int, map<int, int>> XA;
static BDD &X(int s) { auto &o = XO[cur]; auto it = o.find(s); if (it == o.end()) die("no object %d", s); return *it->second; }
static string xobjects(int m) {
  Mgr &g = MG[m]; Eval ev(g); string o = "["; bool first = true;
  for (auto &kv : XO[m]) { BDD &b = *kv.second; if (!first) o += ","; first = false;
    o += "{\"i\":" + std::to_string(kv.first) + ",\"t\":" + (b._bdd == 0 ? string("[]") : jl(ev.handle(b._bdd))) + ",\"rc\":" + std::to_string(b._bdd == 0 ? 0 : probeRefCount(b._bdd)) + "}"; }
  return o + "]";
}
static void xfinish() { jkey("ob"); J += xobjects(cur); finish(); }
static vector<BDD> xvec(const vector<int> &x) { vector<BDD> r; for (int s : x) r.push_back(X(s)); return r; }
static BDD xexpr(const string &f, const vector<string> &a, size_t p) {   // value of an expression
  Cal &C = *XC[cur]; auto O = [&](size_t i) -> BDD& { return X(I(a, p + i)); };
  if (f == "def") return BDD();
  if (f == "null") return C.Null();
  if (f == "one") return C.One();
  if (f == "zero") return C.Zero();
  if (f == "vid") return C.Id(I(a, p));
  if (f == "vidx") return C.Index(I(a, p));
  if (f == "id") return O(0).Identity();
  if (f == "cid") return C.Identity(O(0));
  if (f == "not") return O(0).Not();
  if (f == "cnot") return C.Not(O(0));
  if (f == "tilde") return ~O(0);
  if (f == "reg") return O(0).Regular();
  if (f == "if") return O(0).If();
  if (f == "then") return O(0).Then();
  if (f == "else") return O(0).Else();
  if (f == "cif") return C.If(O(0));
  if (f == "cthen") return C.Then(O(0));
  if (f == "celse") return C.Else(O(0));
  if (f == "and") return O(0).And(O(1));
  if (f == "or") return O(0).Or(O(1));
  if (f == "xor") return O(0).Xor(O(1));
  if (f == "nand") return O(0).Nand(O(1));
  if (f == "nor") return O(0).Nor(O(1));
  if (f == "xnor") return O(0).Xnor(O(1));
  if (f == "diff") return O(0).Diff(O(1));
  if (f == "cand") return C.And(O(0), O(1));
  if (f == "cor") return C.Or(O(0), O(1));
  if (f == "cxor") return C.Xor(O(0), O(1));
  if (f == "cnand") return C.Nand(O(0), O(1));
  if (f == "cnor") return C.Nor(O(0), O(1));
  if (f == "cxnor") return C.Xnor(O(0), O(1));
  if (f == "opand") return O(0) & O(1);
  if (f == "opor") return O(0) | O(1);
  if (f == "opxor") return O(0) ^ O(1);
  if (f == "opdiff") return O(0) - O(1);
  if (f == "chain") return ~((O(0) & ~O(1)) | (O(2) ^ O(0)));
  if (f == "ite") return O(0).ITE(O(1), O(2));
  if (f == "cite") return C.ITE(O(0), O(1), O(2));
  if (f == "comp") return O(0).Compose(O(1), O(2));
  if (f == "ccomp") return C.Compose(O(0), O(1), O(2));
  if (f == "swap") return O(0).SwapVars(O(1), O(2));
  if (f == "cswap") return C.SwapVars(O(0), O(1), O(2));
  if (f == "inter") return O(0).Intersects(O(1));
  if (f == "cinter") return C.Intersects(O(0), O(1));
  if (f == "impl") return O(0).Implies(O(1));
  if (f == "cimpl") return C.Implies(O(0), O(1));
  if (f == "sat") return O(0).Satisfy();
  if (f == "csat") return C.Satisfy(O(0));
  if (f == "sats") return O(0).SatisfySupport();
  if (f == "csats") return C.SatisfySupport(O(0));
  if (f == "cof") return O(0).Cofactor(O(1));
  if (f == "ccof") return C.Cofactor(O(0), O(1));
  if (f == "red") return O(0).Reduce(O(1));
  if (f == "cred") return C.Reduce(O(0), O(1));
  if (f == "btw") return C.Between(O(0), O(1));
  if (f == "ex") return C.Exists(O(0));
  if (f == "all") return C.ForAll(O(0));
  if (f == "rp") return C.RelProd(O(0), O(1));
  if (f == "sub") return C.Substitute(O(0));
  if (f == "vsub") return C.VarSubstitute(O(0));
  if (f == "creg") return C.Regular(O(0));
  // by-value traffic through a container
  if (f == "vec") { vector<BDD> v; for (size_t i = p; i < a.size(); i++) v.push_back(X(I(a, i))); v.insert(v.begin(), v.back()); v.erase(v.begin() + 1); vector<BDD> w = v; v.clear(); w.resize(w.size() + 3); std::swap(w[0], w[w.size() - 1]); BDD r = std::move(w[w.size() - 1]); return r; }
  die("expression %s", f.c_str());
}
// A script is written for the values the specification expects; where an allowed
// different result (a null diagram above the node limit) makes a statement one
// that must not be executed, the null object is what the script goes on with.
static bool mustNot(const string &f, const vector<int> &x, int d, bool assign) {
  static const set<string> strict = {"id", "cid", "not", "cnot", "tilde", "reg", "creg", "chain"}, diff = {"diff", "opdiff"}, free0 = {"def", "null", "one", "zero", "vid", "vidx", "copy", "move", "vec"};
  auto null = [&](int s) { return X(s)._bdd == 0; }; auto unbound = [&](int s) { return X(s)._bddManager == nullptr; };
  if (free0.count(f)) return false;
  if (assign && (f == "andeq" || f == "oreq" || f == "xoreq" || f == "diffeq")) { if (unbound(d) || unbound(x[0]) || (f == "diffeq" && null(x[0]))) return true; return false; }
  for (int s : x) if (unbound(s) || (strict.count(f) && null(s))) return true;
  return diff.count(f) && null(x[1]);
}
static bool wrapCommand(const vector<string> &a) {
  const string &c = a[0];
  if (c == "xinit") { cur = I(a,1); int nv = I(a,3); if (MG.count(cur) && MG[cur].alive) die("xinit busy");
    bool none = true; for (auto &kv : MG) if (kv.second.alive) none = false;
    static long base = 0; if (none) base = g_blocks; long b0 = base; Cal *C = new Cal((unsigned)nv); MG.erase(cur); Mgr &g = MG[cur]; g.alive = true; g.m = C->_bddManager; g.N = I(a,2); g.W = g.N <= 4 ? 1 : 1 << (g.N - 4);
    XB0[cur] = b0; XC[cur] = C; XO[cur].clear(); XA[cur].clear(); for (int i = 0; i < nv; i++) { int co; g.vf.push_back(ttSpec(g, "c" + std::to_string(i), co)); }
    begin("xinit"); jnum("N", g.N); jnum("W", g.W); jnum("n", nv); xfinish(); return true; }
  Mgr &g = G(); if (!XC.count(cur)) return false; Cal &C = *XC[cur];
  if (c == "xquit") { for (auto &kv : XO[cur]) delete kv.second; XO.erase(cur); delete XC[cur]; XC.erase(cur); g.alive = false; g.lastOrder.clear();
    bool none = true; for (auto &kv : MG) if (kv.second.alive) none = false;
    long d = g_blocks - XB0[cur]; begin("xquit"); jnum("lk", none ? d : 0); finish(); return true; }
  if (c == "xcross") {      // object d of the current manager <- (a copy of / moved) object s of manager m; it becomes object d2 there
    int d = I(a,1), m2 = I(a,2), s = I(a,3), d2 = I(a,4), mv = I(a,5), m1 = cur; BDD *p = &X(d); if (!XO[m2].count(s) || XO[m2].count(d2)) die("xcross");
    if (mv) *p = std::move(*XO[m2][s]); else *p = *XO[m2][s];
    XO[m1].erase(d); XO[m2][d2] = p; cur = m2;
    begin("xcross"); jnum("m1", m1); jnum("d", d); jnum("s", s); jnum("d2", d2); jnum("mv", mv); jkey("ob1"); J += xobjects(m1); xfinish(); return true; }
  if (c == "xmovecal") { Cal *n = new Cal(std::move(C)); delete XC[cur]; XC[cur] = n; begin("xnop"); xfinish(); return true; }
  if (c == "xvar") { int d = I(a,1); int co; g.vf.push_back(ttSpec(g, a[2], co)); string pos = a[3]; if ((pos == "before" || pos == "after") && X(I(a,4))._bdd == 0) pos = "last";
    XO[cur][d] = new BDD(pos == "first" ? C.CreateNewVarFirst() : pos == "last" ? C.CreateNewVarLast() : pos == "before" ? C.CreateNewVarBefore(X(I(a,4))) : C.CreateNewVarAfter(X(I(a,4))));
    begin("xvar"); jnum("d", d); jnum("c", co); jlist("vt", g.vf.back()); jstr("pos", pos); jnum("s", a.size() > 4 ? I(a,4) : 0); xfinish(); return true; }
  if (c == "xo") { string f = a[1]; int d = I(a,2); if (mustNot(f, ints(a, 3), d, false)) return wrapCommand({"xo", "null", a[2]}); if (XO[cur].count(d)) die("xo busy %d", d); BDD *n;
    if (f == "copy") n = new BDD(X(I(a,3))); else if (f == "move") n = new BDD(std::move(X(I(a,3)))); else n = new BDD(xexpr(f, a, 3));
    XO[cur][d] = n; begin("xo"); jstr("f", f); jnum("d", d); jlist("a", ints(a, 3)); xfinish(); return true; }
  if (c == "xa") { string f = a[1]; int d = I(a,2); if (mustNot(f, ints(a, 3), d, true)) return wrapCommand({"xa", "null", a[2]});    // assignment to an existing object
    if (f == "copy") X(d) = X(I(a,3)); else if (f == "move") X(d) = std::move(X(I(a,3)));
    else if (f == "andeq") X(d) &= X(I(a,3)); else if (f == "oreq") X(d) |= X(I(a,3)); else if (f == "xoreq") X(d) ^= X(I(a,3)); else if (f == "diffeq") X(d) -= X(I(a,3));
    else X(d) = xexpr(f, a, 3);
    begin("xa"); jstr("f", f); jnum("d", d); jlist("a", ints(a, 3)); xfinish(); return true; }
  if (c == "xdel") { vector<int> x = ints(a, 1); for (int s : x) { delete &X(s); XO[cur].erase(s); } begin("xdel"); jlist("a", x); xfinish(); return true; }
  if (c == "xmw") { string f = a[1]; int how = I(a,2), d = I(a,3); vector<int> x = ints(a, 4); BDD *n;
    if (how == 2) { n = new BDD(f == "and" ? C.And(x.begin(), x.end()) : f == "or" ? C.Or(x.begin(), x.end()) : C.Xor(x.begin(), x.end())); }
    else { vector<BDD> v = xvec(x);
      if (how == 0) n = new BDD(f == "and" ? C.And(v.begin(), v.end()) : f == "or" ? C.Or(v.begin(), v.end()) : C.Xor(v.begin(), v.end()));
      else n = new BDD(f == "and" ? C.And(v) : f == "or" ? C.Or(v) : C.Xor(v)); }
    XO[cur][d] = n; begin("xmw"); jstr("f", f); jnum("how", how); jnum("d", d); jlist("a", x); xfinish(); return true; }
  if (c == "xpw") { string f = a[1]; int how = I(a,2), d = I(a,3); vector<int> x = ints(a, 4); int n; {
      vector<BDD> v = xvec(x), r;
      if (how == 0) r = f == "and" ? C.PairwiseAnd(v.begin(), v.end()) : f == "or" ? C.PairwiseOr(v.begin(), v.end()) : C.PairwiseXor(v.begin(), v.end());
      else r = f == "and" ? C.PairwiseAnd(v) : f == "or" ? C.PairwiseOr(v) : C.PairwiseXor(v);
      n = r.size(); for (int i = 0; i < n; i++) XO[cur][d + i] = new BDD(r[i]); }
    begin("xpw"); jstr("f", f); jnum("d", d); jlist("a", x); jnum("cnt", n); xfinish();
    for (int i = n; i < (int)x.size() / 2; i++) {      // an overflow or a null operand: what the script goes on with are null objects
      XO[cur][d + i] = new BDD(C.Null()); begin("xo"); jstr("f", "null"); jnum("d", d + i); jlist("a", vector<int>()); xfinish(); }
    return true; }
  if (c == "xas") { string f = a[1]; vector<long> v; vector<int> x; vector<int> p;      // associations
    if (f == "init" || f == "tinit" || f == "taug") for (int s : ints(a, 4)) if (X(s)._bdd == 0) return true;
    if (f == "init" || f == "initi" || f == "tinit" || f == "taug" || f == "tiniti" || f == "taugi") { int nm = I(a,2), pairs = I(a,3); p = {pairs}; x = ints(a, 4);
      if (f.back() == 'i') { if (f == "initi") v = {C.AssociationInit(x.begin(), x.end(), pairs != 0)}; else if (f == "tiniti") C.TempAssociationInit(x.begin(), x.end(), pairs != 0); else C.TempAssociationAugment(x.begin(), x.end(), pairs != 0); }
      else { vector<BDD> b = xvec(x); if (f == "init") v = {C.AssociationInit(b.begin(), b.end(), pairs != 0)}; else if (f == "tinit") C.TempAssociationInit(b.begin(), b.end(), pairs != 0); else C.TempAssociationAugment(b.begin(), b.end(), pairs != 0); }
      if (!v.empty()) XA[cur][nm] = v[0]; }
    else if (f == "set") { p = {I(a,2) < 0 || !XA[cur].count(I(a,2)) ? -1 : XA[cur][I(a,2)]}; v = {C.AssociationSetCurrent(p[0])}; }
    else if (f == "quit") { p = {XA[cur].count(I(a,2)) ? XA[cur][I(a,2)] : -1}; C.AssociationQuit(p[0]); }
    else if (f == "tquit") C.TempAssociationQuit();
    else die("xas");
    begin("xas"); jstr("f", f); jlist("a", x); jlist("p", p); jlist("v", v); xfinish(); return true; }
  if (c == "xq") { string f = a[1]; vector<int> x = ints(a, 2); vector<long> v; vector<int> p;
    if (f == "isone") v = {X(x[0]).IsOne()}; else if (f == "iszero") v = {X(x[0]).IsZero()}; else if (f == "isnull") v = {X(x[0]).IsNull()}; else if (f == "isconst") v = {X(x[0]).IsConst()};
    else if (f == "cisone") v = {C.IsOne(X(x[0]))}; else if (f == "ciszero") v = {C.IsZero(X(x[0]))}; else if (f == "cisnull") v = {C.IsNull(X(x[0]))}; else if (f == "cisconst") v = {C.IsConst(X(x[0]))};
    else if (f == "cube") v = {X(x[0]).IsCube()}; else if (f == "ccube") v = {C.IsCube(X(x[0]))};
    else if (f == "eq") v = {X(x[0]) == X(x[1])}; else if (f == "neq") v = {X(x[0]) != X(x[1])}; else if (f == "iseq") v = {X(x[0]).IsEqualTo(X(x[1]))}; else if (f == "ceq") v = {C.IsEqual(X(x[0]), X(x[1]))};
    else if (f == "dep") v = {X(x[0]).DependsOn(X(x[1]))}; else if (f == "cdep") v = {C.DependsOn(X(x[0]), X(x[1]))};
    else if (f == "ifid") v = {X(x[0]).Id()}; else if (f == "ifidx") v = {X(x[0]).Index()}; else if (f == "type") v = {X(x[0]).Type()};
    else if (f == "cifid") v = {C.IfId(X(x[0]))}; else if (f == "cifidx") v = {C.IfIndex(X(x[0]))};
    else if (f == "size") { v = {(long)X(x[0]).Size(x[1] != 0)}; p = {x[1]}; x.pop_back(); }
    else if (f == "sizem") { p = {x.back()}; x.pop_back(); auto b = xvec(x); v = {(long)C.Size(b.begin(), b.end(), p[0] != 0)}; }
    else if (f == "frac") { double sc = X(x[0]).SatisfyingFraction() * 16.0 * g.W; long n = llround(sc); v = {n, (double)n == sc}; }
    else if (f == "prof") { p = {x.back()}; x.pop_back(); v = X(x[0]).Profile(p[0] != 0); }
    else if (f == "profm") { p = {x.back()}; x.pop_back(); auto b = xvec(x); v = C.Profile(b.begin(), b.end(), p[0] != 0); }
    else if (f == "profc") { p = {x.back()}; x.pop_back(); auto b = xvec(x); v = C.Profile(b, p[0] != 0); }
    else if (f == "fprof") v = X(x[0]).FunctionProfile();
    else if (f == "fprofm") { auto b = xvec(x); v = C.FunctionProfile(b.begin(), b.end()); }
    else if (f == "vars") v = {C.Vars()}; else if (f == "nodes") v = {(long)C.Nodes(), (long)C.TotalSize()};
    else if (f == "rc") v = {X(x[0]).RefCount()};
    else if (f == "pr") { if (X(x[0])._bdd == 0) return true; string path = scratch + "/pr.txt"; FILE *fp = fopen(path.c_str(), "w"); X(x[0]).Print(fp); fclose(fp); fp = fopen(path.c_str(), "r"); string t = printTokens(g, fp); fclose(fp);
      begin("xpr"); jlist("a", x); jkey("v"); J += t; xfinish(); return true; }
    else if (f == "pprof" || f == "pfprof") { string path = scratch + "/pp.txt"; FILE *fp = fopen(path.c_str(), "w"); if (f == "pprof") X(x[0]).PrintProfile(79, fp); else X(x[0]).PrintFunctionProfile(79, fp);
      fclose(fp); fp = fopen(path.c_str(), "r"); int bad; vector<int> bars; v = profileTokens(g, fp, bad, bars); p = {0, bad, 79}; p.insert(p.end(), bars.begin(), bars.end()); fclose(fp); }
    else if (f == "pprofm" || f == "pfprofm") { auto b = xvec(x); string path = scratch + "/pp.txt"; FILE *fp = fopen(path.c_str(), "w"); if (f == "pprofm") C.PrintProfile(b, 79, fp); else C.PrintFunctionProfile(b, 79, fp);
      fclose(fp); fp = fopen(path.c_str(), "r"); int bad; vector<int> bars; v = profileTokens(g, fp, bad, bars); p = {0, bad, 79}; p.insert(p.end(), bars.begin(), bars.end()); fclose(fp); }
    else die("xq %s", f.c_str());
    begin("xq"); jstr("f", f); jlist("a", x); jlist("p", p); jlist("v", v); xfinish(); return true; }
  if (c == "xgc") { C.GC(); begin("xgc"); jnum("sn", saturatedNodes(g)); xfinish(); return true; }
  if (c == "xdyn") { C.DynamicReordering((Cal::ReorderTechnique)I(a,1), (Cal::ReorderMethod)I(a,2)); begin("xdyn"); jlist("p", ints(a, 1)); xfinish(); return true; }
  if (c == "xreorder") { C.Reorder(); begin("xreorder"); xfinish(); return true; }
  if (c == "xlimit") { long o = C.NodeLimit(I(a,1)); begin("xlimit"); jlist("p", vector<int>{I(a,1)}); jlist("v", vector<long>{o, C.Overflow()}); xfinish(); return true; }
  return false;
}
