// Conformance driver: executes a script of public CAL calls against the real
// library and records one JSON event per call at the call's return (the
// linearisation point of a sequential library).  Nothing is judged here; the
// TLA+ trace specification (spec/TraceCal.tla) decides whether the recorded
// events are a behaviour of the specification (spec/Cal.tla).
//
// Observation of functions: every live handle is evaluated on a finite sample
// space of 2^N points (each variable is given a 0/1 value at each point), by a
// read-only walk over the node graph.  Unchanged values are not repeated: each
// event carries the list of handles whose value differs from what was last
// recorded ("chg"), which is a lossless encoding of "the value of everything".
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <climits>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <fstream>
#include <unistd.h>
#include <signal.h>
#include <functional>
#include <utility>
#include <iterator>
#include <type_traits>
extern "C" {
#include "cal.h"
#include "calInt.h"
}
#include "calObj.hh"
#include "probe.h"

using std::string; using std::vector; using std::map; using std::set;
typedef vector<uint16_t> TT;

// ---- allocation accounting (linked with -Wl,--wrap) -------------------------
static long g_blocks = 0;
extern "C" {
  void *__real_malloc(size_t); void __real_free(void*); void *__real_realloc(void*, size_t);
  void *__real_calloc(size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
  void *__wrap_malloc(size_t n){ void *p = __real_malloc(n); if (p) g_blocks++; return p; }
  void __wrap_free(void *p){ if (p) g_blocks--; __real_free(p); }
  void *__wrap_realloc(void *q, size_t n){ void *p = __real_realloc(q, n); if (!q && p) g_blocks++; return p; }
  void *__wrap_calloc(size_t a, size_t b){ void *p = __real_calloc(a, b); if (p) g_blocks++; return p; }
  void *__wrap_aligned_alloc(size_t a, size_t b){ void *p = __real_aligned_alloc(a, b); if (p) g_blocks++; return p; }
}

static FILE *LOG;
static string scratch = ".";
[[noreturn]] static void die(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); fprintf(stderr, "DRIVER-SCRIPT-ERROR: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap);
  fflush(LOG); _exit(3);
}

struct Mgr {
  bool alive = false;
  Cal_BddManager m = nullptr;
  int N = 4; int W = 1;
  vector<TT> vf{TT()};           // by id, [0] unused
  map<int, Cal_Bdd> slot;        // live ordinary handles
  map<int, int> refs;            // references owned through the slot
  map<int, Cal_Bdd> pub;         // last known handle, also of freed slots
  map<int, Cal_Bdd> prov;        // provisional handles
  map<int, TT> last;             // last recorded value of each live slot
  vector<int> lastOrder;
  map<int, int> assoc;           // script name -> association id
  int filled = 0;                // associations made by afill
  map<int, Cal_Block> blocks;
  long blocks0 = 0;              // allocation balance before creation
};
static map<int, Mgr> MG;
static int cur = 0;
static int structErr = 0;

// ---- evaluation -------------------------------------------------------------
static TT constTT(Mgr &g, bool one) { return TT(g.W, one ? 0xffff : 0); }
struct Eval {
  Mgr &g; std::unordered_map<const void*, TT> memo;
  Eval(Mgr &gg) : g(gg) {}
  const TT &node(const PNode &n, int minIndex, int depth) {   // value of a regular node
    auto it = memo.find(n.key);
    if (it != memo.end()) return it->second;
    if (n.isOne) return memo[n.key] = constTT(g, true);
    if (depth > 70000 || n.id < 1 || n.id >= (int)g.vf.size()) { structErr |= 1; return memo[n.key] = TT(g.W, 0x5a5a); }
    int ix = probeIndexOf(g.m, n.id);
    if (ix < minIndex) structErr |= 2;
    PEdge t = probeThen(g.m, n), e = probeElse(g.m, n);
    if (t.neg) structErr |= 4;
    TT a = node(t.node, ix + 1, depth + 1); TT b = node(e.node, ix + 1, depth + 1);
    TT r(g.W); if (g.vf[n.id].empty()) { structErr |= 8; return memo[n.key] = TT(g.W, 0x5a5a); }   // an idle variable
    const TT &v = g.vf[n.id];
    for (int i = 0; i < g.W; i++) {
      uint16_t x = t.neg ? ~a[i] : a[i], y = e.neg ? ~b[i] : b[i];
      r[i] = (v[i] & x) | (~v[i] & y);
    }
    return memo[n.key] = r;
  }
  TT edge(const PEdge &e) {
    TT r = node(e.node, 0, 0);
    if (e.neg) for (auto &w : r) w = ~w;
    return r;
  }
  TT handle(Cal_Bdd h) { return edge(probeHandle(g.m, h)); }
};

// ---- JSON -------------------------------------------------------------------
static string J;      // current event
static void jkey(const char *k) { if (J.size() > 1) J += ","; J += "\""; J += k; J += "\":"; }
static void jnum(const char *k, long v) { jkey(k); J += std::to_string(v); }
static void jstr(const char *k, const string &v) { jkey(k); J += "\"";
  for (char c : v) { if (c == '"' || c == '\\') { J += '\\'; J += c; } else if ((unsigned char)c < 32) J += ' '; else J += c; } J += "\""; }
template<class C> static string jl(const C &c) { string s = "["; bool f = true; for (auto x : c) { if (!f) s += ","; f = false; s += std::to_string((long)x); } return s + "]"; }
template<class C> static void jlist(const char *k, const C &c) { jkey(k); J += jl(c); }
static string RS;     // results of the current event
static int evalEvery = 1, evalCount = 0;
static void begin(const char *e) { J = "{"; RS.clear(); jstr("e", e); jnum("m", cur); }

static vector<int> orderOf(Mgr &g) {
  vector<int> o; long n = Cal_BddVars(g.m);
  for (long i = 0; i < n; i++) o.push_back(probeIdAt(g.m, i));
  return o;
}

// common observations, appended to every event
static void finish() {
  if (!RS.empty()) { jkey("rs"); J += "[" + RS + "]"; RS.clear(); }
  string chg = "[";
  bool first = true;
  if (++evalCount >= evalEvery) evalCount = 0;
  if (evalCount == 0) for (auto &kv : MG) {
    Mgr &g = kv.second; if (!g.alive) continue;
    Eval ev(g);
    for (auto &s : g.slot) {
      TT t = ev.handle(s.second);
      auto it = g.last.find(s.first);
      if (it == g.last.end()) { g.last[s.first] = t; }
      else if (it->second != t) {
        if (!first) chg += ","; first = false;
        chg += "[" + std::to_string(kv.first) + "," + std::to_string(s.first) + "," + jl(t) + "]";
        it->second = t;
      }
    }
  }
  chg += "]";
  jkey("chg"); J += chg;
  auto it = MG.find(cur);
  if (it != MG.end() && it->second.alive) {
    Mgr &g = it->second;
    vector<int> o = orderOf(g);
    if (o == g.lastOrder) jlist("o", vector<int>()); else { jlist("o", o); g.lastOrder = o; }
    bool mapsOk = true;       // index and identifier maps are mutually inverse
    for (size_t i = 0; i < o.size(); i++) if (o[i] < 1 || o[i] > (int)o.size() || probeIndexOf(g.m, o[i]) != (int)i) mapsOk = false;
    jnum("mo", mapsOk ? 1 : 0);
    jnum("nv", Cal_BddVars(g.m));
    jnum("nn", (long)Cal_BddManagerGetNumNodes(g.m));
    jnum("ov", probeOverflow(g.m));
  } else { jlist("o", vector<int>()); jnum("mo", 1); jnum("nv", 0); jnum("nn", 0); jnum("ov", 0); }
  jnum("se", structErr);
  structErr = 0;
  J += "}\n";
  fputs(J.c_str(), LOG); fflush(LOG);
}

static Mgr &G() { auto it = MG.find(cur); if (it == MG.end() || !it->second.alive) die("no manager %d", cur); return it->second; }
static Cal_Bdd S(int s) {      // slot (or provisional); absent slot = null diagram
  Mgr &g = G();
  auto it = g.slot.find(s); if (it != g.slot.end()) return it->second;
  auto jt = g.prov.find(s); if (jt != g.prov.end()) return jt->second;
  return (Cal_Bdd)0;
}
// record that a call returned handle h with one fresh reference, into slot d
static void result(int d, Cal_Bdd h) {
  Mgr &g = G();
  if (g.slot.count(d) || g.prov.count(d)) die("slot %d busy", d);
  string r = "{\"d\":" + std::to_string(d);
  if (h == 0) r += ",\"t\":[],\"q\":[],\"n\":[],\"rc\":0,\"rg\":0}";
  else {
    Eval ev(g);
    TT t = ev.handle(h);
    vector<int> q, n;
    for (auto &s : g.slot) {
      if (s.second == h) q.push_back(s.first);
      else if (probeNot(s.second) == h) n.push_back(s.first);
    }
    g.slot[d] = h; g.refs[d] = 1; g.last[d] = t; g.pub[d] = h;
    r += ",\"t\":" + jl(t) + ",\"q\":" + jl(q) + ",\"n\":" + jl(n) + ",\"rc\":" + std::to_string(probeRefCount(h))
       + ",\"rg\":" + std::to_string(probeIsRegular(h) ? 1 : 0) + "}";
  }
  if (!RS.empty()) RS += ",";
  RS += r;
}

static uint64_t splitmix(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
// c<k>: coordinate k; m<seed>/<lo>: pseudo-random function of the coordinates >= lo
static TT ttSpec(Mgr &g, const string &s, int &coord) {
  TT t(g.W, 0); long P = 16L * g.W;
  auto setb = [&](long p) { t[p / 16] |= (uint16_t)(1u << (p % 16)); };
  if (s[0] == 'c') { coord = atoi(s.c_str() + 1); for (long p = 0; p < P; p++) if ((p >> coord) & 1) setb(p); }
  else if (s[0] == 'm') {
    coord = -1; size_t sl = s.find('/');
    uint64_t seed = strtoull(s.c_str() + 1, 0, 10); int lo = sl == string::npos ? 0 : atoi(s.c_str() + sl + 1);
    vector<int> bit(P >> lo);
    for (auto &b : bit) b = splitmix(seed) & 1;
    bit[bit.size() - 1] = 1; bit[0] = 0;
    for (long p = 0; p < P; p++) if (bit[p >> lo]) setb(p);
  } else die("bad function spec %s", s.c_str());
  return t;
}

#include "commands.inc"

static void onAlarm(int) { fprintf(stderr, "DRIVER-TIMEOUT\n"); _exit(4); }

int main(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage: driver script log scratch [seconds]\n"); return 3; }
  std::ifstream in(argv[1]);
  if (!in) return 3;
  LOG = fopen(argv[2], "w"); if (!LOG) return 3;
  scratch = argv[3];
  signal(SIGALRM, onAlarm); alarm(argc > 4 ? atoi(argv[4]) : 120);
  string line; long ln = 0;
  while (std::getline(in, line)) {
    ln++;
    if (line.empty() || line[0] == '#') continue;
    std::istringstream is(line);
    vector<string> a; string w; while (is >> w) a.push_back(w);
    if (a.empty()) continue;
    command(a, ln);
  }
  fprintf(LOG, "%s", ""); fclose(LOG);
  fflush(stdout);
  return 0;
}
