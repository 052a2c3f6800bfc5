// Shared harness code: PRNG, case loop, violation reporting, error-print capture,
// graph generators with exact-size user arrays, snapshots.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <numeric>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
extern "C" {
#include "scotch.h"
}

typedef SCOTCH_Num Num;
typedef uint64_t u64;
using std::vector;
using std::string;
using std::map;
using std::pair;
using std::set;

// ---------------------------------------------------------------- PRNG
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  long below(long n) { return n <= 0 ? 0 : (long)(next() % (u64)n); }
  long range(long a, long b) { return a + below(b - a + 1); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> void shuffle(vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below((long)i)]); }
  template <class T> const T& pick(const vector<T>& v) { return v[below((long)v.size())]; }
};

static inline u64 hash64(u64 h, u64 v) {
  h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
  return h;
}
static inline u64 hashStr(const string& s) { u64 h = 1469598103934665603ULL; for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211ULL; } return h; }

// ---------------------------------------------------------------- run state
struct CaseAbort {};
struct Harness {
  u64 seed = 1; long from = 0, to = 0; string tier = "quick"; string out; string progress; string tmp = "/tmp";
  int rank = 0;
  long cur = -1;
  int progfd = -1;
  long evals = 0, nontrivial = 0, monitored = 0;
  map<string, long> feat;
  std::unordered_set<u64> sigs;
  vector<string> samples;
  vector<string> viols;
  bool verbose = false;
};
static Harness H;

static inline bool thorough() { return H.tier == "thorough"; }
static inline void feat(const string& k, long n = 1) { H.feat[k] += n; }
static inline void sig(u64 h) { H.sigs.insert(h); }

static inline string vfmt(const char* f, va_list ap) { char b[4096]; vsnprintf(b, sizeof b, f, ap); return b; }
static inline string fmt(const char* f, ...) { va_list ap; va_start(ap, f); string s = vfmt(f, ap); va_end(ap); return s; }
static string g_desc;                                   // description of the current case
static inline void desc(const char* f, ...) { va_list ap; va_start(ap, f); g_desc += vfmt(f, ap) + "; "; va_end(ap); if (H.verbose) fprintf(stderr, "  .. %s\n", g_desc.c_str()); }

// Report a violation and abandon the current case.
[[noreturn]] static inline void viol(const char* key, const char* f, ...) {
  va_list ap; va_start(ap, f); string d = vfmt(f, ap); va_end(ap);
  string line = fmt("VIOL\t%ld\t%s\t", H.cur, key) + d + " [" + g_desc + "]";
  for (char& c : line) if (c == '\n') c = ' ';
  fprintf(stderr, "%s\n", line.c_str()); fflush(stderr);
  throw CaseAbort();
}
#define CHECK(c, key, ...) do { __atomic_fetch_add(&H.monitored, 1, __ATOMIC_RELAXED); if (!(c)) viol(key, __VA_ARGS__); } while (0)

// ---------------------------------------------------------------- Scotch error-print capture
static pthread_mutex_t g_errmtx = PTHREAD_MUTEX_INITIALIZER;
static string g_err; static int g_errnbr, g_warnnbr;
extern "C" {
void SCOTCH_errorProg(const char* const) {}
void SCOTCH_errorPrint(const char* const f, ...) {
  va_list ap; va_start(ap, f); string s = vfmt(f, ap); va_end(ap);
  pthread_mutex_lock(&g_errmtx); __atomic_fetch_add(&g_errnbr, 1, __ATOMIC_RELAXED); if (g_err.size() < 600) g_err += s + " | "; pthread_mutex_unlock(&g_errmtx);
  if (H.verbose) fprintf(stderr, "  ERR %s\n", s.c_str());
}
void SCOTCH_errorPrintW(const char* const f, ...) {
  va_list ap; va_start(ap, f); string s = vfmt(f, ap); va_end(ap);
  pthread_mutex_lock(&g_errmtx); g_warnnbr++; pthread_mutex_unlock(&g_errmtx);
  if (H.verbose) fprintf(stderr, "  WARN %s\n", s.c_str());
}
}
static inline void errClear() { pthread_mutex_lock(&g_errmtx); g_err.clear(); g_errnbr = 0; g_warnnbr = 0; pthread_mutex_unlock(&g_errmtx); }
// A call that must succeed: return code 0 and no error message from inside the library.
static inline void mustOk(int rc, const char* what) {
  __atomic_fetch_add(&H.monitored, 1, __ATOMIC_RELAXED);
  if (rc != 0 || __atomic_load_n(&g_errnbr, __ATOMIC_RELAXED) != 0) viol("call-failed", "%s rc=%d err=%s", what, rc, g_err.c_str());
}

// ---------------------------------------------------------------- exact-size buffers (red zones on both sides under ASan)
struct Buf {
  Num* p = nullptr; size_t n = 0; vector<Num> snap;
  Buf() {}
  ~Buf() { free(p); }
  Buf(const Buf&) = delete; Buf& operator=(const Buf&) = delete;
  Buf(Buf&& o) noexcept : p(o.p), n(o.n), snap(std::move(o.snap)) { o.p = nullptr; o.n = 0; }
  Buf& operator=(Buf&& o) noexcept { std::swap(p, o.p); std::swap(n, o.n); std::swap(snap, o.snap); return *this; }
  void alloc(size_t m) { free(p); n = m; p = (Num*)malloc(m ? m * sizeof(Num) : 1); for (size_t i = 0; i < m; i++) p[i] = (Num)-77777; }
  void set(const vector<Num>& v) { alloc(v.size()); if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(Num)); }
  void save() { snap.assign(p, p + n); }
  bool same() const { return p == nullptr || (n == snap.size() && (n == 0 || memcmp(p, snap.data(), n * sizeof(Num)) == 0)); }
  vector<Num> vec() const { return vector<Num>(p, p + n); }
  Num& operator[](size_t i) { return p[i]; }
};

// ---------------------------------------------------------------- logical graph
struct LG {                                             // 0-based logical graph
  long n = 0;
  vector<vector<pair<int, Num>>> adj;                    // neighbour, edge load
  vector<Num> velo, vlbl;                                // empty if absent
  bool edlo = false;
  string kind;
  long arcs() const { long a = 0; for (auto& v : adj) a += (long)v.size(); return a; }
  Num vl(long v) const { return velo.empty() ? 1 : velo[v]; }
  long long velosum() const { long long s = 0; if (velo.empty()) return n; for (Num x : velo) s += x; return s; }
  long long edlosum() const { long long s = 0; for (auto& v : adj) for (auto& e : v) s += e.second; return s; }
  long degmax() const { size_t d = 0; for (auto& v : adj) d = std::max(d, v.size()); return (long)d; }
};

struct LGB {                                            // builder: set of undirected edges
  long n; vector<set<int>> s;
  explicit LGB(long nn) : n(nn), s(nn) {}
  void e(long a, long b) { if (a == b || a < 0 || b < 0 || a >= n || b >= n) return; s[a].insert((int)b); s[b].insert((int)a); }
};

static inline LG finish(LGB& b, const char* kind, Rng& r, bool relabel) {
  LG g; g.n = b.n; g.kind = kind; g.adj.resize(b.n);
  vector<int> perm(b.n); std::iota(perm.begin(), perm.end(), 0);
  if (relabel) r.shuffle(perm);
  for (long v = 0; v < b.n; v++) {
    auto& a = g.adj[perm[v]];
    for (int w : b.s[v]) a.push_back({perm[w], 1});
    std::sort(a.begin(), a.end());
    if (relabel || r.chance(0.3)) r.shuffle(a);
  }
  return g;
}

// Random graph of at most about nmax vertices.
static LG genGraph(Rng& r, long nmax, int forceKind = -1) {
  int k = forceKind >= 0 ? forceKind : (int)r.below(24);
  bool rel = r.chance(0.5);
  auto N = [&](long lo) { long m = std::max(lo, nmax); return r.chance(0.3) ? r.range(lo, std::max(lo, std::min(m, (long)12))) : r.range(lo, m); };
  switch (k) {
    case 0: { LGB b(N(1)); for (long i = 1; i < b.n; i++) b.e(i - 1, i); return finish(b, "path", r, rel); }
    case 1: { LGB b(N(3)); for (long i = 0; i < b.n; i++) b.e(i, (i + 1) % b.n); return finish(b, "cycle", r, rel); }
    case 2: { LGB b(N(2)); for (long i = 1; i < b.n; i++) b.e(0, i); return finish(b, "star", r, rel); }
    case 3: { LGB b(std::min(N(1), (long)40)); for (long i = 0; i < b.n; i++) for (long j = 0; j < i; j++) b.e(i, j); return finish(b, "complete", r, rel); }
    case 4: { long n = std::min(N(2), (long)60), m = r.range(1, n - 1); LGB b(n); for (long i = 0; i < m; i++) for (long j = m; j < n; j++) b.e(i, j); return finish(b, "bipartite", r, rel); }
    case 5: case 6: case 7: { long n = N(1); long x = std::max(1L, (long)std::sqrt((double)n)); if (r.chance(0.3)) x = r.range(1, std::max(1L, n / 2)); long y = std::max(1L, n / x); LGB b(x * y); bool diag = r.chance(0.3);
      for (long i = 0; i < x; i++) for (long j = 0; j < y; j++) { if (i + 1 < x) b.e(i * y + j, (i + 1) * y + j); if (j + 1 < y) b.e(i * y + j, i * y + j + 1); if (diag && i + 1 < x && j + 1 < y) { b.e(i * y + j, (i + 1) * y + j + 1); b.e((i + 1) * y + j, i * y + j + 1); } }
      return finish(b, "grid2", r, rel); }
    case 8: case 9: { long n = N(1); long x = std::max(1L, (long)std::cbrt((double)n)), y = x, z = std::max(1L, n / (x * y)); LGB b(x * y * z);
      for (long i = 0; i < x; i++) for (long j = 0; j < y; j++) for (long l = 0; l < z; l++) { long u = (i * y + j) * z + l; if (i + 1 < x) b.e(u, u + y * z); if (j + 1 < y) b.e(u, u + z); if (l + 1 < z) b.e(u, u + 1); }
      return finish(b, "grid3", r, rel); }
    case 10: { long n = N(9); long x = std::max(3L, (long)std::sqrt((double)n)), y = x; LGB b(x * y); for (long i = 0; i < x; i++) for (long j = 0; j < y; j++) { b.e(i * y + j, ((i + 1) % x) * y + j); b.e(i * y + j, i * y + (j + 1) % y); } return finish(b, "torus", r, rel); }
    case 11: { long d = 0; while ((1L << (d + 1)) <= nmax && d < 8) d++; d = r.range(0, d); LGB b(1L << d); for (long i = 0; i < b.n; i++) for (long j = 0; j < d; j++) b.e(i, i ^ (1L << j)); return finish(b, "hcube", r, rel); }
    case 12: { LGB b(N(2)); for (long i = 1; i < b.n; i++) b.e(i, (i - 1) / 2); return finish(b, "bintree", r, rel); }
    case 13: { LGB b(N(2)); for (long i = 1; i < b.n; i++) b.e(i, r.below(i)); return finish(b, "rtree", r, rel); }
    case 14: case 15: { LGB b(N(2)); long m = (long)(b.n * r.unit() * 4); for (long i = 0; i < m; i++) b.e(r.below(b.n), r.below(b.n)); return finish(b, "er", r, rel); }
    case 16: { LGB b(std::min(N(4), (long)400)); vector<double> x(b.n), y(b.n); for (long i = 0; i < b.n; i++) { x[i] = r.unit(); y[i] = r.unit(); } double rad = std::sqrt((1.0 + 5 * r.unit()) / (double)b.n); for (long i = 0; i < b.n; i++) for (long j = 0; j < i; j++) if ((x[i]-x[j])*(x[i]-x[j]) + (y[i]-y[j])*(y[i]-y[j]) < rad * rad) b.e(i, j); return finish(b, "geom", r, rel); }
    case 17: { LGB b(N(3)); vector<long> t; t.push_back(0); long m = r.range(1, 3); for (long i = 1; i < b.n; i++) { for (long q = 0; q < m; q++) { long w = t[r.below((long)t.size())]; if (w != i) { b.e(i, w); t.push_back(w); } } t.push_back(i); } return finish(b, "plaw", r, rel); }
    case 18: { LGB b(N(2)); long o = 0; while (o < b.n) { long c = std::min(b.n - o, r.range(1, 1 + b.n / 3)); long t = r.below(4); for (long i = 1; i < c; i++) { if (t == 0) b.e(o + i - 1, o + i); else if (t == 1) b.e(o, o + i); else if (t == 2) b.e(o + i, o + r.below(i)); else if (c < 15) for (long j = 0; j < i; j++) b.e(o + i, o + j); else b.e(o + i - 1, o + i); } o += c; } return finish(b, "disco", r, rel); }
    case 19: { LGB b(N(1)); if (r.chance(0.5)) for (long i = 0; i + 1 < b.n / 2; i++) b.e(i, i + 1); return finish(b, "isolated", r, rel); }
    case 20: { LGB b(r.range(1, 3)); for (long i = 0; i < b.n; i++) for (long j = 0; j < i; j++) if (r.chance(0.5)) b.e(i, j); return finish(b, "tiny", r, rel); }
    case 21: { long n = N(4), q = std::max(2L, r.range(2, 12)); LGB b(n); for (long o = 0; o < n; o += q) { for (long i = o; i < std::min(n, o + q); i++) for (long j = o; j < i; j++) b.e(i, j); if (o) b.e(o, o - 1); } return finish(b, "caveman", r, rel); }
    case 22: { long c = N(2); LGB b(c); long h = r.range(1, std::max(1L, c / 3)); for (long i = 1; i < h; i++) b.e(i, i - 1); for (long i = h; i < c; i++) b.e(i, r.below(h)); return finish(b, "caterpillar", r, rel); }
    default: { long n = N(3); LGB b(n); long kk = r.range(1, std::max(1L, std::min(6L, n / 3))); for (long i = 0; i < n; i++) for (long j = 1; j <= kk; j++) if (r.chance(0.9)) b.e(i, (i + j) % n); return finish(b, "band", r, rel); }
  }
}

// Random weights. style: 0 none
static void addWeights(Rng& r, LG& g, bool allowZero = true, long maxw = 1000) {
  int t = (int)r.below(6);
  if (t >= 2 && g.n > 0) {
    g.velo.resize(g.n);
    for (auto& w : g.velo) w = (Num)(t == 2 ? 1 : t == 3 ? r.range(1, 10) : t == 4 ? (r.chance(0.1) ? r.range(1, maxw) : 1) : r.range(allowZero ? 0 : 1, 3));
    long long s = 0; for (Num w : g.velo) s += w; if (s == 0) g.velo[0] = 1;
  }
  int u = (int)r.below(6);
  if (u >= 2) {
    g.edlo = true;
    for (long v = 0; v < g.n; v++) for (auto& e : g.adj[v]) if (e.first > v) {
      Num w = (Num)(u == 2 ? 1 : u == 3 ? r.range(1, 10) : u == 4 ? (r.chance(0.1) ? r.range(1, maxw) : 1) : r.range(1, 3));
      e.second = w; for (auto& f : g.adj[e.first]) if (f.first == v) f.second = w;
    }
  }
}
static void addLabels(Rng& r, LG& g, long base) {
  g.vlbl.resize(g.n); vector<Num> p(g.n);
  int t = (int)r.below(3); long m = t == 0 ? 1 : r.range(1, 7), o = t == 0 ? base : r.range(0, 1000);
  for (long i = 0; i < g.n; i++) p[i] = (Num)(o + i * m);
  r.shuffle(p); g.vlbl = p;
}

// Physical graph: user arrays, in random layouts, bound to a SCOTCH_Graph.
struct PG {
  const LG* g = nullptr; Num base = 0; bool compact = true; long edgesiz = 0;
  Buf vert, vend, velo, vlbl, edge, edlo;
  SCOTCH_Graph* gr = nullptr;
  PG() {}
  PG(const PG&) = delete;
  ~PG() { if (gr) { SCOTCH_graphExit(gr); free(gr); } }
  void layout(Rng& r, const LG& lg, Num b, bool cmp, bool explicitVend = false) {
    g = &lg; base = b; compact = cmp; long n = lg.n;
    vector<Num> vt(n + 1), ve(n), eg, el;
    if (cmp) {
      for (long v = 0; v < n; v++) { vt[v] = b + (Num)eg.size(); for (auto& e : lg.adj[v]) { eg.push_back(e.first + b); el.push_back(e.second); } ve[v] = b + (Num)eg.size(); }
      vt[n] = b + (Num)eg.size();
    } else {
      vector<long> o(n); std::iota(o.begin(), o.end(), 0); if (r.chance(0.7)) r.shuffle(o);
      double gp = r.unit() * 0.7;
      auto gap = [&]() { while (r.chance(gp)) { eg.push_back((Num)-55555); el.push_back((Num)-66666); } };
      for (long v : o) { gap(); vt[v] = b + (Num)eg.size(); for (auto& e : lg.adj[v]) { eg.push_back(e.first + b); el.push_back(e.second); } ve[v] = b + (Num)eg.size(); }
      gap(); vt.resize(n);
    }
    edgesiz = (long)eg.size();
    vert.set(vt);
    if (!cmp || explicitVend) vend.set(ve);
    edge.set(eg);
    if (lg.edlo) edlo.set(el);
    if (!lg.velo.empty()) velo.set(lg.velo);
    if (!lg.vlbl.empty()) { vector<Num> l = lg.vlbl; vlbl.set(l); }
  }
  void build() {
    gr = (SCOTCH_Graph*)malloc(SCOTCH_graphSizeof());
    mustOk(SCOTCH_graphInit(gr), "graphInit");
    mustOk(SCOTCH_graphBuild(gr, base, (Num)g->n, vert.p, vend.p ? vend.p : (vert.p ? vert.p + 1 : nullptr), velo.p, vlbl.p, (Num)g->arcs(), edge.p, edlo.p), "graphBuild");
  }
  void save() { vert.save(); vend.save(); velo.save(); vlbl.save(); edge.save(); edlo.save(); }
  void checkUntouched(const char* what) {
    CHECK(vert.same() && vend.same() && velo.same() && vlbl.same() && edge.same() && edlo.same(), "user-graph-modified", "%s modified caller's graph arrays", what);
  }
};
static Num pickBase(Rng& r) { int t = (int)r.below(8); return t < 4 ? 0 : t < 7 ? 1 : (Num)r.range(2, 5000); }
static void randomPG(Rng& r, PG& p, const LG& g) {
  bool c = r.chance(0.6);
  p.layout(r, g, pickBase(r), c, c && r.chance(0.3)); p.build(); p.save();
  feat(c ? "layout:compact" : "layout:gaps"); feat(p.base == 0 ? "base:0" : p.base == 1 ? "base:1" : "base:big");
}

// Read any library graph back into a canonical logical form (sorted adjacency), validating raw structure.
static LG readGraph(const SCOTCH_Graph* gr, Num* basep = nullptr, bool sorted = true) {
  Num base, n, en, *vt, *ve, *vl, *lb, *et, *el;
  SCOTCH_graphData(gr, &base, &n, &vt, &ve, &vl, &lb, &en, &et, &el);
  LG g; g.n = n; g.adj.resize(n); g.edlo = el != nullptr; if (basep) *basep = base;
  if (vl) g.velo.assign(vl, vl + n);
  if (lb) g.vlbl.assign(lb, lb + n);
  long arcs = 0;
  for (long v = 0; v < n; v++) {
    for (Num e = vt[v]; e < ve[v]; e++) { g.adj[v].push_back({(int)(et[e - base] - base), el ? el[e - base] : 1}); arcs++; }
    if (sorted) std::sort(g.adj[v].begin(), g.adj[v].end());
  }
  CHECK(arcs == en, "graph-edgenbr", "edge number %ld differs from sum of degrees %ld", (long)en, arcs);
  return g;
}
static void sortAdj(LG& g) { for (auto& a : g.adj) std::sort(a.begin(), a.end()); }
static string validLG(const LG& g) {                    // empty if a valid graph
  for (long v = 0; v < g.n; v++) {
    set<int> seen;
    for (auto& e : g.adj[v]) {
      if (e.first < 0 || e.first >= g.n) return fmt("vertex %ld has neighbour %d out of range", v, e.first);
      if (e.first == v) return fmt("loop on %ld", v);
      if (!seen.insert(e.first).second) return fmt("duplicate arc %ld-%d", v, e.first);
      bool ok = false; for (auto& f : g.adj[e.first]) if (f.first == v && f.second == e.second) ok = true;
      if (!ok) return fmt("arc %ld-%d has no matching reverse arc", v, e.first);
    }
  }
  return "";
}
static u64 hashLG(const LG& g) { u64 h = hash64(7, g.n); for (auto& a : g.adj) { h = hash64(h, a.size()); for (auto& e : a) { h = hash64(h, e.first); h = hash64(h, e.second); } } for (Num w : g.velo) h = hash64(h, w); return h; }
static string showLG(const LG& g) { return fmt("%s n=%ld arcs=%ld%s%s%s", g.kind.c_str(), g.n, g.arcs(), g.velo.empty() ? "" : " velo", g.edlo ? " edlo" : "", g.vlbl.empty() ? "" : " vlbl"); }

// ---------------------------------------------------------------- threads
static void setThreads(int n) { char b[16]; snprintf(b, sizeof b, "%d", n); setenv("SCOTCH_PTHREAD_NUMBER", b, 1); }
static int pickThreads(Rng& r) { int t = r.chance(0.75) ? 1 : (int)r.range(2, 5); setThreads(t); feat(fmt("threads:%d", t)); return t; }

struct StratH {
  SCOTCH_Strat* s; string txt;
  StratH() { s = (SCOTCH_Strat*)malloc(SCOTCH_stratSizeof()); SCOTCH_stratInit(s); }
  ~StratH() { SCOTCH_stratExit(s); free(s); }
  StratH(const StratH&) = delete;
};
static string slurp(FILE* f) { string s; char b[4096]; size_t k; rewind(f); while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); return s; }
struct MemFile {                                         // output stream into memory
  char* p = nullptr; size_t n = 0; FILE* f; MemFile() { f = open_memstream(&p, &n); } ~MemFile() { if (f) fclose(f); free(p); }
  string str() { fflush(f); return string(p, n); }
};
static FILE* memIn(const string& s) { return fmemopen((void*)s.data(), s.size() ? s.size() : 1, "r"); }

// ---------------------------------------------------------------- case loop
static void runCase(long n, Rng& r);                    // supplied by each harness
static inline string jesc(const string& s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static void dumpStats() {
  if (H.out.empty() || H.rank != 0) return;
  string t = H.out + ".tmp"; FILE* f = fopen(t.c_str(), "w"); if (!f) return;
  fprintf(f, "{\"evals\":%ld,\"nontrivial\":%ld,\"monitored\":%ld,\"feat\":{", H.evals, H.nontrivial, H.monitored);
  bool first = true; for (auto& k : H.feat) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(k.first).c_str(), k.second); first = false; }
  fprintf(f, "},\"sigs\":["); first = true; long c = 0; for (u64 s : H.sigs) { if (c++ > 200000) break; fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)s); first = false; }
  fprintf(f, "],\"samples\":["); first = true; for (auto& s : H.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f); rename(t.c_str(), H.out.c_str());
}
static void caseLoop(long stride) {
  for (long n = H.from; n < H.to; n += stride) {
    H.cur = n; g_desc.clear(); errClear();
    if (H.progfd >= 0) { char b[32]; int k = snprintf(b, sizeof b, "%-20ld\n", n); if (pwrite(H.progfd, b, k, 0) < 0) {} }
    Rng r(hash64(hash64(0x5c07c4, H.seed), (u64)n)); r.next();
    SCOTCH_randomSeed((Num)(r.next() & 0x7fffffff)); SCOTCH_randomReset();
    H.evals++;
    try { runCase(n, r); if (H.samples.size() < 4) H.samples.push_back(fmt("case %ld: ", n) + g_desc); }
    catch (CaseAbort&) {}
    if (H.evals % 500 == 0) dumpStats();
  }
  if (H.progfd >= 0) { const char* e = "done                \n"; if (pwrite(H.progfd, e, 21, 0) < 0) {} }
  dumpStats();
}
static long parseArgs(int argc, char** argv) {
  long stride = 1;
  for (int i = 1; i + 1 < argc; i += 2) {
    string k = argv[i], v = argv[i + 1];
    if (k == "--seed") H.seed = strtoull(v.c_str(), 0, 10); else if (k == "--from") H.from = atol(v.c_str()); else if (k == "--to") H.to = atol(v.c_str());
    else if (k == "--stride") stride = atol(v.c_str()); else if (k == "--tier") H.tier = v; else if (k == "--out") H.out = v; else if (k == "--progress") H.progress = v; else if (k == "--tmp") H.tmp = v;
    else if (k == "--case") { H.from = atol(v.c_str()); H.to = H.from + 1; } else if (k == "--verbose") H.verbose = v == "1";
  }
  return stride;
}
#ifndef NO_MAIN
int main(int argc, char** argv) {
  long stride = parseArgs(argc, argv);
  if (!H.progress.empty()) H.progfd = open(H.progress.c_str(), O_CREAT | O_RDWR, 0600);
  caseLoop(stride);
  _exit(0);
}
#endif
