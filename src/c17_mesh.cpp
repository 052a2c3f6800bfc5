// C17: graphs of meshes, dual graphs, mesh orderings.
#include "genmord.hpp"

struct GX { SCOTCH_Graph* g; GX() : g(SCOTCH_graphAlloc()) { SCOTCH_graphInit(g); } ~GX() { SCOTCH_graphExit(g); free(g); } };
static LG nodeGraph(const LM& m) {
  LG g; g.n = m.nn; g.adj.resize(g.n); vector<set<int>> s(g.n);
  for (auto& e : m.en) for (int a : e) for (int b : e) if (a != b) s[a].insert(b);
  for (long v = 0; v < g.n; v++) for (int w : s[v]) g.adj[v].push_back({w, 1});
  return g;
}
static void compare(const SCOTCH_Graph* gr, Num base, const vector<set<int>>& want, const vector<Num>& w, const char* what) {
  errClear(); mustOk(SCOTCH_graphCheck(gr), "graphCheck");
  Num b, n, *vt, *ve, *vl, *lb, en, *et, *el; SCOTCH_graphData(gr, &b, &n, &vt, &ve, &vl, &lb, &en, &et, &el);
  CHECK(b == base, "base", "%s has base %ld instead of %ld", what, (long)b, (long)base); CHECK(n == (Num)want.size(), "vertices", "%s has %ld vertices instead of %zu", what, (long)n, want.size());
  long arcs = 0;
  for (long v = 0; v < n; v++) {
    std::multiset<int> s; for (Num k = vt[v]; k < ve[v]; k++) s.insert((int)(et[k - b] - b)); arcs += (long)s.size();
    for (int x : s) CHECK(s.count(x) == 1, "duplicate", "%s: edge %ld-%d appears twice", what, v, x);
    for (int x : s) CHECK(want[v].count(x), "extra-edge", "%s: %ld and %d should not be neighbours", what, v, x);
    for (int x : want[v]) CHECK(s.count(x), "missing-edge", "%s: %ld and %d should be neighbours", what, v, x);
    if (el) for (Num k = vt[v]; k < ve[v]; k++) CHECK(el[k - b] == 1, "edge-weight", "%s has weighted edges", what);
    CHECK((vl ? vl[v] : 1) == (w.empty() ? 1 : w[v]), "vertex-weight", "%s: vertex %ld has weight %ld instead of %ld", what, v, vl ? (long)vl[v] : 1L, w.empty() ? 1L : (long)w[v]);
  }
  CHECK(arcs == en, "edges", "%s announces %ld arcs and has %ld", what, (long)en, arcs);
}
static void caseGraph(Rng& r) {
  LM m = genMesh(r, r.chance(0.7) ? 40 : 200); if (r.chance(0.15)) { m.lbl.resize(m.ne + m.nn); std::iota(m.lbl.begin(), m.lbl.end(), 5); r.shuffle(m.lbl); }
  PM p; randomPM(r, p, m); desc("%s base=%ld ebas=%ld", showLM(m).c_str(), (long)p.base, (long)p.ebas); feat("mkind:" + m.kind);
  GX g; bool dual = r.chance(0.5);
  if (!dual) {
    mustOk(SCOTCH_meshGraph(p.me, g.g), "meshGraph"); feat("call:meshGraph"); vector<set<int>> want(m.nn); for (auto& e : m.en) for (int a : e) for (int b : e) if (a != b) want[a].insert(b);
    compare(g.g, p.base, want, m.nw, "node graph");
  } else {
    long nc = r.range(1, 5); desc("ncom=%ld", nc); mustOk(SCOTCH_meshGraphDual(p.me, g.g, (Num)nc), "meshGraphDual"); feat("call:meshGraphDual"); vector<set<int>> want(m.ne); vector<map<int, int>> sh(m.ne);
    for (long v = 0; v < m.nn; v++) for (int a : m.nenum[v]) for (int b : m.nenum[v]) if (a != b) sh[a][b]++;
    for (long e = 0; e < m.ne; e++) for (auto& x : sh[e]) if (x.second >= std::min({nc, (long)m.en[e].size() - 1, (long)m.en[x.first].size() - 1})) want[e].insert(x.first);
    compare(g.g, p.base, want, m.ew, "dual graph");
  }
  p.checkUntouched("mesh to graph"); errClear();
  if (r.chance(0.3)) {                                    // the graph serves as any other graph
    Num b, n; SCOTCH_graphData(g.g, &b, &n, 0, 0, 0, 0, 0, 0, 0); StratH st; Buf perm, part; perm.alloc(n); part.alloc(n); feat("use"); if (r.chance(0.5)) { mustOk(SCOTCH_graphOrder(g.g, st.s, perm.p, 0, 0, 0, 0), "graphOrder"); checkOrdering(n, b, perm.p, 0, n ? 1 : 0, 0, 0); } else { long k = r.range(1, 6); mustOk(SCOTCH_graphPart(g.g, (Num)k, st.s, part.p), "graphPart"); for (long i = 0; i < n; i++) CHECK(part.p[i] >= 0 && part.p[i] < k, "part", "part %ld of %ld", (long)part.p[i], k); }
  }
  if (m.arcs() > 2) H.nontrivial++;
  sig(hash64(hashLM(m), (u64)dual * 2 + (p.ebas > p.nbas)));
}
static void caseOrder(Rng& r) {
  LM m = genMesh(r, r.chance(0.6) ? 40 : r.chance(0.8) ? 250 : 900); if (m.nn < 1) return; if (r.chance(0.1)) { m.lbl.resize(m.ne + m.nn); std::iota(m.lbl.begin(), m.lbl.end(), 5); }
  int thr = pickThreads(r); PM p; randomPM(r, p, m); StratH st; int t = (int)r.below(10); bool def = false;
  if (t < 2) { st.txt = "default"; def = true; } else if (t < 4) { double bal = 0.01 + r.unit() * 0.4; st.txt = fmt("build(%.3f)", bal); mustOk(SCOTCH_stratMeshOrderBuild(st.s, 0, bal), "stratMeshOrderBuild"); def = true; } else { st.txt = genMOrd(r, 3); mustOk(SCOTCH_stratMeshOrder(st.s, st.txt.c_str()), st.txt.c_str()); }
  desc("mesh order %s base=%ld ebas=%ld thr=%d strat %s", showLM(m).c_str(), (long)p.base, (long)p.ebas, thr, st.txt.c_str()); feat("mkind:" + m.kind); feat(def ? "mstrat:default" : "mstrat:random");
  bool all = r.chance(0.7); Buf perm, peri, rang, tree; Num cblk = -5; perm.alloc(m.nn); peri.alloc(m.nn); rang.alloc(m.nn + 1); tree.alloc(m.nn);
  bool hp = all || r.chance(0.5), hi = all || r.chance(0.5), hc = all || r.chance(0.5), hr = all || r.chance(0.5), ht = all || r.chance(0.5); errClear();
  if (r.chance(0.5)) { feat("call:meshOrder"); mustOk(SCOTCH_meshOrder(p.me, st.s, hp ? perm.p : 0, hi ? peri.p : 0, hc ? &cblk : 0, hr ? rang.p : 0, ht ? tree.p : 0), "meshOrder"); }
  else {
    feat("call:meshOrderCompute"); SCOTCH_Ordering* o = SCOTCH_orderAlloc(); mustOk(SCOTCH_meshOrderInit(p.me, o, hp ? perm.p : 0, hi ? peri.p : 0, hc ? &cblk : 0, hr ? rang.p : 0, ht ? tree.p : 0), "meshOrderInit");
    struct OX { SCOTCH_Mesh* m; SCOTCH_Ordering* o; ~OX() { SCOTCH_meshOrderExit(m, o); free(o); } } ox{p.me, o}; mustOk(SCOTCH_meshOrderCompute(p.me, o, st.s), "meshOrderCompute"); mustOk(SCOTCH_meshOrderCheck(p.me, o), "meshOrderCheck");
  }
  p.checkUntouched("meshOrder");
  checkOrdering(m.nn, p.base, hp ? perm.p : 0, hi ? peri.p : 0, hc ? cblk : 1, hc && hr ? rang.p : 0, hc && ht ? tree.p : 0);
  if (hp && hc && hr && ht) { LG g = nodeGraph(m); long x = checkSeparation(g, p.base, perm.p, cblk, rang.p, tree.p); feat(cblk > 1 ? "cblk:many" : "cblk:one"); if (x > 0) H.nontrivial++; }
  GX g; mustOk(SCOTCH_meshGraph(p.me, g.g), "meshGraph after ordering"); LG ng = nodeGraph(m); vector<set<int>> want(m.nn); for (long v = 0; v < m.nn; v++) for (auto& e : ng.adj[v]) want[v].insert(e.first); compare(g.g, p.base, want, m.nw, "node graph");
  sig(hash64(hashLM(m), hashStr(st.txt)));
}
static void runCase(long n, Rng& r) { if (n % 2) caseGraph(r); else caseOrder(r); }

