// C14 (coarsening), C15 (-DINDUCE), C16 (-DCOLOR: coloring, diameter, base, data) on random graphs.
#include "gen.hpp"

static SCOTCH_Graph* newGraph() { SCOTCH_Graph* g = (SCOTCH_Graph*)malloc(SCOTCH_graphSizeof()); mustOk(SCOTCH_graphInit(g), "graphInit"); return g; }
static void freeGraph(SCOTCH_Graph* g) { SCOTCH_graphExit(g); free(g); }

#if !defined INDUCE && !defined COLOR
// Coarse graph is the quotient of the fine graph by cof (0-based coarse index of each fine vertex).
static void checkQuotient(const LG& g, const LG& c, const vector<long>& cof) {
  CHECK(validLG(c).empty(), "coarse-invalid", "coarse graph: %s", validLG(c).c_str());
  vector<long long> w(c.n, 0); for (long v = 0; v < g.n; v++) w[cof[v]] += g.vl(v);
  for (long x = 0; x < c.n; x++) CHECK((long long)c.vl(x) == w[x], "coarse-load", "coarse vertex %ld has load %ld instead of %lld", x, (long)c.vl(x), w[x]);
  vector<std::map<int, long long>> q(c.n);
  for (long v = 0; v < g.n; v++) for (auto& e : g.adj[v]) if (cof[v] != cof[e.first]) q[cof[v]][(int)cof[e.first]] += e.second;
  for (long x = 0; x < c.n; x++) {
    CHECK(q[x].size() == c.adj[x].size(), "coarse-degree", "coarse vertex %ld has %ld neighbours instead of %ld", x, (long)c.adj[x].size(), (long)q[x].size());
    for (auto& e : c.adj[x]) { auto it = q[x].find(e.first); CHECK(it != q[x].end(), "coarse-arc", "coarse arc %ld-%d does not exist in the quotient", x, e.first); CHECK(it->second == e.second, "coarse-arc-load", "coarse arc %ld-%d has load %ld instead of %lld", x, e.first, (long)e.second, it->second); }
  }
}
static bool adjacent(const LG& g, long a, long b) { for (auto& e : g.adj[a]) if (e.first == b) return true; return false; }
// A matched pair of non-adjacent vertices must share a neighbour (two-hop matching) or both be isolated.
static void checkPair(const LG& g, long a, long b, long flag) {
  if (a == b || adjacent(g, a, b)) { feat(a == b ? "pair:single" : "pair:edge"); return; }
  if (g.adj[a].empty() || g.adj[b].empty()) {
    CHECK(!(flag & SCOTCH_COARSENNOMERGE), "merge-isolated", "isolated vertices %ld and %ld merged although this is forbidden", a, b);
    feat("pair:isolated"); return;
  }
  bool common = false; for (auto& e : g.adj[a]) if (adjacent(g, e.first, b)) common = true;
  CHECK(common, "merge-far", "vertices %ld and %ld have no edge and no common neighbour", a, b);
  CHECK(!(flag & SCOTCH_COARSENNOMERGE), "merge-isolated", "non-adjacent vertices %ld and %ld merged although this is forbidden", a, b);
  feat("pair:twohop");
}
static vector<long> checkMult(const LG& g, Num b, const Num* mult, long cn, long flag) {
  vector<long> cof(g.n, -1);
  for (long x = 0; x < cn; x++) {
    long u = mult[2 * x] - b, v = mult[2 * x + 1] - b;
    CHECK(u >= 0 && u < g.n && v >= 0 && v < g.n, "mult-range", "multinode %ld holds %ld and %ld", x, (long)mult[2 * x], (long)mult[2 * x + 1]);
    CHECK(cof[u] == -1, "mult-twice", "vertex %ld belongs to two multinodes", u); cof[u] = x;
    if (v != u) { CHECK(cof[v] == -1, "mult-twice", "vertex %ld belongs to two multinodes", v); cof[v] = x; }
    if (flag >= 0) checkPair(g, u, v, flag);
  }
  for (long v = 0; v < g.n; v++) CHECK(cof[v] >= 0, "mult-missing", "vertex %ld belongs to no multinode", v);
  return cof;
}
static void runCase(long n, Rng& r) {
  long cls = r.below(100);
  long nmax = cls < 50 ? 40 : cls < 90 ? 300 : 1500;
  LG g = genGraph(r, nmax); if (r.chance(0.5)) addWeights(r, g);
  if (g.n < 1) return;
  int thr = pickThreads(r); PG p; randomPG(r, p, g); Num b = p.base;
  SCOTCH_Context* ctx = nullptr; SCOTCH_Graph* cg = nullptr; const SCOTCH_Graph* src = p.gr;
  if (r.chance(0.3)) { ctx = SCOTCH_contextAlloc(); mustOk(SCOTCH_contextInit(ctx), "contextInit"); if (r.chance(0.5)) mustOk(SCOTCH_contextThreadSpawn(ctx, (int)r.range(1, 6), nullptr), "spawn"); cg = newGraph(); mustOk(SCOTCH_contextBindGraph(ctx, p.gr, cg), "bind"); src = cg; feat("context"); }
  long flag = r.chance(0.5) ? SCOTCH_COARSENNOMERGE : 0; if (r.chance(0.2)) flag |= 0x1000000;
  double rat = r.chance(0.2) ? 1.0 : 0.5 + 0.5 * r.unit(); Num cmin = (Num)(r.chance(0.6) ? r.range(0, 4) : r.range(0, g.n + 2));
  int call = (int)r.below(4);
  desc("%s base=%ld thr=%d rat=%.3f min=%ld flag=%lx call=%d", showLG(g).c_str(), (long)b, thr, rat, (long)cmin, flag, call);
  feat("kind:" + g.kind); feat(fmt("call:%d", call));
  SCOTCH_Graph* c = newGraph();
  long lim = std::max(cmin, (Num)(g.n * rat)); (void)lim;
  if (call == 0 || call == 1) {
    Buf m; m.alloc(2 * g.n);
    errClear(); int rc = SCOTCH_graphCoarsen(src, cmin, rat, (Num)flag, c, m.p);
    if (rc == 1) { feat("refused"); CHECK(g_errnbr == 0, "error-message", "refusal printed an error"); }
    else {
      CHECK(cmin <= (long)(g.n * rat), "coarse-min", "coarsened although at most %ld coarse vertices are allowed, less than the %ld requested", (long)(g.n * rat), (long)cmin);
      mustOk(rc, "graphCoarsen"); mustOk(SCOTCH_graphCheck(c), "graphCheck(coarse)");
      Num cb; LG cl = readGraph(c, &cb); CHECK(cb == b, "coarse-base", "coarse base %ld", (long)cb);
      CHECK(cl.n <= g.n && cl.n * 2 >= g.n, "coarse-size", "%ld fine vertices, %ld coarse ones", g.n, cl.n);
      CHECK(cl.n <= (long)(g.n * rat) , "coarse-ratio", "%ld coarse vertices out of %ld exceed ratio %.3f", cl.n, g.n, rat);

      auto cof = checkMult(g, b, m.p, cl.n, flag);
      for (long i = 2 * cl.n; i < 2 * g.n; i++) if (i >= 2 * (long)(g.n * rat) + 2) CHECK(m[i] == (Num)-77777, "mult-overrun", "multinode cell %ld of %ld written", i, 2 * cl.n);
      checkQuotient(g, cl, cof);
      if (cl.n < g.n) H.nontrivial++;
      feat("coarsened");
    }
  } else {
    Buf mate, m; Num cn = cmin; int rc = 0; bool own = call == 3;
    vector<Num> mt(g.n); std::iota(mt.begin(), mt.end(), b);
    if (own) {                                            // any involution is a legal mating
      vector<long> o(g.n); std::iota(o.begin(), o.end(), 0); r.shuffle(o); double q = r.unit(); cn = (Num)g.n;
      for (long i = 0; i + 1 < g.n; i += 2) if (r.chance(q)) { mt[o[i]] = (Num)o[i + 1] + b; mt[o[i + 1]] = (Num)o[i] + b; cn--; }
      mate.set(mt);
    } else {
      mate.alloc(g.n); errClear(); rc = SCOTCH_graphCoarsenMatch(src, &cn, rat, (Num)flag, mate.p);
      if (rc == 1) { feat("refused"); }
      else {
        CHECK(cmin <= (long)(g.n * rat), "coarse-min", "coarsened although at most %ld coarse vertices are allowed, less than the %ld requested", (long)(g.n * rat), (long)cmin);
        mustOk(rc, "graphCoarsenMatch"); long pairs = 0;
        for (long v = 0; v < g.n; v++) { long u = mate[v] - b; CHECK(u >= 0 && u < g.n, "mate-range", "mate of %ld is %ld", v, (long)mate[v]); CHECK(mate[u] - b == v, "mate-symmetric", "mate of %ld is %ld whose mate is %ld", v, u, (long)(mate[u] - b)); if (u > v) { pairs++; checkPair(g, u, v, flag); } }
        CHECK(cn == g.n - pairs, "match-count", "%ld coarse vertices announced, %ld expected", (long)cn, g.n - pairs);
        CHECK(cn <= (long)(g.n * rat), "coarse-ratio", "%ld coarse vertices out of %ld exceed ratio %.3f", (long)cn, g.n, rat);

        mt = mate.vec();
      }
    }
    if (rc == 0) {
      m.alloc(2 * cn);
      mustOk(SCOTCH_graphCoarsenBuild(src, cn, mate.p, c, m.p), "graphCoarsenBuild"); mustOk(SCOTCH_graphCheck(c), "graphCheck(coarse)");
      Num cb; LG cl = readGraph(c, &cb); CHECK(cb == b && cl.n == cn, "coarse-size", "coarse base %ld, %ld vertices", (long)cb, cl.n);
      auto cof = checkMult(g, b, m.p, cl.n, -1);
      for (long v = 0; v < g.n; v++) { CHECK(cof[mt[v] - b] == cof[v], "mate-honoured", "vertices %ld and %ld were mated but are in different multinodes", v, (long)(mt[v] - b)); CHECK(mate[v] - b == cof[v], "fine-to-coarse", "fine-to-coarse index of %ld is %ld instead of %ld", v, (long)mate[v], cof[v] + b); }
      checkQuotient(g, cl, cof);
      if (cl.n < g.n) H.nontrivial++;
      feat("coarsened");
    }
  }
  freeGraph(c);
  p.checkUntouched("coarsening");
  if (cg) { SCOTCH_graphExit(cg); free(cg); SCOTCH_contextExit(ctx); free(ctx); }
  sig(hash64(hashLG(g), hash64(call, (u64)(rat * 1000))));
}
#elif defined INDUCE
static void runCase(long n, Rng& r) {
  long cls = r.below(100);
  LG g = genGraph(r, cls < 60 ? 40 : cls < 95 ? 300 : 1500); if (r.chance(0.5)) addWeights(r, g);
  if (r.chance(0.3)) addLabels(r, g, 0);
  PG p; randomPG(r, p, g); Num b = p.base;
  vector<long> l; SCOTCH_Graph* c = newGraph(); bool part = r.chance(0.5);
  SCOTCH_Context* ctx = nullptr; SCOTCH_Graph* cg = nullptr; const SCOTCH_Graph* src = p.gr;
  if (r.chance(0.3)) { ctx = SCOTCH_contextAlloc(); mustOk(SCOTCH_contextInit(ctx), "contextInit"); cg = newGraph(); mustOk(SCOTCH_contextBindGraph(ctx, p.gr, cg), "bind"); src = cg; feat("context"); }
  if (part) {
    vector<SCOTCH_GraphPart2> pt(g.n); int np = (int)r.range(1, r.chance(0.2) ? 200 : 4); SCOTCH_GraphPart2 pv = (SCOTCH_GraphPart2)r.below(np); double q = r.unit();
    for (long v = 0; v < g.n; v++) { pt[v] = (SCOTCH_GraphPart2)(r.chance(q) ? pv : r.below(np)); if (pt[v] == pv) l.push_back(v); }
    SCOTCH_GraphPart2* pa = (SCOTCH_GraphPart2*)malloc(g.n ? g.n * sizeof *pa : 1); memcpy(pa, pt.data(), g.n * sizeof *pa);
    desc("%s base=%ld part %ld of %d", showLG(g).c_str(), (long)b, (long)l.size(), np);
    mustOk(SCOTCH_graphInducePart(src, (Num)l.size(), pa, pv, c), "graphInducePart");
    CHECK(g.n == 0 || memcmp(pa, pt.data(), g.n * sizeof *pa) == 0, "user-part-modified", "part array modified"); free(pa); feat("call:part");
  } else {
    vector<long> o(g.n); std::iota(o.begin(), o.end(), 0); r.shuffle(o); l.assign(o.begin(), o.begin() + r.range(0, g.n)); if (r.chance(0.3)) std::sort(l.begin(), l.end());
    Buf lb; vector<Num> v; for (long x : l) v.push_back((Num)x + b); lb.set(v); lb.save();
    desc("%s base=%ld list %ld", showLG(g).c_str(), (long)b, (long)l.size());
    mustOk(SCOTCH_graphInduceList(src, (Num)l.size(), lb.p, c), "graphInduceList");
    CHECK(lb.same(), "user-list-modified", "list modified"); feat("call:list");
  }
  if (!l.empty()) mustOk(SCOTCH_graphCheck(c), "graphCheck(induced)");
  Num cb; LG s = readGraph(c, &cb);
  CHECK(cb == b, "induced-base", "base %ld instead of %ld", (long)cb, (long)b);
  CHECK(s.n == (long)l.size(), "induced-size", "%ld vertices instead of %ld", s.n, (long)l.size());
  vector<long> idx(g.n, -1); for (size_t i = 0; i < l.size(); i++) idx[l[i]] = (long)i;
  CHECK(s.velo.empty() == g.velo.empty() || s.n == 0, "induced-load", "vertex loads appeared or vanished");
  CHECK(s.edlo == g.edlo || s.arcs() == 0, "induced-load", "edge loads appeared or vanished");
  for (long i = 0; i < s.n; i++) {
    CHECK(s.vl(i) == g.vl(l[i]), "induced-load", "vertex %ld has load %ld", i, (long)s.vl(i));
    vector<pair<int, Num>> want; for (auto& e : g.adj[l[i]]) if (idx[e.first] >= 0) want.push_back({(int)idx[e.first], e.second});
    std::sort(want.begin(), want.end()); auto got = s.adj[i]; std::sort(got.begin(), got.end());
    CHECK(want == got, "induced-adjacency", "adjacency of induced vertex %ld (original %ld) differs", i, l[i]);
  }
  Num vn = -1, en = -1; SCOTCH_graphSize(c, &vn, &en); CHECK(vn == s.n && en == s.arcs(), "induced-count", "graphSize says %ld vertices and %ld arcs", (long)vn, (long)en);
  if (s.arcs() > 0 && s.n < g.n) H.nontrivial++;
  if (s.arcs() > 0 && r.chance(0.4)) {                    // the induced graph is usable in turn
    StratH st; Buf pt; pt.alloc(s.n); Num k = (Num)r.range(1, 5); mustOk(SCOTCH_graphPart(c, k, st.s, pt.p), "graphPart(induced)");
    for (long i = 0; i < s.n; i++) CHECK(pt[i] >= 0 && pt[i] < k, "part-range", "vertex %ld in part %ld", i, (long)pt[i]);
    // induce again: labels and numbers must compose
    vector<Num> l2; for (long i = 0; i < s.n; i++) if (r.chance(0.6)) l2.push_back((Num)i + b);
    SCOTCH_Graph* d = newGraph(); Buf lb; lb.set(l2); mustOk(SCOTCH_graphInduceList(c, (Num)l2.size(), lb.p, d), "graphInduceList(2)");
    LG t = readGraph(d, &cb); CHECK(t.n == (long)l2.size(), "induced-size", "second induction: %ld vertices", t.n);
    vector<long> id2(s.n, -1); for (size_t i = 0; i < l2.size(); i++) id2[l2[i] - b] = (long)i;
    for (long i = 0; i < t.n; i++) { vector<pair<int, Num>> want; for (auto& e : s.adj[l2[i] - b]) if (id2[e.first] >= 0) want.push_back({(int)id2[e.first], e.second}); std::sort(want.begin(), want.end()); auto got = t.adj[i]; std::sort(got.begin(), got.end()); CHECK(want == got, "induced-adjacency", "second induction: adjacency of %ld differs", i); }
    freeGraph(d); feat("induced-twice");
  }
  freeGraph(c);
  if (cg) { SCOTCH_graphExit(cg); free(cg); SCOTCH_contextExit(ctx); free(ctx); }
  p.checkUntouched("induction");
  sig(hash64(hashLG(g), hash64(l.size(), part)));
}
#else
static void runCase(long n, Rng& r) {
  long cls = r.below(100);
  LG g = genGraph(r, cls < 60 ? 40 : cls < 95 ? 250 : 900); if (r.chance(0.5)) addWeights(r, g);
  if (r.chance(0.3)) addLabels(r, g, 0);
  int thr = pickThreads(r); PG p; randomPG(r, p, g); Num b = p.base;
  desc("%s base=%ld thr=%d", showLG(g).c_str(), (long)b, thr);
  { // coloring
    Buf col; col.alloc(g.n); Num cn = -3; mustOk(SCOTCH_graphColor(p.gr, col.p, &cn, 0), "graphColor");
    vector<long> use(std::max<long>(cn, 0), 0);
    for (long v = 0; v < g.n; v++) { CHECK(col[v] >= 0 && col[v] < cn, "color-range", "vertex %ld has color %ld of %ld", v, (long)col[v], (long)cn); use[col[v]]++; for (auto& e : g.adj[v]) CHECK(col[v] != col[e.first], "color-clash", "neighbours %ld and %d both have color %ld", v, e.first, (long)col[v]); }
    for (long c = 0; c < cn; c++) CHECK(use[c] > 0, "color-unused", "color %ld of %ld is not used", c, (long)cn);

    feat("color");
  }
  if (g.n > 0) { // diameter
    auto dist = [&](long s, bool vw) { vector<long long> d(g.n, -1); std::set<std::pair<long long, long>> q; d[s] = 0; q.insert({0, s}); while (!q.empty()) { auto [dv, v] = *q.begin(); q.erase(q.begin()); for (auto& e : g.adj[v]) { long long nd = dv + e.second + (vw ? (long long)g.vl(v) : 0); if (d[e.first] < 0 || nd < d[e.first]) { if (d[e.first] >= 0) q.erase({d[e.first], e.first}); d[e.first] = nd; q.insert({nd, e.first}); } } } return d; };
    if (g.n <= 200) {
      bool conn = true; long long dia = 0, rad = 1LL << 60; set<long long> ecc;
      for (int vw = 0; vw <= (g.velo.empty() ? 0 : 1); vw++) // with vertex loads, loads of traversed vertices are also accounted for by the implementation: accept both readings
        for (long v = 0; v < g.n; v++) { auto d = dist(v, vw); long long m = 0; for (long long x : d) { if (x < 0) conn = false; m = std::max(m, x); } dia = std::max(dia, m); rad = std::min(rad, m); ecc.insert(m); }
      Num dv = SCOTCH_graphDiamPV(p.gr);
      if (!conn) { CHECK(dv == SCOTCH_NUMMAX, "diam-disconnected", "disconnected graph has diameter %ld", (long)dv); feat("diam:disconnected"); }
      else { CHECK(dv >= rad && dv <= dia && ecc.count(dv), "diam-value", "pseudo-diameter %ld is no eccentricity between radius %lld and diameter %lld", (long)dv, rad, dia); feat("diam:connected");
        bool tree = g.arcs() == 2 * (g.n - 1) && g.velo.empty(); if (tree) { CHECK(dv == dia, "diam-tree", "pseudo-diameter %ld of a tree of diameter %lld", (long)dv, dia); feat("diam:tree"); } }
    }
  }
  { // rebasing
    Num nb = pickBase(r); Num ob = SCOTCH_graphBase(p.gr, nb); CHECK(ob == b, "base-old", "old base %ld instead of %ld", (long)ob, (long)b);
    Num gb; LG s = readGraph(p.gr, &gb, false); CHECK(gb == nb, "base-new", "base is %ld instead of %ld", (long)gb, (long)nb);
    CHECK(s.n == g.n, "base-size", "%ld vertices", s.n);
    for (long v = 0; v < g.n; v++) { CHECK(s.adj[v] == g.adj[v], "base-adjacency", "adjacency of %ld changed by rebasing", v); CHECK(s.vl(v) == g.vl(v), "base-load", "load of %ld changed", v); if (!g.vlbl.empty()) CHECK(s.vlbl.size() == (size_t)g.n && s.vlbl[v] == g.vlbl[v], "base-label", "label of %ld changed", v); }
    if (g.n > 0) mustOk(SCOTCH_graphCheck(p.gr), "graphCheck(rebased)");
    CHECK(SCOTCH_graphBase(p.gr, b) == nb, "base-old", "rebasing back");
    feat("base");
  }
  p.checkUntouched("rebasing there and back");
  if (g.arcs() > 0) H.nontrivial++;
  sig(hashLG(g));
}
#endif
