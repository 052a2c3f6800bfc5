// C29: distributed orderings are permutations whose separator structure is true, in every form they are given.
#include "dcommon.hpp"
#include "gendist.hpp"

static vector<long> tokens(const string& s, const char* what) { vector<long> t; const char* c = s.c_str(); char* e; for (;;) { long x = strtol(c, &e, 10); if (e == c) break; t.push_back(x); c = e; } while (*c == ' ' || *c == '\n' || *c == '\t') c++; CHECK(*c == 0, "file-text", "%s: unexpected text '%.20s'", what, c); return t; }
static vector<long> pairsFile(const string& s, long n, const vector<long>& lab, const char* what) {
  vector<long> t = tokens(s, what), o; CHECK((long)t.size() == 1 + 2 * n && t[0] == n, "file-size", "%s: header %ld, %ld numbers for %ld vertices", what, t.empty() ? -1L : t[0], (long)t.size(), n);
  for (long i = 0; i < n; i++) { CHECK(t[1 + 2 * i] == lab[i], "file-label", "%s: line %ld names vertex %ld instead of %ld", what, i, t[1 + 2 * i], lab[i]); o.push_back(t[2 + 2 * i]); }
  return o;
}
struct DO { SCOTCH_Dgraph* g; SCOTCH_Dordering* o; DO(SCOTCH_Dgraph* g) : g(g), o(SCOTCH_dorderAlloc()) { mustOk(SCOTCH_dgraphOrderInit(g, o), "dgraphOrderInit"); } ~DO() { SCOTCH_dgraphOrderExit(g, o); free(o); } };
static vector<long> g_lastRank;
// Everything that can be observed of a computed distributed ordering.
static void observe(Rng& r, const LG& g, DPG& d, SCOTCH_Dordering* o, bool single) {
  long n = g.n; Num b = d.base; SCOTCH_Dgraph* gr = d.gr;
  Buf pm; pm.alloc(d.nloc()); mustOk(SCOTCH_dgraphOrderPerm(gr, o, pm.p), "dgraphOrderPerm");
  vector<Num> perm = allCat(pm.vec()); checkOrdering(n, b, perm.data(), nullptr, (Num)n, nullptr, nullptr);
  g_lastRank.assign(n, 0); for (long v = 0; v < n; v++) g_lastRank[v] = perm[v] - b;
  // distributed tree
  Num dn = SCOTCH_dgraphOrderCblkDist(gr, o); CHECK(dn >= 1 && allSame(dn), "tree-number", "%ld distributed blocks here, another number elsewhere", (long)dn);
  Buf dt, ds; dt.alloc(dn); ds.alloc(dn); mustOk(SCOTCH_dgraphOrderTreeDist(gr, o, dt.p, ds.p), "dgraphOrderTreeDist");
  for (Num i = 0; i < dn; i++) CHECK(allSame(dt[i]) && allSame(ds[i]), "tree-not-global", "distributed tree differs between processes");
  vector<vector<long>> son(dn); long root = -1;
  for (long i = 0; i < dn; i++) { if (dt[i] == -1) { CHECK(root < 0, "tree-root", "two roots %ld and %ld", root, i); root = i; } else { long f = dt[i] - b; CHECK(f >= 0 && f < dn && f != i, "tree-father", "father of node %ld is %ld, with %ld nodes and base %ld", i, (long)dt[i], (long)dn, (long)b); son[f].push_back(i); } }
  CHECK(root >= 0, "tree-root", "no root"); CHECK(ds[root] == n, "tree-size", "size of root is %ld instead of %ld", (long)ds[root], n);
  vector<int> leaf(n, -1); vector<pair<long, long>> iv(dn);
  std::function<void(long, long)> walk = [&](long i, long s) {
    iv[i] = {s, s + ds[i]}; if (son[i].empty()) return;
    CHECK(son[i].size() == 2 || son[i].size() == 3, "tree-sons", "node %ld has %zu sons", i, son[i].size());
    long t = 0; for (long k : son[i]) { walk(k, s + t); t += ds[k]; } CHECK(t == ds[i], "tree-size", "sizes of sons of node %ld sum to %ld instead of %ld", i, t, (long)ds[i]);
  };
  long seen = 0; walk(root, 0); std::function<void(long)> cnt = [&](long i) { seen++; for (long k : son[i]) cnt(k); }; cnt(root); CHECK(seen == dn, "tree-cycle", "%ld of %ld nodes below the root", seen, (long)dn);
  vector<long> inv(n); for (long v = 0; v < n; v++) inv[perm[v] - b] = v;
  for (long i = 0; i < dn; i++) if (!son[i].empty()) { auto A = iv[son[i][0]], B = iv[son[i][1]]; for (long k = A.first; k < A.second; k++) for (auto& e : g.adj[inv[k]]) { long w = perm[e.first] - b; CHECK(w < B.first || w >= B.second, "tree-separation", "an edge joins the two parts of a distributed node"); } feat("dist-node"); }
  if (dn > 1) { H.nontrivial++; feat("dist-tree"); }
  // centralized ordering
  int rt = (int)r.below(g_np); bool me = g_me == rt, hp = r.chance(0.8), hi = r.chance(0.6), hc = r.chance(0.8), hr = r.chance(0.8), ht = r.chance(0.8);
  SCOTCH_Ordering* c = SCOTCH_orderAlloc(); Buf P, I, R, T; Num cb = -1;
  vector<long> lab(n); for (long v = 0; v < n; v++) lab[v] = g.vlbl.empty() ? (long)v + b : (long)g.vlbl[v];
  if (me) { if (hp) P.alloc(n); if (hi) I.alloc(n); if (hr) R.alloc(n + 1); if (ht) T.alloc(n); mustOk(SCOTCH_dgraphCorderInit(gr, c, P.p, I.p, hc ? &cb : nullptr, R.p, T.p), "dgraphCorderInit"); }
  mustOk(SCOTCH_dgraphOrderGather(gr, o, me ? c : nullptr), "dgraphOrderGather");
  if (me) {
    if (hc) checkOrdering(n, b, P.p, I.p, cb, R.p, T.p); else checkOrdering(n, b, P.p, I.p, (Num)n, nullptr, nullptr);
    if (hp) for (long v = 0; v < n; v++) CHECK(P[v] == perm[v], "gather-rank", "vertex %ld has rank %ld in the centralized ordering and %ld in the distributed one", v, (long)P[v], (long)perm[v]);
    if (hi) for (long v = 0; v < n; v++) CHECK(I[perm[v] - b] == v + b, "gather-inverse", "inverse permutation wrong at %ld", (long)perm[v]);
    if (hc && hr && ht && single) { if (checkSeparation(g, b, perm.data(), cb, R.p, T.p)) feat("separation"); }
    if (hc && cb > 1) feat("blocks");
    SCOTCH_dgraphCorderExit(gr, c);
  }
  free(c);
  // files
  rt = (int)r.below(g_np); me = g_me == rt; int k = (int)r.below(4);
  MemFile f, fm, ft, fb; FILE* z = nullptr;
  if (k == 0 || r.chance(0.3)) {
    mustOk(SCOTCH_dgraphOrderSave(gr, o, me ? f.f : z), "dgraphOrderSave");
    if (me) { auto q = pairsFile(f.str(), n, lab, "ordering file"); for (long v = 0; v < n; v++) CHECK(q[v] == perm[v] || (!g.vlbl.empty() && q[v] == g.vlbl[perm[v] - b]), "file-rank", "vertex %ld saved with rank %ld instead of %ld", v, q[v], (long)perm[v]); }
    feat("file:order");
  }
  if (k >= 1 || r.chance(0.3)) {
    mustOk(SCOTCH_dgraphOrderSaveMap(gr, o, me ? fm.f : z), "dgraphOrderSaveMap"); mustOk(SCOTCH_dgraphOrderSaveTree(gr, o, me ? ft.f : z), "dgraphOrderSaveTree"); mustOk(SCOTCH_dgraphOrderSaveBlock(gr, o, me ? fb.f : z), "dgraphOrderSaveBlock");
    if (me) {
      Buf P2, R2, T2; Num cb2; P2.alloc(n); R2.alloc(n + 1); T2.alloc(n); (void)cb2;
      vector<long> mp = pairsFile(fm.str(), n, lab, "block file"), tr = pairsFile(ft.str(), n, lab, "tree file"), bl = tokens(fb.str(), "column block file");
      CHECK(bl.size() >= 3 && bl[0] == 0 && bl[2] == n && (long)bl.size() == 3 + bl[1] + 1 + n, "file-blocks", "column block file has %zu numbers for %ld blocks and %ld vertices", bl.size(), bl.size() > 1 ? bl[1] : -1, n);
      long cn = bl[1]; vector<Num> rg(bl.begin() + 3, bl.begin() + 4 + cn); checkOrdering(n, b, nullptr, nullptr, (Num)cn, rg.data(), nullptr);
      for (long v = 0; v < n; v++) CHECK(bl[4 + cn + v] == perm[v], "file-blocks", "vertex %ld has rank %ld in the block file instead of %ld", v, bl[4 + cn + v], (long)perm[v]);
      vector<long> blk(n); for (long x = 0; x < cn; x++) for (Num i = rg[x]; i < rg[x + 1]; i++) blk[i - b] = x;
      if (hc && cb >= 0) CHECK(cb == cn || g_me != rt, "file-blocks", "%ld blocks saved instead of %ld", cn, (long)cb);
      vector<Num> tt(cn, -2); for (long v = 0; v < n; v++) { long x = blk[perm[v] - b]; CHECK(mp[v] == x, "file-block", "vertex %ld saved in block %ld instead of %ld", v, mp[v], x); CHECK(tt[x] == -2 || tt[x] == tr[v], "file-tree", "two fathers %ld and %ld for block %ld", (long)tt[x], tr[v], x); tt[x] = (Num)tr[v]; }
      checkOrdering(n, b, nullptr, nullptr, (Num)cn, rg.data(), tt.data()); if (single) checkSeparation(g, b, perm.data(), (Num)cn, rg.data(), tt.data());
    }
    feat("file:blocks");
  }
  CHECK(g_errnbr == 0, "error-printed", "%s", g_err.c_str());
}
static void runCaseD(long, Rng& r) {
  int sz = (int)r.below(10); LG g = genGraphD(r, sz < 5 ? 60 : sz < 9 ? 300 : 1500); addWeights(r, g, false); if (g.n < 1) return;
  if (r.chance(0.25)) addLabels(r, g, 0);
  DPG d; randomDPG(r, d, g);
  SCOTCH_Strat s; SCOTCH_stratInit(&s); struct SX { SCOTCH_Strat* s; ~SX() { SCOTCH_stratExit(s); } } sx{&s}; string txt; bool single = true;
  auto newStrat = [&]() {
    int t = (int)r.below(10);
    if (t < 2) { txt = "default"; feat("strat:default"); }
    else if (t < 4) { static const long fl[] = {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATSCALABILITY, SCOTCH_STRATLEVELMAX, SCOTCH_STRATLEVELMIN, SCOTCH_STRATLEAFSIMPLE, SCOTCH_STRATSEPASIMPLE}; long f = 0; for (long x : fl) if (r.chance(0.3)) f |= x; long lv = r.range(0, 5); double bal = 0.01 + r.unit() * 0.4; txt = fmt("build(%ld,%ld,%.3f)", f, lv, bal); mustOk(SCOTCH_stratDgraphOrderBuild(&s, (Num)f, (Num)r.range(1, 8), (Num)lv, bal), txt.c_str()); feat("strat:build"); }
    else { txt = dOrd(r, 3); mustOk(SCOTCH_stratDgraphOrder(&s, txt.c_str()), txt.c_str()); feat("strat:random"); }
  };
  newStrat();
  int th = r.chance(0.7) ? 1 : (int)r.range(2, 3); feat(fmt("threads:%d", th));
  desc("dorder %s np=%d base=%ld %d threads strat %s", showLG(g).c_str(), g_np, (long)d.base, th, txt.c_str());
  DO o(d.gr); errClear(); setThreads(th); int rc = SCOTCH_dgraphOrderCompute(d.gr, o.o, &s); setThreads(1); mustOk(rc, "dgraphOrderCompute"); d.checkUntouched("dgraphOrderCompute");
  observe(r, g, d, o.o, single);
  if (r.chance(0.15)) { SCOTCH_stratExit(&s); SCOTCH_stratInit(&s); newStrat(); desc("then %s", txt.c_str()); mustOk(SCOTCH_dgraphOrderCompute(d.gr, o.o, &s), "dgraphOrderCompute"); observe(r, g, d, o.o, single); feat("recomputed"); }
  mustCheckD(d.gr, "the graph after ordering"); d.checkUntouched("ordering"); sig(hash64(hashLG(g), hashStr(txt)));
}
