// C06 (structure) and C07 (-DSEPARATION: independent blocks share no edge, fill) over graph orderings.
#include "genord.hpp"

#ifdef ZEROW
// Known finding: ordering a graph some vertices of which have a null weight. The input does not depend on the seed.
static void runCase(long, Rng&) {
  for (uint64_t k = 0; k < 200; k++) {
    Rng r(k * 7919 + 13);
    LG g = genGraph(r, 60); if (g.n < 4) continue;
    g.velo.resize(g.n); for (auto& w : g.velo) w = (Num)r.range(0, 2); g.velo[0] = 1;
    PG p; p.layout(r, g, 0, true); p.build();
    StratH st; st.txt = k % 2 ? "f{cmin=0,cmax=1000,frat=0.0}" : "d{cmin=0,cmax=1000,frat=0.0}"; mustOk(SCOTCH_stratGraphOrder(st.s, st.txt.c_str()), "strat");
    desc("null weights, input %ld: %s strat %s", (long)k, showLG(g).c_str(), st.txt.c_str());
    Buf perm, peri, rang, tree; Num cblk = 0; perm.alloc(g.n); peri.alloc(g.n); rang.alloc(g.n + 1); tree.alloc(g.n);
    mustOk(SCOTCH_graphOrder(p.gr, st.s, perm.p, peri.p, &cblk, rang.p, tree.p), "graphOrder");
    checkOrdering(g.n, 0, perm.p, peri.p, cblk, rang.p, tree.p);
  }
}
#else
static void runCase(long n, Rng& r) {
  long cls = r.below(100);
  long nmax = cls < 50 ? 50 : cls < 88 ? 300 : 900;
  LG g = genGraph(r, nmax);
  if (r.chance(0.5)) addWeights(r, g, false);
  if (r.chance(0.15)) addLabels(r, g, 0);
  int thr = pickThreads(r);
  PG p; randomPG(r, p, g);
  #ifdef SEPARATION
  StratH st; genOrdStratH(r, st, true);
#else
  StratH st; genOrdStratH(r, st);
#endif
  desc("%s base=%ld thr=%d strat %s", showLG(g).c_str(), (long)p.base, thr, st.txt.c_str());
  feat("kind:" + g.kind);
  Buf perm, peri, rang, tree, list; Num cblk = -5; Num b = p.base;
  perm.alloc(g.n); peri.alloc(g.n); rang.alloc(g.n + 1); tree.alloc(g.n);
  int call = (int)r.below(4);
  bool sub = false; vector<char> in(g.n, 1);
#ifdef SEPARATION
  bool all = true;
#else
  bool all = r.chance(0.7);
#endif
  bool hp = all || r.chance(0.5), hi = all || r.chance(0.5), hc = all || r.chance(0.5), hr = all || r.chance(0.5), ht = all || r.chance(0.5);
  if (call < 2) {
    feat("call:graphOrder");
    mustOk(SCOTCH_graphOrder(p.gr, st.s, hp ? perm.p : nullptr, hi ? peri.p : nullptr, hc ? &cblk : nullptr, hr ? rang.p : nullptr, ht ? tree.p : nullptr), "graphOrder");
  } else {
    SCOTCH_Ordering* o = SCOTCH_orderAlloc();
    mustOk(SCOTCH_graphOrderInit(p.gr, o, hp ? perm.p : nullptr, hi ? peri.p : nullptr, hc ? &cblk : nullptr, hr ? rang.p : nullptr, ht ? tree.p : nullptr), "graphOrderInit");
    if (call == 2 || g.n < 2) { feat("call:graphOrderCompute"); mustOk(SCOTCH_graphOrderCompute(p.gr, o, st.s), "graphOrderCompute"); }
    else {
      feat("call:graphOrderComputeList"); sub = true;
      vector<Num> l(g.n); std::iota(l.begin(), l.end(), 0); r.shuffle(l); long m = r.chance(0.1) ? g.n : r.chance(0.1) ? 1 : r.range(1, g.n); l.resize(m); if (r.chance(0.5)) std::sort(l.begin(), l.end());
      in.assign(g.n, 0); for (Num x : l) in[x] = 1; for (auto& x : l) x += b; list.set(l); list.save();
      mustOk(SCOTCH_graphOrderComputeList(p.gr, o, (Num)m, list.p, st.s), "graphOrderComputeList");
      CHECK(list.same(), "user-list-modified", "vertex list modified");
    }
    mustOk(SCOTCH_graphOrderCheck(p.gr, o), "graphOrderCheck");
    SCOTCH_graphOrderExit(p.gr, o); free(o);
  }
  p.checkUntouched("ordering");
  if (hc) checkOrdering(g.n, b, hp ? perm.p : nullptr, hi ? peri.p : nullptr, cblk, hr ? rang.p : nullptr, ht ? tree.p : nullptr);
  else checkOrdering(g.n, b, hp ? perm.p : nullptr, hi ? peri.p : nullptr, 1, nullptr, nullptr);
  if (sub) {
    long m = (long)list.n;
    if (hp) for (long v = 0; v < g.n; v++) CHECK((perm[v] - b < m) == (bool)in[v], "list-rank", "vertex %ld %s the list has rank %ld, list of %ld", v, in[v] ? "in" : "out of", (long)perm[v], m);
    if (hc && hr && ht && m < g.n) {                     // two separate branches
      bool cut = false; for (long c = 0; c <= cblk; c++) if (rang[c] - b == m) cut = true;
      CHECK(cut, "list-branch", "no column block ends with the list");
      for (long c = 0; c < cblk; c++) if (rang[c] - b < m && tree[c] != -1) CHECK(rang[tree[c] - b] - b < m, "list-branch", "block %ld of the list has its father outside", c);
    }
  }
#ifdef SEPARATION
  long x = checkSeparation(g, b, perm.p, cblk, rang.p, tree.p, sub ? &in : nullptr);
  if (x > 0) H.nontrivial++;
  if (!sub && st.txt == "default" && g.n >= 250 && (g.kind == "grid2" || g.kind == "grid3" || g.kind == "torus")) {
    vector<long> rk(g.n), rr(g.n); for (long v = 0; v < g.n; v++) rk[v] = perm[v] - b; std::iota(rr.begin(), rr.end(), 0); r.shuffle(rr);
    double z, o, zr, orr; symbolic(g, rk, z, o); symbolic(g, rr, zr, orr);
    feat("fill-compared");
    feat(fmt("fillratio:%d%%", (int)(100 * o / orr) / 5 * 5));
    CHECK(o < 0.6 * orr, "fill", "operation count %.0f, random order %.0f", o, orr);
  }
#else
  if (cblk > 1) H.nontrivial++;
#endif
  sig(hash64(hashLG(g), hashStr(st.txt) + call));
}
#endif
