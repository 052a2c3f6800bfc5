// C02: fixed vertices keep their part; free vertices get an existing part; old mapping and cost arrays untouched.
#include "gen.hpp"

static void runCase(long n, Rng& r) {
  long cls = r.below(100);
  long nmax = cls < 55 ? 40 : cls < 92 ? 250 : 900;
  LG g = genGraph(r, nmax);
  if (r.chance(0.6)) addWeights(r, g);
  if (r.chance(0.15)) addLabels(r, g, 0);
  int thr = pickThreads(r);
  PG p; randomPG(r, p, g);
  desc("%s base=%ld thr=%d", showLG(g).c_str(), (long)p.base, thr);
  auto arch = genArch(r, r.chance(0.7) ? 8 : 40, false, r.chance(0.35) ? 0 : -1, true, false);
  desc("arch %s", arch->name.c_str());
  bool remap = r.chance(0.4);
  StratH st; genMapStratH(r, st, arch->size, false, false, remap || r.chance(0.5));
  desc("strat %s", st.txt.c_str());
  // fixed pattern
  vector<Num> fx(g.n, -1); int pat = (int)r.below(7); double pr = pat == 0 ? 0.05 : pat == 1 ? 0.3 : pat == 2 ? 0.9 : pat == 3 ? 1.0 : pat == 4 ? 0.2 : pat == 5 ? 0.3 : 0.0;
  Num onep = (Num)r.below(arch->size);
  for (auto& x : fx) if (r.chance(pr)) x = pat == 4 ? onep : pat == 5 ? (Num)r.below((arch->size + 1) / 2) : (Num)r.below(arch->size);
  if (pat == 6) { fx[r.below(g.n)] = onep; if (r.chance(0.5)) fx[r.below(g.n)] = (Num)(arch->size - 1); }
  feat(fmt("fixpattern:%d", pat));
  long nf = 0; for (Num x : fx) nf += x >= 0;
  Buf part; part.set(fx);
  Buf old, vml; double emra = 0; bool useVml = false, oldok = true;
  if (remap) {
    bool inc = r.chance(0.3); vector<Num> o(g.n);
    int mode = (int)r.below(3);
    for (long v = 0; v < g.n; v++) o[v] = (inc && r.chance(0.1)) ? -1 : mode == 0 && fx[v] >= 0 ? fx[v] : (Num)r.below(arch->size);
    old.set(o); old.save(); emra = r.chance(0.5) ? 1.0 : r.unit() * 20;
    useVml = r.chance(0.5); if (useVml) { vector<Num> m(g.n); for (auto& x : m) x = (Num)r.range(0, 5); vml.set(m); vml.save(); }
  }
  bool part1 = arch->name.compare(0, 6, "cmplt ") == 0 && r.chance(0.7);
  int rc; bool comp = r.chance(0.3);
  desc("remap %d comp %d pat %d fixed %ld", remap, comp, pat, nf);
  if (comp) {
    SCOTCH_Mapping *m = SCOTCH_mapAlloc(), *o = SCOTCH_mapAlloc();
    mustOk(SCOTCH_graphMapInit(p.gr, m, arch->a, part.p), "graphMapInit");
    if (remap) {
      mustOk(SCOTCH_graphMapInit(p.gr, o, arch->a, old.p), "graphMapInit"); feat("call:graphRemapFixedCompute");
      rc = SCOTCH_graphRemapFixedCompute(p.gr, m, o, emra, useVml ? vml.p : nullptr, st.s); SCOTCH_graphMapExit(p.gr, o);
    } else { feat("call:graphMapFixedCompute"); rc = SCOTCH_graphMapFixedCompute(p.gr, m, st.s); }
    SCOTCH_graphMapExit(p.gr, m); free(m); free(o);
  } else if (remap) {
    if (part1) { feat("call:graphRepartFixed"); rc = SCOTCH_graphRepartFixed(p.gr, (Num)arch->size, old.p, emra, useVml ? vml.p : nullptr, st.s, part.p); }
    else { feat("call:graphRemapFixed"); rc = SCOTCH_graphRemapFixed(p.gr, arch->a, old.p, emra, useVml ? vml.p : nullptr, st.s, part.p); }
  } else {
    if (part1) { feat("call:graphPartFixed"); rc = SCOTCH_graphPartFixed(p.gr, (Num)arch->size, st.s, part.p); }
    else { feat("call:graphMapFixed"); rc = SCOTCH_graphMapFixed(p.gr, arch->a, st.s, part.p); }
  }
  mustOk(rc, "fixed mapping");
  for (long v = 0; v < g.n; v++) {
    CHECK(part[v] >= 0 && part[v] < arch->size, "part-range", "vertex %ld has part %ld, target size %ld", v, (long)part[v], arch->size);
    if (fx[v] >= 0) CHECK(part[v] == fx[v], "fixed-moved", "vertex %ld fixed to %ld is in %ld", v, (long)fx[v], (long)part[v]);
  }
  p.checkUntouched("fixed mapping");
  CHECK(old.same() && vml.same(), "user-array-modified", "old mapping or migration array modified");
  if (nf > 0 && nf < g.n) H.nontrivial++;
  sig(hash64(hashLG(g), hashStr(arch->name + st.txt) + pat));
}
