// C01: every successful partitioning / mapping call yields a complete, in-range mapping and leaves the caller's data alone.
#include "gen.hpp"

static void runCase(long n, Rng& r) {
  long cls = r.below(100);
  long nmax = cls < 60 ? 40 : cls < 92 ? 250 : 900;
  LG g = genGraph(r, nmax);
  if (r.chance(0.6)) addWeights(r, g);
  if (r.chance(0.15)) addLabels(r, g, 0);
  if (r.chance(0.03)) { for (auto& w : g.velo) w = (Num)(w * (1000000000L / std::max(1LL, 16 * g.velosum()))); }
  int thr = pickThreads(r);
  PG p; randomPG(r, p, g);
  desc("%s base=%ld thr=%d", showLG(g).c_str(), (long)p.base, thr);
  long msz = r.chance(0.7) ? 8 : 40;
  auto arch = genArch(r, msz, true, -1, true, false);
  desc("arch %s", arch->name.c_str());
  int call = (int)r.below(8);
  bool remap = call >= 4 && call < 7;
  if (arch->var && remap) { call = (int)r.below(2); remap = false; }
  bool inc = remap && r.chance(0.3);
  StratH st; genMapStratH(r, st, arch->size, remap && !inc, arch->var, remap);
  desc("strat %s call %d", st.txt.c_str(), call);
  feat("kind:" + g.kind);
  Buf part; part.alloc(g.n);
  Buf old, vml; double emra = 0;
  bool useVml = false;
  if (remap) {
    vector<Num> o(g.n); for (auto& x : o) x = (inc && r.chance(0.1)) ? -1 : (Num)r.below(arch->size);
    old.set(o); old.save(); emra = r.chance(0.5) ? 1.0 : r.unit() * 20;
    useVml = r.chance(0.5); if (useVml) { vector<Num> m(g.n); for (auto& x : m) x = (Num)r.range(0, 5); vml.set(m); vml.save(); }
  }
  bool part1 = arch->name.compare(0, 6, "cmplt ") == 0;
  int rc;
  switch (call) {
    case 0: feat("call:graphMap"); rc = SCOTCH_graphMap(p.gr, arch->a, st.s, part.p); break;
    case 1: { feat("call:graphMapCompute");
      SCOTCH_Mapping* m = SCOTCH_mapAlloc(); mustOk(SCOTCH_graphMapInit(p.gr, m, arch->a, part.p), "graphMapInit");
      rc = SCOTCH_graphMapCompute(p.gr, m, st.s); SCOTCH_graphMapExit(p.gr, m); free(m); break; }
    case 4: case 5: feat(part1 ? "call:graphRepart" : "call:graphRemap"); if (part1) rc = SCOTCH_graphRepart(p.gr, (Num)arch->size, old.p, emra, useVml ? vml.p : nullptr, st.s, part.p); else rc = SCOTCH_graphRemap(p.gr, arch->a, old.p, emra, useVml ? vml.p : nullptr, st.s, part.p); break;
    case 6: { feat("call:graphRemapCompute");
      SCOTCH_Mapping *m = SCOTCH_mapAlloc(), *o = SCOTCH_mapAlloc(); mustOk(SCOTCH_graphMapInit(p.gr, m, arch->a, part.p), "graphMapInit"); mustOk(SCOTCH_graphMapInit(p.gr, o, arch->a, old.p), "graphMapInit");
      rc = SCOTCH_graphRemapCompute(p.gr, m, o, emra, useVml ? vml.p : nullptr, st.s); SCOTCH_graphMapExit(p.gr, m); SCOTCH_graphMapExit(p.gr, o); free(m); free(o); break; }
    default: if (part1) { feat("call:graphPart"); rc = SCOTCH_graphPart(p.gr, (Num)arch->size, st.s, part.p); } else { feat("call:graphMap"); rc = SCOTCH_graphMap(p.gr, arch->a, st.s, part.p); } break;
  }
  if (arch->var && rc != 0 && g_err.find("cannot bipartition domain") != string::npos) { feat("var-overflow"); return; }  // label space of a variable-sized target exhausted
  mustOk(rc, "mapping");
  for (long v = 0; v < g.n; v++) {
    if (arch->var) CHECK(part[v] >= 1, "part-range", "vertex %ld has domain label %ld", v, (long)part[v]);
    else CHECK(part[v] >= 0 && part[v] < arch->size, "part-range", "vertex %ld has part %ld, target size %ld", v, (long)part[v], arch->size);
  }
  p.checkUntouched("mapping");
  CHECK(old.same() && vml.same(), "user-array-modified", "old mapping or migration array modified");
  set<Num> used(part.p, part.p + g.n);
  if (used.size() > 1) { H.nontrivial++; }
  sig(hash64(hashLG(g), hashStr(arch->name + st.txt) + call));
}
