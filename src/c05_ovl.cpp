// C05: partitions with overlap are vertex separations, leave the caller's data alone, and on regular graphs are balanced with small separators.
#include "genord.hpp"

static string genOvl(Rng& r, int depth) {
  auto fm = [&]() { return fmt("f{bal=%s,move=%ld,pass=%s}", fbal(r).c_str(), r.range(0, 150), r.chance(0.4) ? "-1" : fmt("%ld", r.range(1, 8)).c_str()); };
  auto low = [&]() -> string {
    switch (r.below(4)) {
      case 0: return fmt("e{strat=%s}", genMapStrat(r, 1, false).c_str());
      default: return fmt("r{sep=%s}", genSep(r, 1 + (int)r.below(2)).c_str());
    } };
  if (depth <= 0) return r.chance(0.1) ? "z" : low();
  switch (r.below(6)) {
    case 0: return low() + fm();
    case 1: case 2: return fmt("m{vert=%ld,rat=%.2f,low=%s,asc=%s}", r.range(2, 120), 0.5 + 0.4 * r.unit(), genOvl(r, depth - 1).c_str(), r.chance(0.85) ? fm().c_str() : "");
    case 3: return fmt("/(%s%c%ld)?%s:%s;", r.chance(0.5) ? "vert" : r.chance(0.5) ? "part" : "edge", "<>="[r.below(3)], r.range(1, 80), genOvl(r, depth - 1).c_str(), low().c_str());
    case 4: return "(" + genOvl(r, depth - 1) + "|" + genOvl(r, depth - 1) + ")";
    default: return low();
  }
}

static void runCase(long n, Rng& r) {
  bool qual = r.chance(0.08);
  LG g;
  if (qual) { g = genGraph(r, 1600, 5 + (int)r.below(3)); while (g.n < 600 || g.degmax() > 4) g = genGraph(r, 1600, r.chance(0.5) ? 5 : 10); }
  else { long cls = r.below(100); g = genGraph(r, cls < 60 ? 40 : cls < 92 ? 250 : 900); if (r.chance(0.6)) addWeights(r, g, false); }
  if (r.chance(0.15)) addLabels(r, g, 0);
  int thr = pickThreads(r);
  PG p; randomPG(r, p, g);
  long k = qual ? r.range(2, 8) : r.chance(0.1) ? 1 : r.chance(0.8) ? r.range(2, 9) : r.range(2, 64);
  desc("%s base=%ld thr=%d parts=%ld", showLG(g).c_str(), (long)p.base, thr, k);
  StratH s; double bal = 0.05;
  int t = (int)r.below(10);
  if (t < 2) { s.txt = "default"; feat("strat:default"); }
  else if (t < 6 || qual) {
    static const long fl[] = {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATSCALABILITY, SCOTCH_STRATRECURSIVE};
    long f = 0; for (long x : fl) if (r.chance(0.25)) f |= x;
    bal = r.chance(0.5) ? 0.05 : 0.005 + r.unit() * 0.5; if (qual) bal = 0.02 + r.unit() * 0.2;
    s.txt = fmt("ovlbuild(%s,%ld,%.3f)", flagNames(f), k, bal); feat(f & SCOTCH_STRATRECURSIVE ? "strat:recursive" : "strat:build");
    mustOk(SCOTCH_stratGraphPartOvlBuild(s.s, (Num)f, (Num)k, bal), s.txt.c_str());
  } else { s.txt = genOvl(r, 2); feat("strat:random"); mustOk(SCOTCH_stratGraphPartOvl(s.s, s.txt.c_str()), s.txt.c_str()); }
  desc("strat %s", s.txt.c_str()); feat("kind:" + g.kind);
  Buf part; part.alloc(g.n);
  mustOk(SCOTCH_graphPartOvl(p.gr, (Num)k, s.s, part.p), "graphPartOvl");
  for (long v = 0; v < g.n; v++) CHECK(part[v] >= -1 && part[v] < k, "part-range", "vertex %ld has part %ld of %ld", v, (long)part[v], k);
  for (long v = 0; v < g.n; v++) for (auto& e : g.adj[v]) CHECK(part[v] == -1 || part[e.first] == -1 || part[v] == part[e.first], "separation", "edge %ld-%d joins parts %ld and %ld", v, e.first, (long)part[v], (long)part[e.first]);
  p.checkUntouched("graphPartOvl");
  set<Num> used; long sep = 0; for (long v = 0; v < g.n; v++) if (part[v] < 0) sep++; else used.insert(part[v]);
  if (used.size() > 1) H.nontrivial++;
  if (k == 1 && s.txt.find('e') != 0) feat("oneparts");
  if (qual) {
    vector<long> ld(k, 0); for (long v = 0; v < g.n; v++) { if (part[v] >= 0) { ld[part[v]]++; continue; } set<Num> nb; for (auto& e : g.adj[v]) if (part[e.first] >= 0) nb.insert(part[e.first]); for (Num q : nb) ld[q]++; }
    long mx = *std::max_element(ld.begin(), ld.end()), mn = *std::min_element(ld.begin(), ld.end()); long tot = 0; for (long x : ld) tot += x; double avg = (double)tot / k;
    if (getenv("C05_STAT")) fprintf(stderr, "STAT n=%ld k=%ld kind=%s bal=%.3f mx=%.3f mn=%.3f sep=%.3f %s\n", g.n, k, g.kind.c_str(), bal, mx / avg, mn / avg, sep / (std::sqrt((double)g.n) * k), s.txt.c_str());
    CHECK(mx <= avg * (1.15 + 1.5 * bal) + 2, "imbalance", "part loads (own and adjacent separator vertices) from %ld to %ld, average %.1f, tolerance %.3f", mn, mx, avg, bal);
    CHECK(mn >= avg * (0.85 - 1.5 * bal) - 2, "underload", "part loads (own and adjacent separator vertices) from %ld to %ld, average %.1f, tolerance %.3f", mn, mx, avg, bal);
    CHECK(sep <= (g.kind == "torus" ? 1.6 : 1.0) * std::sqrt((double)g.n) * k, "separator-size", "%ld separator vertices for %ld parts", sep, k);
    feat("quality");
  }
  sig(hash64(hashLG(g), hashStr(s.txt) + k));
}
