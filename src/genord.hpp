// Ordering strategies and ordering oracles.
#pragma once
#include "gen.hpp"
static string genSep(Rng& r, int depth) {
  auto ref = [&]() -> string { return r.chance(0.5) ? fmt("f{bal=%s,move=%ld,pass=%s}", fbal(r).c_str(), r.range(1, 150), r.chance(0.5) ? "-1" : "4") : fmt("b{width=%ld,bnd=f{bal=%s},org=(|h{pass=%ld})f{bal=%s}}", r.range(1, 4), fbal(r).c_str(), r.range(1, 8), fbal(r).c_str()); };
  auto leaf = [&]() -> string {
    switch (r.below(6)) {
      case 0: return fmt("h{pass=%ld}", r.range(1, 8));
      case 1: return fmt("g{pass=%ld}", r.range(1, 8));
      case 2: return "h{pass=3}" + ref();
      case 3: return fmt("e{strat=%s,type=%c}", genBipart(r, 1).c_str(), "tf"[r.below(2)]);
      case 4: return "e{strat=h{pass=4}f,type=" + string(1, "tf"[r.below(2)]) + "}" + ref();
      default: return "h" + ref();
    } };
  if (depth <= 0) return leaf();
  switch (r.below(7)) {
    case 0: case 1: case 2: return fmt("m{vert=%ld,rat=%.2f,type=%c,low=%s,asc=%s}", r.range(4, 100), 0.5 + 0.4 * r.unit(), "hs"[r.below(2)], genSep(r, depth - 1).c_str(), ref().c_str());
    case 3: return "(" + genSep(r, depth - 1) + "|" + genSep(r, depth - 1) + ")";
    case 4: return fmt("/(vert>%ld)?%s;", r.range(1, 60), genSep(r, depth - 1).c_str());
    case 5: return fmt("/((levl<%ld)%c(vert>%ld))?%s;", r.range(1, 5), "|&"[r.below(2)], r.range(2, 60), genSep(r, depth - 1).c_str());
    default: return leaf();
  }
}
// single: orderings whose separators stay single blocks (a separator split into several blocks is not reflected in the tree)
static string genOrd(Rng& r, int depth, bool simpleLeaf = false, bool single = false) {
  auto leaf = [&]() -> string {
    if (simpleLeaf) return "s";
    switch (r.below(5)) {
      case 0: return "s";
      case 1: return fmt("g{pass=%ld}", r.range(1, 5));
      case 2: return fmt("d{cmin=%ld,cmax=%ld,frat=%.2f}", r.range(0, 20), r.range(1, 1000), r.unit() * 0.3);
      case 3: return fmt("f{cmin=%ld,cmax=%ld,frat=%.2f}", r.range(0, 20), r.range(1, 1000), r.unit() * 0.3);
      default: return r.chance(0.5) ? "f{cmin=15,cmax=100000,frat=0.0}" : "";
    } };
  if (depth <= 0) return leaf();
  switch (r.below(9)) {
    case 0: case 1: case 2: case 3: return fmt("n{sep=%s,ole=%s,ose=%s}", genSep(r, 2).c_str(), genOrd(r, r.chance(0.2) ? depth - 1 : 0, simpleLeaf, single).c_str(), single ? (r.chance(0.5) ? "s" : "g") : genOrd(r, r.chance(0.2) ? depth - 1 : 0, simpleLeaf).c_str());
    case 4: return fmt("c{rat=%.2f,cpr=%s,unc=%s}", 0.3 + r.unit() * 0.7, genOrd(r, depth - 1, simpleLeaf, single).c_str(), genOrd(r, depth - 1, simpleLeaf, single).c_str());
    case 5: return fmt("o{strat=%s}", genOrd(r, depth - 1, simpleLeaf, single).c_str());
    case 6: return simpleLeaf ? leaf() : fmt("b{cmin=%ld,strat=%s}", r.range(1, 20), single ? (r.chance(0.5) ? "s" : "g") : genOrd(r, depth - 1).c_str());
    case 7: return simpleLeaf ? leaf() : fmt("k{siz=%ld,strat=%s}", r.range(1, 40), r.chance(0.5) ? "r{sep=h{pass=3}f}" : "m{vert=20,low=r{sep=h{pass=3}f},asc=f{bal=0.1}}");
    default: return fmt("/(vert>%ld)?%s:%s;", r.range(1, 80), genOrd(r, depth - 1, simpleLeaf, single).c_str(), leaf().c_str());
  }
}
static void genOrdStratH(Rng& r, StratH& s, bool single = false) {
  int t = (int)r.below(10);
  if (t < 2) { s.txt = "default"; feat("ordstrat:default"); return; }
  if (t < 6) {
    static const long fl[] = {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATSCALABILITY, SCOTCH_STRATLEVELMAX, SCOTCH_STRATLEVELMIN, SCOTCH_STRATLEAFSIMPLE, SCOTCH_STRATSEPASIMPLE, SCOTCH_STRATDISCONNECTED};
    long f = 0; for (long x : fl) if (r.chance(0.3)) f |= x;
    long lv = r.range(0, 5); double bal = 0.01 + r.unit() * 0.4;
    s.txt = fmt("ordbuild(%s,%ld,%.3f)", flagNames(f), lv, bal); mustOk(SCOTCH_stratGraphOrderBuild(s.s, (Num)f, (Num)lv, bal), s.txt.c_str()); feat("ordstrat:build"); return;
  }
  s.txt = genOrd(r, 3, false, single); mustOk(SCOTCH_stratGraphOrder(s.s, s.txt.c_str()), s.txt.c_str()); feat("ordstrat:random");
}
// Structure of an ordering: all arrays based at b over n vertices.
static void checkOrdering(long n, Num b, const Num* perm, const Num* peri, Num cblk, const Num* rang, const Num* tree) {
  vector<char> seen(n, 0);
  if (perm) for (long i = 0; i < n; i++) { long p = perm[i] - b; CHECK(p >= 0 && p < n, "perm-range", "permtab[%ld]=%ld", i, (long)perm[i]); CHECK(!seen[p], "perm-duplicate", "rank %ld given twice", p); seen[p] = 1; }
  std::fill(seen.begin(), seen.end(), 0);
  if (peri) for (long i = 0; i < n; i++) { long p = peri[i] - b; CHECK(p >= 0 && p < n, "peri-range", "peritab[%ld]=%ld", i, (long)peri[i]); CHECK(!seen[p], "peri-duplicate", "vertex %ld given twice", p); seen[p] = 1; }
  if (perm && peri) for (long i = 0; i < n; i++) CHECK(peri[perm[i] - b] == (Num)i + b, "perm-inverse", "peritab is not the inverse of permtab at %ld", i);
  CHECK(cblk >= (n > 0 ? 1 : 0) && cblk <= n, "cblk-number", "%ld column blocks for %ld vertices", (long)cblk, n);
  if (rang) {
    CHECK(rang[0] == b, "range-start", "rangtab[0]=%ld", (long)rang[0]);
    for (long i = 0; i < cblk; i++) CHECK(rang[i + 1] > rang[i], "range-order", "block %ld spans %ld to %ld", i, (long)rang[i], (long)rang[i + 1]);
    CHECK(rang[cblk] == b + (Num)n, "range-end", "rangtab ends at %ld instead of %ld", (long)rang[cblk], (long)b + n);
  }
  if (tree) for (long i = 0; i < cblk; i++) CHECK(tree[i] == -1 || (tree[i] - b > i && tree[i] - b < cblk), "tree-father", "father of block %ld is %ld of %ld", i, (long)tree[i], (long)cblk);
}
// Edge (u,v): blocks equal or one an ancestor of the other.
static long checkSeparation(const LG& g, Num b, const Num* perm, Num cblk, const Num* rang, const Num* tree, const vector<char>* only = nullptr) {
  vector<int> blk(g.n); { vector<int> byrank(g.n); for (long c = 0; c < cblk; c++) for (Num i = rang[c]; i < rang[c + 1]; i++) byrank[i - b] = (int)c; for (long v = 0; v < g.n; v++) blk[v] = byrank[perm[v] - b]; }
  long cross = 0;
  for (long v = 0; v < g.n; v++) for (auto& e : g.adj[v]) {
    if (only && !((*only)[v] && (*only)[e.first])) continue;
    int a = std::min(blk[v], blk[e.first]), c = std::max(blk[v], blk[e.first]);
    if (a == c) continue;
    cross++;
    long t = a; while (t != -1 && t < c) t = tree[t] == -1 ? -1 : tree[t] - b;
    CHECK(t == c, "separation", "edge %ld-%d joins independent blocks %d and %d", v, e.first, a, c);
  }
  return cross;
}
// Exact factor size and operation count of the elimination of g in the given order (0-based ranks).
static void symbolic(const LG& g, const vector<long>& rank, double& nnz, double& opc) {
  long n = g.n; vector<long> inv(n); for (long v = 0; v < n; v++) inv[rank[v]] = v;
  vector<long> parent(n, -1), anc(n, -1), cnt(n, 0), mark(n, -1);
  // elimination tree and row structures (Liu); counts by walking row subtrees
  for (long i = 0; i < n; i++) {
    for (auto& e : g.adj[inv[i]]) { long k = rank[e.first]; if (k >= i) continue; while (anc[k] != -1 && anc[k] != i) { long t = anc[k]; anc[k] = i; k = t; } if (anc[k] == -1) { anc[k] = i; parent[k] = i; } }
    mark[i] = i;
    for (auto& e : g.adj[inv[i]]) { long k = rank[e.first]; if (k >= i) continue; while (mark[k] != i) { mark[k] = i; cnt[k]++; k = parent[k]; } }
  }
  nnz = 0; opc = 0; for (long i = 0; i < n; i++) { nnz += cnt[i] + 1; opc += (double)(cnt[i] + 1) * (cnt[i] + 1); }
}
