// C03: balance and quality of partitions, mappings and orderings of graphs whose good solutions are known.
#include "genord.hpp"

struct Reg { LG g; double dim; double cuts(double k) const { return c(g.n, k); } std::function<double(double, double)> c; };   // c(n,k): size of a good cut into k parts
static Reg regular(Rng& r, long nmin, long nmax) {
  Reg q; bool rl = r.chance(0.5); int t = (int)r.below(8);
  auto grid = [&](vector<long> d, bool tor, bool diag, const char* name) {
    long n = 1; for (long x : d) n *= x; LGB B(n);
    for (long v = 0; v < n; v++) { long s = 1, w = v; vector<long> c; for (long x : d) { c.push_back(w % x); w /= x; } for (size_t i = 0; i < d.size(); i++) { if (c[i] + 1 < d[i]) B.e(v, v + s); else if (tor && d[i] > 2) B.e(v, v - c[i] * s); s *= d[i]; }
      if (diag && c[0] + 1 < d[0] && c[1] + 1 < d[1]) { B.e(v, v + 1 + d[0]); B.e(v + 1, v + d[0]); } }
    q.g = finish(B, name, r, rl); double f = diag ? 3 : 1; q.dim = (double)d.size();
    if (d.size() == 2) q.c = [=](double n, double k) { double a = std::min(d[0], d[1]); if (k < 2) return 0.0; return f * (tor ? std::min(2 * a * k, 2 * std::sqrt(n * k)) : std::min((k - 1) * a, 2 * std::sqrt(n * k))); };
    else q.c = [=](double n, double k) { return k < 2 ? 0.0 : 3 * std::pow(n, 2.0 / 3) * std::pow(k, 1.0 / 3); };
  };
  long n = r.range(nmin, nmax);
  switch (t) {
    case 0: case 1: { long a = std::max(6L, (long)(std::sqrt((double)n) * (0.5 + r.unit()))); grid({a, std::max(6L, n / a)}, false, false, "grid"); break; }
    case 2: { long a = std::max(8L, (long)(std::sqrt((double)n) * (0.6 + 0.8 * r.unit()))); grid({a, std::max(8L, n / a)}, true, false, "torus"); break; }
    case 3: { long a = std::max(8L, (long)(std::sqrt((double)n) * (0.6 + 0.8 * r.unit()))); grid({a, std::max(8L, n / a)}, false, true, "grid9"); break; }
    case 4: { long a = std::max(5L, (long)std::cbrt((double)n)); grid({a, a + r.range(0, 2), a + r.range(0, 3)}, false, false, "grid3"); break; }
    case 5: { int d = 9 + (int)r.below(2); LGB B(1L << d); for (long v = 0; v < B.n; v++) for (int b = 0; b < d; b++) if (!(v >> b & 1)) B.e(v, v | 1L << b); q.g = finish(B, "hcube", r, rl); q.dim = 9; q.c = [](double n, double k) { return n * std::ceil(std::log2(k) - 1e-9) / 2; }; break; }
    case 6: { LGB B(n); for (long v = 0; v + 1 < n; v++) B.e(v, v + 1); if (r.chance(0.5)) B.e(n - 1, 0); q.g = finish(B, "path", r, rl); q.dim = 1; q.c = [](double, double k) { return k; }; break; }
    default: { LGB B(n); for (long v = 1; v < n; v++) B.e(v, (v - 1) / 2); q.g = finish(B, "tree", r, rl); q.dim = 1; q.c = [](double n, double k) { return k * std::log2(n / k + 2); }; break; }
  }
  feat("kind:" + q.g.kind); return q;
}
static void runCase(long, Rng& r) {
  int thr = pickThreads(r); int mode = (int)r.below(10); bool st = getenv("C03_STAT") != nullptr;
  if (mode >= 8) {                                        // orderings
    Reg q = regular(r, 300, 1400); const LG& g = q.g; PG p; randomPG(r, p, g); StratH s; if (r.chance(0.6)) { static const long fl[] = {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATSCALABILITY}; long f = 0; for (long x : fl) if (r.chance(0.25)) f |= x; double bal = 0.05 + 0.15 * r.unit(); s.txt = fmt("build(0x%lx,%.2f)", f, bal); mustOk(SCOTCH_stratGraphOrderBuild(s.s, (Num)f, 0, bal), s.txt.c_str()); } else s.txt = "default";
    desc("order %s thr=%d %s", showLG(g).c_str(), thr, s.txt.c_str()); Buf pm; pm.alloc(g.n); mustOk(SCOTCH_graphOrder(p.gr, s.s, pm.p, nullptr, nullptr, nullptr, nullptr), "graphOrder"); checkOrdering(g.n, p.base, pm.p, nullptr, (Num)g.n, nullptr, nullptr);
    vector<long> rk(g.n); for (long v = 0; v < g.n; v++) rk[v] = pm[v] - p.base; double nnz, opc; symbolic(g, rk, nnz, opc); double n = (double)g.n, ref;
    const string& k = g.kind; 
    if (k == "grid" || k == "grid9") ref = 10 * std::pow(n, 1.5) + 20 * n; else if (k == "torus") ref = 30 * std::pow(n, 1.5) + 20 * n; else if (k == "grid3") ref = 3.5 * n * n; else if (k == "hcube") ref = 0.12 * n * n * n; else ref = 12 * n;
    if (st) fprintf(stderr, "STAT order %s n=%ld ratio=%.3f %s\n", k.c_str(), g.n, opc / ref, s.txt.c_str());
    double lim = k == "grid" ? 2.6 : k == "grid3" ? 2.3 : k == "grid9" ? 5 : k == "hcube" ? 0.9 : k == "torus" ? 2.5 : k == "path" ? 1.4 : 5;   // about 1.7 times the worst ratio seen on 7500 random cases
    if (!st) CHECK(opc <= lim * ref, "ordering-cost", "operation count %.0f for %s of %ld vertices, reference %.0f, limit %.1f times it", opc, k.c_str(), g.n, ref, lim);
    feat("order"); H.nontrivial++; sig(hashLG(g)); return;
  }
  bool map = mode >= 6; Reg q = regular(r, 700, 2200); const LG& g = q.g; PG p; randomPG(r, p, g);
  std::unique_ptr<ArchH> a; static const int mk[] = {3, 4, 5, 7, 10, 4, 7}; long kmax = std::max(2L, std::min(32L, g.n / 60));
  if (map) do a = genArch(r, kmax, false, mk[r.below(7)], false); while (a->size < 2); else { if (r.chance(0.7)) a = genArch(r, kmax, false, 0, false); else { a = genArch(r, std::min(8L, kmax), false, 2, false); } }
  long k = a->size; StratH s; double bal = 0.05; string txt = "default"; bool rec = false;
  if (r.chance(0.6)) { static const long fl[] = {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATSCALABILITY, SCOTCH_STRATRECURSIVE}; long f = 0; for (long x : fl) if (r.chance(0.25)) f |= x; rec = f & SCOTCH_STRATRECURSIVE; bal = r.chance(0.4) ? 0.01 : 0.01 + 0.2 * r.unit(); txt = fmt("build(0x%lx,%ld,%.3f)", f, k, bal); mustOk(SCOTCH_stratGraphMapBuild(s.s, (Num)f, (Num)k, bal), txt.c_str()); feat("strat:build"); } else feat("strat:default");
  desc("%s %s thr=%d arch %s strat %s", map ? "map" : "part", showLG(g).c_str(), thr, a->name.c_str(), txt.c_str());
  Buf pt; pt.alloc(g.n); bool part = !map && a->wght.empty() && r.chance(0.6);
  if (part) mustOk(SCOTCH_graphPart(p.gr, (Num)k, s.s, pt.p), "graphPart"); else mustOk(SCOTCH_graphMap(p.gr, a->a, s.s, pt.p), "graphMap");
  p.checkUntouched("mapping"); vector<double> ld(k, 0); for (long v = 0; v < g.n; v++) { CHECK(pt[v] >= 0 && pt[v] < k, "part-range", "part %ld of %ld", (long)pt[v], k); ld[pt[v]]++; }
  double ws = 0; for (long i = 0; i < k; i++) ws += a->w(i); double over = 0, under = 1e9; long worst = 0;
  for (long i = 0; i < k; i++) { double sh = g.n * a->w(i) / ws; double o = (ld[i] - 2) / sh - 1; if (o > over) over = o, worst = i; if (sh >= 20) under = std::min(under, ld[i] / sh); }
  double cut = 0, cd = 0; for (long v = 0; v < g.n; v++) for (auto& e : g.adj[v]) if (pt[v] != pt[e.first]) { cut += 0.5; if (map && a->dist) cd += 0.5 * a->dist(pt[v], pt[e.first]); }
  double ref = std::max(q.cuts((double)k), 1.0), cr = cut / ref; double dr = map && a->dist ? cd / ref : 0;
  if (st) fprintf(stderr, "STAT %s %s n=%ld k=%ld bal=%.3f over=%.4f rel=%.3f under=%.3f cut=%.3f dil=%.3f %s%s %s\n", map ? a->name.substr(0, 6).c_str() : "part", g.kind.c_str(), g.n, k, bal, over, over / bal, under, cr, dr, rec ? "rec " : "", a->wght.empty() ? "" : "wgt", txt.c_str());
  if (!st) CHECK(over <= bal * 1.06 + 0.15, "balance", "part %ld has %.0f vertices, its share being %.1f, tolerance %.3f", worst, ld[worst], g.n * a->w(worst) / ws, bal);
  if (!st) CHECK(under > 0.35, "starved-part", "a part has %.2f times its share (%ld vertices, %ld parts)", under, g.n, k);
  double lim = g.kind == "tree" || g.kind == "grid3" ? 1.5 : 2.2; bool tl = a->name.compare(0, 5, "tleaf") == 0 || a->name.compare(0, 4, "ltle") == 0;
  if (!st) CHECK(cut <= lim * ref, "cut", "cut of %.0f edges for %s of %ld vertices in %ld parts, a good one having %.0f", cut, g.kind.c_str(), g.n, k, ref);
  if (!st && map && a->dist && !tl) CHECK(cd <= 3.4 * ref, "dilation", "communication cost %.0f for %s of %ld vertices on %s, a good cut having %.0f edges", cd, g.kind.c_str(), g.n, a->name.c_str(), ref);
  feat(map ? "map" : "part"); H.nontrivial++; sig(hash64(hashLG(g), hashStr(a->name + txt)));
}
