// C28: distributed coarsening, induction, banding and growing are exact.
#include "dcommon.hpp"

// Check that coarse graph (c) with multinodes (mul, pairs in order of coarse vertices) is the quotient of g.
static void quotient(const LG& g, const DPG& d, const DG& c, const vector<Num>& mul, bool nomerge, const char* what) {
  CHECK((long)mul.size() == 2 * c.g.n, "coarsen-multi", "%s: %zu multinode cells for %ld vertices", what, mul.size(), c.g.n);
  DG f; f.base = d.base; f.dsp = d.dsp; f.vrt = d.vrt; for (long x : d.cnt) f.cnt.push_back((Num)x);
  vector<long> cs(g.n, -1); Num wsum = 0;
  for (long i = 0; i < c.g.n; i++) {
    long a = f.toLog(mul[2 * i]), b = f.toLog(mul[2 * i + 1]);
    CHECK(a >= 0 && b >= 0, "coarsen-multi", "%s: coarse vertex %ld is made of %ld and %ld, which are not both vertices", what, i, (long)mul[2 * i], (long)mul[2 * i + 1]);
    CHECK(cs[a] < 0 && cs[b] < 0, "coarsen-multi", "%s: fine vertex in two coarse vertices", what); cs[a] = cs[b] = i;
    Num w = g.vl(a) + (a != b ? g.vl(b) : 0); CHECK(c.g.vl(i) == w, "coarsen-load", "%s: coarse vertex %ld weighs %ld instead of %ld", what, i, (long)c.g.vl(i), (long)w); wsum += w;
    if (a != b) {
      bool adj = false; for (auto& e : g.adj[a]) adj |= e.first == b;
      if (!adj) { CHECK(g.adj[a].empty() || g.adj[b].empty(), "coarsen-not-adjacent", "%s: vertices %ld and %ld merged without being adjacent or isolated", what, a, b); CHECK(!nomerge, "coarsen-nomerge", "%s: isolated vertex merged in spite of the flag", what); feat("merged-isolated"); }
      if (d.owner(a) != d.owner(b)) feat("distant-mates");
    }
  }
  for (long v = 0; v < g.n; v++) CHECK(cs[v] >= 0, "coarsen-multi", "%s: fine vertex %ld belongs to no coarse vertex", what, v);
  vector<map<int, Num>> q(c.g.n); for (long v = 0; v < g.n; v++) for (auto& e : g.adj[v]) if (cs[v] != cs[e.first]) q[cs[v]][(int)cs[e.first]] += g.edlo ? e.second : 1;
  for (long i = 0; i < c.g.n; i++) { map<int, Num> o; for (auto& e : c.g.adj[i]) { CHECK(!o.count(e.first), "coarsen-adjacency", "%s: double arc at coarse vertex %ld", what, i); o[e.first] = e.second; } CHECK(o == q[i], "coarsen-adjacency", "%s: coarse vertex %ld has %zu neighbours instead of %zu, or other edge loads", what, i, o.size(), q[i].size()); }
  if (c.g.n < g.n) { H.nontrivial++; feat("coarsened"); }
}
static void coarsen(Rng& r) {
  LG g = genGraphD(r, r.chance(0.7) ? 80 : 500); addWeights(r, g); if (r.chance(0.2)) addLabels(r, g, 0);
  DPG d; randomDPG(r, d, g); desc("coarsen %s np=%d base=%ld", showLG(g).c_str(), g_np, (long)d.base);
  bool nom = r.chance(0.3), give = r.chance(0.7); int fold = (int)r.below(3); int th = r.chance(0.7) ? 1 : (int)r.range(2, 3);
  setThreads(th); feat(fmt("threads:%d", th));
  Num flag = (nom ? SCOTCH_COARSENNOMERGE : 0) | (fold == 1 ? SCOTCH_COARSENFOLD : fold == 2 ? SCOTCH_COARSENFOLDDUP : SCOTCH_COARSENNONE);
  Num cnbr = r.chance(0.6) ? 0 : (Num)r.below(g.n + 1); static const double rat[] = {0.5, 0.6, 0.75, 0.8, 0.9, 1.0, 1.0}; double cr = rat[r.below(7)];
  desc("flags %ld, at least %ld, ratio %g, %d threads%s", (long)flag, (long)cnbr, cr, th, give ? "" : ", no array");
  Num mx = SCOTCH_dgraphCoarsenVertLocMax(d.gr, flag); CHECK(mx >= 0, "coarsen-bound", "bound %ld", (long)mx);
  Buf mul; if (give) { mul.alloc(2 * mx); for (long i = 0; i < 2 * mx; i++) mul[i] = -77; }
  DGH h; int o = SCOTCH_dgraphCoarsen(d.gr, cnbr, cr, flag, h.g, give ? mul.p : nullptr); setThreads(1);
  CHECK(o == 0 || o == 1, "call-failed", "dgraphCoarsen returns %d: %s", o, g_err.c_str());
  CHECK(allSame(o), "coarsen-result-not-global", "dgraphCoarsen gives %d here and something else elsewhere", o);
  CHECK(g_errnbr == 0, "coarsen-error", "dgraphCoarsen returns %d after printing: %s", o, g_err.c_str());
  d.checkUntouched("dgraphCoarsen"); feat(fmt("coarsen:fold%d:%s", fold, o == 0 ? "done" : "refused"));
  Num lim = (Num)((double)g.n * cr); if (lim < cnbr) CHECK(o == 1, "coarsen-threshold", "graph of %ld vertices coarsened although the limits are %ld and %g", g.n, (long)cnbr, cr);
  sig(hash64(hashLG(g), (u64)flag));
  if (o == 1) {
    if (cr == 1.0 && lim >= cnbr) CHECK(false, "coarsen-refused", "coarsening refused although any ratio was allowed");
    return;
  }
  bool folded = fold != 0 && g_np > 1; int half = (g_np + 1) / 2, me = g_me; bool in = !folded || fold == 2 || me < half;
  auto judge = [&](MPI_Comm cm, int wantn, int wantm) {
    SubComm sc(cm); CHECK(g_np == wantn && g_me == wantm, "fold-communicator", "process %d of %d in the folded communicator, should be %d of %d", g_me, g_np, wantm, wantn);
    DG c; { SubComm keep(cm); c = readD(h.g); }
    mustCheckD(h.g, "the coarse graph"); CHECK(c.base == d.base, "coarsen-base", "base value %ld instead of %ld", (long)c.base, (long)d.base);
    CHECK(c.g.n <= lim, "coarsen-ratio", "coarse graph has %ld vertices, at most %ld allowed", c.g.n, (long)lim);
    Num nl = c.cnt[g_me]; CHECK(nl <= mx, "coarsen-bound", "%ld local coarse vertices, bound %ld", (long)nl, (long)mx);
    if (give) { vector<Num> a = allCat(vector<Num>(mul.p, mul.p + 2 * nl)); quotient(g, d, c, a, nom, folded ? "folded coarse graph" : "coarse graph"); }
    else { Num w = 0, x = 0; for (long i = 0; i < c.g.n; i++) w += c.g.vl(i); for (long i = 0; i < g.n; i++) x += g.vl(i); CHECK(w == x, "coarsen-load", "coarse graph weighs %ld, fine graph %ld", (long)w, (long)x); string s = validLG(c.g); CHECK(s.empty(), "coarsen-invalid", "%s", s.c_str()); }
    mustOk(SCOTCH_dgraphGhst(h.g), "dgraphGhst"); DG y = readD(h.g); vector<long> gh; checkGhost(h.g, y, &gh);
    vector<Num> b(nl + gh.size() + 1, -3); for (long i = 0; i < nl; i++) b[i] = (Num)(y.dsp[g_me] + i); mustOk(SCOTCH_dgraphHalo(h.g, b.data(), NUM_MPI), "dgraphHalo");
    for (size_t i = 0; i < gh.size(); i++) CHECK(b[nl + i] == gh[i], "halo-value", "exchange on the coarse graph gives %ld for vertex %ld", (long)b[nl + i], gh[i]);
  };
  if (!folded) judge(g_comm, g_np, g_me);
  else if (in) { MPI_Comm cm; SCOTCH_dgraphData(h.g, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, &cm); if (fold == 1 || me < half) judge(cm, half, me); else judge(cm, g_np - half, me - half); }
}
static void induce(Rng& r) {
  LG g = genGraphD(r, r.chance(0.8) ? 70 : 400); addWeights(r, g); if (r.chance(0.3)) addLabels(r, g, 0);
  DPG d; randomDPG(r, d, g); int k = (int)r.range(1, 4); vector<Num> part(g.n); bool blk = r.chance(0.3); Num off = r.chance(0.3) ? -2 : 0;
  for (long v = 0; v < g.n; v++) part[v] = off + (Num)(blk ? v * k / g.n : r.below(k)); Num want = off + (Num)r.below(k); bool tell = r.chance(0.6);
  desc("induce %s np=%d base=%ld part %ld of %d", showLG(g).c_str(), g_np, (long)d.base, (long)want, k);
  vector<Num> pl; for (long i = 0; i < d.nloc(); i++) pl.push_back(part[d.first() + i]); Buf pb; pb.set(pl); pb.save();
  vector<long> cnt(g_np, 0), idx(g.n, -1); vector<long> kept; for (long v = 0; v < g.n; v++) if (part[v] == want) { cnt[d.owner(v)]++; idx[v] = (long)kept.size(); kept.push_back(v); }
  DGH h; mustOk(SCOTCH_dgraphInducePart(d.gr, pb.p, want, tell ? (Num)cnt[g_me] : -1, h.g), "dgraphInducePart");
  CHECK(pb.same(), "induce-input", "part array modified"); d.checkUntouched("dgraphInducePart"); mustCheckD(h.g, "the induced graph");
  DG y = readD(h.g); CHECK(y.base == d.base, "induce-base", "base value %ld", (long)y.base);
  for (int p = 0; p < g_np; p++) CHECK(y.cnt[p] == (Num)cnt[p], "induce-count", "process %d keeps %ld vertices instead of %ld", p, (long)y.cnt[p], cnt[p]);
  LG z; z.n = (long)kept.size(); z.adj.resize(z.n); z.edlo = g.edlo;
  for (long i = 0; i < z.n; i++) { long v = kept[i]; for (auto& e : g.adj[v]) if (idx[e.first] >= 0) z.adj[i].push_back({(int)idx[e.first], e.second}); if (!g.velo.empty()) z.velo.push_back(g.velo[v]); z.vlbl.push_back(g.vlbl.empty() ? d.glob(v) : g.vlbl[v]); }
  sameLG(z, y.g, "induced graph");
  mustOk(SCOTCH_dgraphGhst(h.g), "dgraphGhst"); DG q = readD(h.g); checkGhost(h.g, q);
  if (z.n > 0 && r.chance(0.3)) {                           // induced again
    vector<Num> p2; for (long i = 0; i < y.cnt[g_me]; i++) p2.push_back((Num)(hash64(77, (u64)(y.dsp[g_me] + i)) % 2)); Buf b2; b2.set(p2); DGH h2; mustOk(SCOTCH_dgraphInducePart(h.g, b2.p, 1, -1, h2.g), "dgraphInducePart"); mustCheckD(h2.g, "the graph induced twice");
    DG w = readD(h2.g); vector<Num> lb; for (long i = 0; i < z.n; i++) if (hash64(77, (u64)i) % 2 == 1) lb.push_back(z.vlbl[i]); CHECK(w.g.vlbl == lb || (lb.empty() && w.g.vlbl.empty()), "induce-labels", "labels lost in a second induction"); feat("induce:twice");
  }
  sig(hash64(hashLG(g), (u64)z.n)); if (z.n > 0 && z.n < g.n) H.nontrivial++; feat("induce");
}
// Distances from a set of vertices, over vertices that are not blocked.
static vector<long> bfs(const LG& g, const vector<long>& seeds, const vector<char>& blocked, long mx) {
  vector<long> ds(g.n, -1), q = seeds; for (long v : seeds) ds[v] = 0;
  for (size_t i = 0; i < q.size(); i++) { long v = q[i]; if (ds[v] >= mx) continue; for (auto& e : g.adj[v]) if (ds[e.first] < 0 && !blocked[e.first]) { ds[e.first] = ds[v] + 1; q.push_back(e.first); } }
  return ds;
}
static vector<long> pickSeeds(Rng& r, const LG& g) { vector<long> s; int t = (int)r.below(4); double p = t == 0 ? 0.05 : t == 1 ? 0.3 : 0; if (p > 0) { for (long v = 0; v < g.n; v++) if (r.chance(p)) s.push_back(v); } else if (g.n > 0) { long k = std::min(g.n, r.range(t == 2 ? 1 : 0, 3)); vector<long> a(g.n); std::iota(a.begin(), a.end(), 0); r.shuffle(a); s.assign(a.begin(), a.begin() + k); } return s; }
static void band(Rng& r) {
  LG g = genGraphD(r, r.chance(0.8) ? 80 : 400); addWeights(r, g); if (r.chance(0.3)) addLabels(r, g, 0);
  DPG d; randomDPG(r, d, g); vector<long> seeds = pickSeeds(r, g); Num dist = r.chance(0.1) ? 0 : (Num)r.range(1, 5);
  desc("band %s np=%d base=%ld %zu seeds distance %ld", showLG(g).c_str(), g_np, (long)d.base, seeds.size(), (long)dist);
  vector<Num> q(d.nloc(), -9); long k = 0; for (long v : seeds) if (d.owner(v) == g_me) q[k++] = d.base + (Num)(v - d.first()); Buf b; b.set(q);
  DGH h; mustOk(SCOTCH_dgraphBand(d.gr, (Num)k, b.p, dist, h.g), "dgraphBand"); d.checkUntouched("dgraphBand"); mustCheckD(h.g, "the band graph");
  DG y = readD(h.g); CHECK(y.base == d.base, "band-base", "base value %ld", (long)y.base);
  vector<long> ds = bfs(g, seeds, vector<char>(g.n, 0), dist); map<Num, long> byl; for (long v = 0; v < g.n; v++) byl[g.vlbl.empty() ? d.glob(v) : g.vlbl[v]] = v;
  long want = 0; for (long x : ds) want += x >= 0; CHECK(y.g.n == want, "band-size", "band graph of %ld vertices instead of %ld", y.g.n, want);
  vector<long> org(y.g.n); vector<char> seen(g.n, 0); if (want) CHECK(!y.g.vlbl.empty(), "band-labels", "band graph without labels");
  for (int p = 0; p < g_np; p++) for (long i = y.dsp[p]; i < y.dsp[p + 1]; i++) {
    auto it = byl.find(y.g.vlbl[i]); CHECK(it != byl.end(), "band-labels", "unknown label %ld", (long)y.g.vlbl[i]); long v = org[i] = it->second;
    CHECK(ds[v] >= 0 && !seen[v], "band-vertices", "vertex %ld at distance %ld in the band graph, or twice", v, ds[v]); seen[v] = 1; CHECK(d.owner(v) == p, "band-process", "vertex %ld moved to another process", v);
    CHECK(y.g.vl(i) == g.vl(v), "band-load", "vertex %ld weighs %ld instead of %ld", v, (long)y.g.vl(i), (long)g.vl(v));
  }
  for (long i = 0; i < y.g.n; i++) { set<pair<long, Num>> s1, s2; for (auto& e : y.g.adj[i]) s1.insert({org[e.first], e.second}); for (auto& e : g.adj[org[i]]) if (ds[e.first] >= 0) s2.insert({e.first, g.edlo ? e.second : 1}); CHECK(s1 == s2, "band-edges", "vertex %ld has %zu neighbours in the band graph instead of %zu, or other loads", org[i], s1.size(), s2.size()); }
  { Num wmin, wmax, ws; double avg, dlt; mustOk(SCOTCH_dgraphStat(h.g, &wmin, &wmax, &ws, &avg, &dlt, 0, 0, 0, 0, 0, 0, 0, 0, 0), "dgraphStat"); Num x = 0; for (long i = 0; i < y.g.n; i++) x += y.g.vl(i); CHECK(ws == x, "band-load-sum", "band graph weighs %ld in statistics, %ld in fact", (long)ws, (long)x); }
  mustOk(SCOTCH_dgraphGhst(h.g), "dgraphGhst"); DG z = readD(h.g); checkGhost(h.g, z);
  sig(hash64(hashLG(g), (u64)want)); if (want > (long)seeds.size() && want < g.n) H.nontrivial++; feat("band"); if (seeds.empty()) feat("band:no-seed");
}
static void grow(Rng& r) {
  LG g = genGraphD(r, r.chance(0.8) ? 80 : 400); addWeights(r, g);
  DPG d; randomDPG(r, d, g); vector<long> seeds = pickSeeds(r, g); Num dist = r.chance(0.1) ? 0 : (Num)r.range(1, 12); int nc = (int)r.range(1, 6);
  desc("grow %s np=%d base=%ld %zu seeds distance %ld", showLG(g).c_str(), g_np, (long)d.base, seeds.size(), (long)dist);
  mustOk(SCOTCH_dgraphGhst(d.gr), "dgraphGhst"); DG x = readD(d.gr); vector<long> gh; checkGhost(d.gr, x, &gh);
  vector<Num> col(g.n, -1); vector<char> blocked(g.n, 0), isSeed(g.n, 0); for (long v : seeds) { col[v] = (Num)r.below(nc); isSeed[v] = 1; }
  if (r.chance(0.4)) { double p = r.unit() * 0.4; for (long v = 0; v < g.n; v++) if (!isSeed[v] && r.chance(p)) { blocked[v] = 1; col[v] = 1000 + (Num)r.below(3); } feat("grow:blocked"); }
  vector<Num> q(d.nloc(), -9); long k = 0; for (long v : seeds) if (d.owner(v) == g_me) q[k++] = d.base + (Num)(v - d.first()); Buf b; b.set(q);
  vector<Num> p0; for (long i = 0; i < d.nloc(); i++) p0.push_back(col[d.first() + i]); for (size_t i = 0; i < gh.size(); i++) p0.push_back(-1); Buf pb; pb.set(p0);
  mustOk(SCOTCH_dgraphGrow(d.gr, (Num)k, b.p, dist, pb.p), "dgraphGrow"); d.checkUntouched("dgraphGrow");
  vector<Num> res = allCat(vector<Num>(pb.p, pb.p + d.nloc())); vector<long> ds = bfs(g, seeds, blocked, dist);
  for (long v = 0; v < g.n; v++) {
    if (isSeed[v] || blocked[v]) CHECK(res[v] == col[v], "grow-seed", "colour %ld of vertex %ld became %ld", (long)col[v], v, (long)res[v]);
    else if (ds[v] < 0) CHECK(res[v] == -1, "grow-far", "vertex %ld out of reach has colour %ld", v, (long)res[v]);
    else { bool ok = false; for (auto& e : g.adj[v]) ok |= ds[e.first] == ds[v] - 1 && res[e.first] == res[v]; CHECK(ok, "grow-colour", "vertex %ld at distance %ld has colour %ld, which is that of no neighbour at distance %ld", v, ds[v], (long)res[v], ds[v] - 1); }
  }
  DG y = readD(d.gr); checkGhost(d.gr, y);
  sig(hash64(hashLG(g), (u64)dist)); long got = 0; for (long v = 0; v < g.n; v++) got += ds[v] > 0; if (got) H.nontrivial++; feat("grow");
}
static void runCaseD(long n, Rng& r) {
  int t = (int)r.below(10);
  if (t < 4) coarsen(r); else if (t < 6) induce(r); else if (t < 8) band(r); else grow(r);
}
