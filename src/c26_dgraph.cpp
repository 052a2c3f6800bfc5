// C26: distributed graphs are built, checked and halo-exchanged exactly.
#include "dcommon.hpp"

template <class T> static void haloOf(Rng& r, SCOTCH_Dgraph* g, MPI_Datatype t, int mult, long vln, const vector<long>& gh, long first, u64 salt, bool async, bool inFlight) {
  long tot = vln + (long)gh.size(); T* a = (T*)malloc(std::max((size_t)1, tot * mult * sizeof(T)));
  auto val = [&](long v, int k) { return (T)(hash64(hash64(salt, (u64)v), (u64)k) % 100); };
  for (long i = 0; i < tot * mult; i++) a[i] = (T)-7;
  for (long i = 0; i < vln; i++) for (int k = 0; k < mult; k++) a[i * mult + k] = val(first + i, k);
  if (async) {
    SCOTCH_DgraphHaloReq* q = SCOTCH_dgraphHaloReqAlloc();
    mustOk(SCOTCH_dgraphHaloAsync(g, a, t, q), "dgraphHaloAsync");
    if (inFlight) {                                         // another exchange while the first is under way
      vector<Num> b(tot + 1, -3); for (long i = 0; i < vln; i++) b[i] = (Num)(first + i);
      mustOk(SCOTCH_dgraphHalo(g, b.data(), NUM_MPI), "dgraphHalo during another");
      for (size_t i = 0; i < gh.size(); i++) CHECK(b[vln + i] == gh[i], "halo-value", "exchange performed during another gave %ld for the ghost of vertex %ld", (long)b[vln + i], gh[i]);
      feat("halo:overlapped");
    }
    mustOk(SCOTCH_dgraphHaloWait(q), "dgraphHaloWait"); free(q); feat("halo:async");
  }
  else { mustOk(SCOTCH_dgraphHalo(g, a, t), "dgraphHalo"); feat("halo:sync"); }
  for (long i = 0; i < vln; i++) for (int k = 0; k < mult; k++) CHECK(a[i * mult + k] == val(first + i, k), "halo-local-changed", "the exchange changed the value of local vertex %ld", i);
  for (size_t i = 0; i < gh.size(); i++) for (int k = 0; k < mult; k++) CHECK(a[(vln + i) * mult + k] == val(gh[i], k), "halo-value", "ghost %zu (vertex %ld) holds item %d = %g instead of %g", i, gh[i], k, (double)a[(vln + i) * mult + k], (double)val(gh[i], k));
  free(a);
}
static void halos(Rng& r, SCOTCH_Dgraph* g, long vln, const vector<long>& gh, long first) {
  int k = (int)r.range(1, 3);
  for (int i = 0; i < k; i++) {
    u64 s = r.next(); bool as = r.chance(0.5), fl = r.chance(0.4); int t = (int)r.below(6);
    if (t == 0) haloOf<Num>(r, g, NUM_MPI, 1, vln, gh, first, s, as, fl);
    else if (t == 1) haloOf<unsigned char>(r, g, MPI_BYTE, 1, vln, gh, first, s, as, fl);
    else if (t == 2) haloOf<double>(r, g, MPI_DOUBLE, 1, vln, gh, first, s, as, fl);
    else if (t == 3) haloOf<int>(r, g, MPI_INT, 1, vln, gh, first, s, as, fl);
    else if (t == 4) haloOf<short>(r, g, MPI_SHORT, 1, vln, gh, first, s, as, fl);
    else { int m = (int)r.range(2, 5); MPI_Datatype c; PMPI_Type_contiguous(m, MPI_INT, &c); PMPI_Type_commit(&c); haloOf<int>(r, g, c, m, vln, gh, first, s, as, fl); PMPI_Type_free(&c); }
    feat(fmt("halo-type:%d", t));
  }
}
static void valid(Rng& r) {
  LG g = genGraphD(r, r.chance(0.8) ? 60 : 400); addWeights(r, g); if (r.chance(0.3)) addLabels(r, g, 0);
  DPG d; randomDPG(r, d, g); desc("%s np=%d base=%ld", showLG(g).c_str(), g_np, (long)d.base);
  sig(hashLG(g)); bool ghFirst = r.chance(0.5), chk = r.chance(0.7);
  if (chk) mustCheckD(d.gr, "a valid graph");
  if (ghFirst) mustOk(SCOTCH_dgraphGhst(d.gr), "dgraphGhst");
  else {                                                   // the exchange computes the ghost data itself
    set<long> gs; for (long i = 0; i < d.nloc(); i++) for (auto& e : g.adj[d.first() + i]) if (d.owner(e.first) != g_me) gs.insert(e.first);
    halos(r, d.gr, d.nloc(), vector<long>(gs.begin(), gs.end()), d.first()); feat("halo-before-ghost");
  }
  DG x = readD(d.gr); sameLG(g, x.g, "dgraphData");
  CHECK(x.base == d.base, "dgraph-base", "base value %ld instead of %ld", (long)x.base, (long)d.base);
  for (int p = 0; p <= g_np; p++) CHECK(x.vrt[p] == d.vrt[p] && x.dsp[p] == d.dsp[p], "dgraph-ranges", "range of process %d starts at %ld instead of %ld", p, x.vrt[p], d.vrt[p]);
  Num a, b, c, e; SCOTCH_dgraphSize(d.gr, &a, &b, &c, &e);
  CHECK(a == g.n && b == d.nloc() && c == g.arcs() && e == d.edgeloc, "dgraph-size", "dgraphSize gives %ld %ld %ld %ld", (long)a, (long)b, (long)c, (long)e);
  vector<long> gh; checkGhost(d.gr, x, &gh);
  if (gh.size() > 0) { H.nontrivial++; feat("ghosts"); }
  if (d.hasgst) { Num* eg; SCOTCH_dgraphData(d.gr, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, &eg, 0, 0); CHECK(eg == d.gst.p, "ghost-array", "the ghost edge array given by the user was not used"); }
  halos(r, d.gr, d.nloc(), gh, d.first());
  mustCheckD(d.gr, "a valid graph with ghost data");
  d.checkUntouched("ghost computation, exchange or check");
  if (r.chance(0.3)) {                                     // same structure freed and built anew with another graph
    SCOTCH_dgraphFree(d.gr);
    LG g2 = genGraphD(r, 50); addWeights(r, g2); DPG d2; d2.base = pickBase(r); d2.distribute(r, g2, true); bool cmp = r.chance(0.5); d2.layout(r, d2.base, cmp, false, r.chance(0.3), false);
    mustOk(SCOTCH_dgraphBuild(d.gr, d2.base, (Num)d2.nloc(), (Num)d2.mx[g_me], d2.vert.p, d2.vend.p, d2.velo.p, nullptr, (Num)d2.edgeloc, (Num)d2.edgesiz, d2.edge.p, d2.hasgst ? d2.gst.p : nullptr, d2.edlo.p), "dgraphBuild after dgraphFree");
    mustOk(SCOTCH_dgraphGhst(d.gr), "dgraphGhst"); DG y = readD(d.gr); sameLG(g2, y.g, "graph built after dgraphFree"); vector<long> gh2; checkGhost(d.gr, y, &gh2);
    mustCheckD(d.gr, "a graph built after dgraphFree"); halos(r, d.gr, d2.nloc(), gh2, d2.first()); feat("rebuilt");
    SCOTCH_dgraphFree(d.gr);
  }
}
// A single corruption, which breaks the definition of distributed graphs; every process must learn that something is wrong.
static void corrupt(Rng& r) {
  LG g = genGraphD(r, 40); addWeights(r, g);
  DPG d; d.base = pickBase(r); d.distribute(r, g, true); bool c = r.chance(0.6); d.layout(r, d.base, c, false, r.chance(0.3), false);
  desc("%s np=%d base=%ld", showLG(g).c_str(), g_np, (long)d.base);
  vector<int> cand; for (int p = 0; p < g_np; p++) { long a = 0; for (long v = d.dsp[p]; v < d.dsp[p + 1]; v++) a += (long)g.adj[v].size(); if (a > 0) cand.push_back(p); }
  if (cand.empty()) { feat("skipped"); return; }
  int p = r.pick(cand); vector<long> vs; for (long v = d.dsp[p]; v < d.dsp[p + 1]; v++) if (!g.adj[v].empty()) vs.push_back(v);
  long v = r.pick(vs), i = v - d.dsp[p], k = r.below((long)g.adj[v].size()), w = g.adj[v][k].first; bool me = p == g_me;
  Num* q = me ? &d.edge[d.vert[i] - d.base + k] : nullptr; int t = (int)r.below(14); string what; Num nloc = (Num)d.nloc(), mx = (Num)d.mx[g_me], eloc = (Num)d.edgeloc, esiz = (Num)d.edgesiz; bool after = r.chance(0.5), ghst = r.chance(0.3);
  Num bad; u64 rnd = r.next();
  switch (t) {
    case 0: { vector<long> no; for (long x = 0; x < g.n; x++) if (x != v) { bool nb = false; for (auto& e : g.adj[v]) nb |= e.first == x; if (!nb) no.push_back(x); } if (no.empty()) { feat("skipped"); return; } bad = d.glob(no[rnd % no.size()]); if (q) *q = bad; what = "edge-end-not-matched"; break; }
    case 1: bad = (rnd & 1) ? (Num)(d.vrt[g_np] + (long)(rnd % 3)) : (Num)(d.base - 1 - (long)(rnd % 3)); if (q) *q = bad; what = "edge-end-out-of-range"; break;
    case 2: { vector<Num> hl; for (int x = 0; x < g_np; x++) for (long y = d.vrt[x] + d.cnt[x]; y < d.vrt[x + 1]; y++) hl.push_back((Num)y); if (hl.empty()) { feat("skipped"); return; } bad = hl[rnd % hl.size()]; if (q) *q = bad; what = "edge-end-in-hole"; break; }
    case 3: { if (g.adj[v].size() < 2) { feat("skipped"); return; } long k2 = (k + 1) % (long)g.adj[v].size(); if (q) { Num* q2 = &d.edge[d.vert[i] - d.base + k2]; *q2 = *q; } what = "duplicate-arc"; break; }
    case 4: if (q) *q = d.glob(v); what = "loop"; break;
    case 5: if (!g.edlo) { feat("skipped"); return; } if (me) d.edlo[d.vert[i] - d.base + k] += 1 + (Num)(rnd % 5); what = "edge-load-mismatch"; break;
    case 6: if (!g.edlo) { feat("skipped"); return; } { Num nv = (rnd & 1) ? 0 : -5; for (auto pr : {pair<long, long>(v, w), pair<long, long>(w, v)}) if (d.owner(pr.first) == g_me) { long x = pr.first - d.first(); for (size_t j = 0; j < g.adj[pr.first].size(); j++) if (g.adj[pr.first][j].first == pr.second) d.edlo[d.vert[x] - d.base + j] = nv; } } what = "edge-load-not-positive"; break;
    case 7: if (g.velo.empty()) { feat("skipped"); return; } if (me) d.velo[i] = -1 - (Num)(rnd % 9); what = "negative-vertex-load"; break;
    case 8: if (c) { feat("skipped"); return; } if (me) d.vend[i] = d.vert[i] - 1; what = "end-before-start"; break;
    case 9: if (c) { feat("skipped"); return; } if (me) d.vert[i] = d.base - 1 - (Num)(rnd % 4); what = "start-below-base"; break;
    case 10: if (c) { feat("skipped"); return; } if (me) d.vend[i] = d.base + (Num)d.edgesiz + 1 + (Num)(rnd % 4); what = "end-after-array"; break;
    case 11: if (me) eloc += (rnd & 1) ? -1 : 1; if (esiz < eloc) { if (!c) esiz = eloc; } what = "edge-number"; after = false; if (me && esiz < eloc) { eloc -= 2; } break;
    case 12: if (g.velo.empty() || g_np == 1) { feat("skipped"); return; } what = "vertex-loads-on-some"; after = false; break;
    default: if (!g.edlo || g_np == 1) { feat("skipped"); return; } what = "edge-loads-on-some"; after = false; break;
  }
  desc("%s on process %d", what.c_str(), p);
  Num* velo = d.velo.p; Num* edlo = d.edlo.p; if (me && t == 12) velo = nullptr; if (me && t == 13) edlo = nullptr;
  DGH h; (void)after;
  int o = SCOTCH_dgraphBuild(h.g, d.base, nloc, mx, d.vert.p, c ? nullptr : d.vend.p, velo, nullptr, eloc, esiz, d.edge.p, d.hasgst ? d.gst.p : nullptr, edlo);
  auto ob = allOne(o != 0); bool any = false, all = true; for (Num x : ob) { any |= x != 0; all &= x != 0; }
  if (any) { CHECK(all, "build-refusal-not-global", "dgraphBuild refuses (%s) on some processes only", what.c_str()); feat("refused-by-build:" + what); }
  else {
    (void)ghst;
    errClear();
    int oc = SCOTCH_dgraphCheck(h.g); auto ok = allOne(oc != 0); any = false; all = true; for (Num x : ok) { any |= x != 0; all &= x != 0; }
    CHECK(any, "corruption-accepted", "dgraphCheck accepts a graph with %s", what.c_str());
    CHECK(all, "check-refusal-not-global", "dgraphCheck refuses (%s) on some processes only", what.c_str());
    feat("refused-by-check:" + what);
  }
  errClear(); H.nontrivial++; sig(hash64(hashLG(g), t));
}
static void grid(Rng& r) {
  long x = r.range(1, 7), y = r.range(1, 6), z = r.range(1, 5), n = x * y * z; if (r.chance(0.15)) x = r.range(1, 40), n = x * y * z;
  bool d26 = r.chance(0.4), tor = r.chance(0.4), vl = r.chance(0.4), el = r.chance(0.4); long inc = r.chance(0.5) ? 1 : r.range(1, 2 * n + 3);
  int fl = (d26 ? SCOTCH_DGRAPHBUILDGRID3DNGB26 : SCOTCH_DGRAPHBUILDGRID3DNGB6) | (tor ? SCOTCH_DGRAPHBUILDGRID3DTORUS : SCOTCH_DGRAPHBUILDGRID3DGRID) | (vl ? SCOTCH_DGRAPHBUILDGRID3DVERTLOAD : 0) | (el ? SCOTCH_DGRAPHBUILDGRID3DEDGELOAD : 0);
  Num base = pickBase(r); desc("grid3D %ldx%ldx%ld inc %ld flags %d base %ld", x, y, z, inc, fl, (long)base);
  DGH h; mustOk(SCOTCH_dgraphBuildGrid3D(h.g, base, (Num)x, (Num)y, (Num)z, (Num)inc, fl), "dgraphBuildGrid3D");
  mustCheckD(h.g, "a built grid"); DG d = readD(h.g);
  CHECK(d.base == base && d.g.n == n, "grid-size", "grid has %ld vertices instead of %ld", d.g.n, n);
  string s = validLG(d.g); CHECK(s.empty(), "grid-invalid", "%s", s.c_str());
  CHECK(d.g.velo.empty() == !vl && d.g.edlo == el, "grid-loads", "loads present: %d %d, asked: %d %d", !d.g.velo.empty(), d.g.edlo, vl, el);
  for (Num w : d.g.velo) CHECK(w > 0, "grid-loads", "vertex load %ld", (long)w);
  for (auto& a : d.g.adj) for (auto& e : a) CHECK(e.second > 0, "grid-loads", "edge load %ld", (long)e.second);
  vector<long> pos(n, -1); vector<char> seen(n, 0);
  CHECK((inc == 1) == d.g.vlbl.empty(), "grid-labels", "labels %s with increment %ld", d.g.vlbl.empty() ? "absent" : "present", inc);
  for (long v = 0; v < n; v++) { long p = d.g.vlbl.empty() ? v : d.g.vlbl[v] - base; CHECK(p >= 0 && p < n && !seen[p], "grid-labels", "label %ld of vertex %ld out of range or twice", p + base, v); seen[p] = 1; pos[v] = p; }
  auto md = [](long a, long m) { return ((a % m) + m) % m; };
  for (long v = 0; v < n; v++) {
    long px = pos[v] % x, py = pos[v] / x % y, pz = pos[v] / (x * y); set<long> nb;
    for (long a = -1; a <= 1; a++) for (long b = -1; b <= 1; b++) for (long c = -1; c <= 1; c++) {
      if (!d26 && std::abs(a) + std::abs(b) + std::abs(c) != 1) continue;
      long qx = px + a, qy = py + b, qz = pz + c;
      if (tor) { qx = md(qx, x); qy = md(qy, y); qz = md(qz, z); } else if (qx < 0 || qy < 0 || qz < 0 || qx >= x || qy >= y || qz >= z) continue;
      long w = qx + x * (qy + y * qz); if (w != pos[v]) nb.insert(w);
    }
    set<long> got; for (auto& e : d.g.adj[v]) got.insert(pos[e.first]);
    CHECK(got == nb, "grid-adjacency", "vertex at (%ld,%ld,%ld) has %zu neighbours instead of %zu, or others", px, py, pz, got.size(), nb.size());
  }
  mustOk(SCOTCH_dgraphGhst(h.g), "dgraphGhst"); DG d2 = readD(h.g); vector<long> gh; checkGhost(h.g, d2, &gh); halos(r, h.g, d2.cnt[g_me], gh, d2.dsp[g_me]);
  sig(hash64(hash64(x, y), hash64(z, fl))); if (n > 1) H.nontrivial++; feat(inc == 1 ? "grid:plain" : "grid:strided"); feat(fmt("grid:%s%s", d26 ? "26" : "6", tor ? "torus" : "mesh"));
}
static void runCaseD(long n, Rng& r) {
  int t = (int)r.below(10);
  if (t < 5) valid(r); else if (t < 8) corrupt(r); else grid(r);
}
