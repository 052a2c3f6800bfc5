// C08: graph, mesh and ordering checkers against independent validity rules, on valid and corrupted structures.
#include "gen.hpp"
#include "mesh.hpp"
#include "genord.hpp"
// Raw graph validity; arrays are un-based pointers with given extents. -1: outside of the extents (not to be tried), 0 invalid, 1 valid.
static int validRaw(long n, Num b, const Num* vert, const Num* vend, const Num* edge, long esz, const Num* edlo, const Num* velo, long arcs, string& why) {
  long sum = 0; set<pair<long, long>> seen; map<pair<long, long>, Num> w;
  for (long v = 0; v < n; v++) { if (vert[v] < b || vend[v] < vert[v]) { why = "vertex array"; return 0; } if (vend[v] - b > esz) return -1; }
  for (long v = 0; v < n; v++) { for (long k = vert[v] - b; k < vend[v] - b; k++) { long u = (long)edge[k] - b; if (u < 0 || u >= n) { why = "range"; return 0; } if (u == v) { why = "loop"; return 0; } if (!seen.insert({v, u}).second) { why = "duplicate"; return 0; } if (edlo) w[{v, u}] = edlo[k]; sum++; } if (velo && velo[v] < 0) { why = "negative load"; return 0; } }
  for (auto& e : seen) { if (!seen.count({e.second, e.first})) { why = "asymmetric"; return 0; } if (edlo && w[e] != w[{e.second, e.first}]) { why = "edge load"; return 0; } }
  if (edlo) for (auto& e : w) if (e.second < 0) { why = "negative edge load"; return 0; }
  if (arcs != sum) { why = "edge number"; return 0; }
  return 1;
}
static Num badIndex(Rng& r, Num b, long n) { switch (r.below(5)) { case 0: return b - 1; case 1: return b + (Num)n; case 2: return SCOTCH_NUMMAX; case 3: return -SCOTCH_NUMMAX; default: return (Num)(b + n + r.below(100)); } }
static void graphCase(Rng& r) {
  LG g = genGraph(r, r.chance(0.8) ? 14 : 120); if (r.chance(0.6)) addWeights(r, g);
  if (g.n < 1) return; if (r.chance(0.3)) addLabels(r, g, 0);
  PG p; randomPG(r, p, g); Num b = p.base; long n = g.n, arcs = g.arcs();
  desc("%s base=%ld", showLG(g).c_str(), (long)b); feat("kind:" + g.kind);
  errClear(); CHECK(SCOTCH_graphCheck(p.gr) == 0 && g_errnbr == 0, "valid-refused", "valid graph refused: %s", g_err.c_str()); feat("graph:valid");
  bool cmp = p.vend.p == nullptr; Num* vert = p.vert.p; Num* vend = cmp ? p.vert.p + 1 : p.vend.p;
  for (int t = 0; t < 6; t++) {
    vector<Num> sv(vert, vert + p.vert.n), se = p.edge.vec(), sl = p.edlo.p ? p.edlo.vec() : vector<Num>(), sw = p.velo.p ? p.velo.vec() : vector<Num>(), sd = p.vend.p ? p.vend.vec() : vector<Num>();
    string what; long na = arcs; int muts = r.chance(0.8) ? 1 : 2; bool rebuild = false;
    for (int m = 0; m < muts; m++) {
      int k = (int)r.below(11); long v = r.below(n), q = p.edge.n ? r.below((long)p.edge.n) : 0;
      if (k <= 5 && p.edge.n == 0) k = 10;
      if (k == 6 && p.edlo.n == 0) k = 10;
      if (k == 7 && !p.velo.p) k = 10;
      switch (k) {
        case 0: p.edge[q] = badIndex(r, b, n); what += "edge-range "; break;
        case 1: { for (long u = 0; u < n; u++) if (vend[u] > vert[u] && (u == v || r.chance(0.3))) { p.edge[vert[u] - b + r.below(vend[u] - vert[u])] = (Num)u + b; break; } what += "loop "; break; }
        case 2: case 3: p.edge[q] = (Num)r.below(n) + b; what += "edge-other "; break;
        case 4: { if (vend[v] - vert[v] >= 2) { long x = vert[v] - b, d = vend[v] - vert[v], i = r.below(d), j = r.below(d); p.edge[x + i] = p.edge[x + j]; } what += "edge-copy "; break; }
        case 5: { if (vend[v] - vert[v] >= 2) { long x = vert[v] - b, d = vend[v] - vert[v], i = r.below(d), j = r.below(d); std::swap(p.edge[x + i], p.edge[x + j]); if (p.edlo.p && r.chance(0.7)) std::swap(p.edlo[x + i], p.edlo[x + j]); } what += "edge-swap "; break; }
        case 6: { long q2 = r.below((long)p.edlo.n); p.edlo[q2] = r.chance(0.7) ? p.edlo[q2] + 1 : r.chance(0.5) ? -p.edlo[q2] - 1 : p.edlo[r.below((long)p.edlo.n)]; if (p.edlo[q2] < -1000000) p.edlo[q2] = -3; what += "edge-load "; rebuild = true; break; }
        case 7: p.velo[v] = (Num)(r.chance(0.5) ? -1 : r.chance(0.5) ? -(long)p.velo[v] - 5 : p.velo[v] + 1); what += "vertex-load "; rebuild = true; break;
        case 8: { if (r.chance(0.5)) vert[v] = (Num)(r.chance(0.3) ? b - 1 - r.below(3) : vert[v] + r.range(-2, 2)); else vend[v] = (Num)(vend[v] + r.range(-2, 2)); what += "vertex-array "; m = muts; break; }
        case 9: na = arcs + r.range(-2, 2); if (na < 0) na = arcs + 2; what += "edge-number "; rebuild = true; break;
        default: na = arcs + 1; what += "odd-edge-number "; rebuild = true; break;
      }
    }
    string why; int ok = validRaw(n, b, vert, vend, p.edge.p, (long)p.edge.n, p.edlo.p, p.velo.p, na, why);
    // building a graph from arrays reads them: only done when the vertex arrays stay within their extents
    bool inside = true; for (long v = 0; v < n; v++) if (vert[v] < b || vend[v] < vert[v] || vend[v] - b > (long)p.edge.n) inside = false;
    if (ok >= 0) {
      SCOTCH_Graph* gr = p.gr; SCOTCH_Graph* ng = nullptr; int rc = 0; errClear();
      if (rebuild && !inside) ok = -1;
      else if (rebuild || (inside && (ok == 1 || r.chance(0.3)))) { ng = (SCOTCH_Graph*)malloc(SCOTCH_graphSizeof()); SCOTCH_graphInit(ng); rc = SCOTCH_graphBuild(ng, b, (Num)n, vert, vend, p.velo.p, p.vlbl.p, (Num)na, p.edge.p, p.edlo.p); gr = ng; feat("graph:built"); }
      else feat("graph:in-place");
      if (ok >= 0) {
        if (rc == 0) rc = SCOTCH_graphCheck(gr);
        if (!ng && ok == 1) { /* arrays changed behind the graph: recorded maximum degree and sums are still right for these mutations */ }
        if (ok == 1) { CHECK(rc == 0, "valid-refused", "valid graph refused after %s: %s", what.c_str(), g_err.c_str()); feat("graph:still-valid"); }
        else { CHECK(rc != 0, "invalid-accepted", "graph with invalid %s accepted (%s)", why.c_str(), what.c_str()); CHECK(g_errnbr > 0, "silent-refusal", "graph refused without a message"); feat("graph:invalid " + why); H.nontrivial++; }
      }
      if (ng) { SCOTCH_graphExit(ng); free(ng); }
    }
    memcpy(vert, sv.data(), sv.size() * sizeof(Num)); if (!se.empty()) memcpy(p.edge.p, se.data(), se.size() * sizeof(Num)); if (!sl.empty()) memcpy(p.edlo.p, sl.data(), sl.size() * sizeof(Num)); if (!sw.empty()) memcpy(p.velo.p, sw.data(), sw.size() * sizeof(Num)); if (!sd.empty()) memcpy(p.vend.p, sd.data(), sd.size() * sizeof(Num));
    sig(hash64(hashLG(g), hashStr(what)));
  }
  errClear(); CHECK(SCOTCH_graphCheck(p.gr) == 0, "valid-refused", "restored graph refused");
}
static int validMesh(const LM& m, Num b, Num ebas, Num nbas, const Num* vert, const Num* vend, const Num* edge, long esz, const Num* ew, const Num* nw, string& why) {
  long n = m.ne + m.nn; set<pair<long, long>> seen; auto isE = [&](long v) { return v + b >= ebas && v + b < ebas + m.ne; };
  for (long v = 0; v < n; v++) { if (vert[v] < b || vend[v] < vert[v]) { why = "vertex array"; return 0; } if (vend[v] - b > esz) return -1; }
  for (long v = 0; v < n; v++) for (long k = vert[v] - b; k < vend[v] - b; k++) { long u = (long)edge[k] - b; if (u < 0 || u >= n) { why = "range"; return 0; } if (isE(u) == isE(v)) { why = "same class"; return 0; } if (!seen.insert({v, u}).second) { why = "duplicate"; return 0; } }
  for (auto& e : seen) if (!seen.count({e.second, e.first})) { why = "asymmetric"; return 0; }
  for (long e = 0; ew && e < m.ne; e++) if (ew[e] < 1) { why = "element load"; return 0; }
  for (long e = 0; nw && e < m.nn; e++) if (nw[e] < 1) { why = "node load"; return 0; }
  (void)nbas; return 1;
}
static void meshCase(Rng& r) {
  LM m = genMesh(r, r.chance(0.8) ? 12 : 80); if (m.ne + m.nn == 0) return;
  PM p; randomPM(r, p, m); Num b = p.base; long n = m.ne + m.nn; desc("%s base=%ld", showLM(m).c_str(), (long)b);
  errClear(); CHECK(SCOTCH_meshCheck(p.me) == 0 && g_errnbr == 0, "valid-refused", "valid mesh refused: %s", g_err.c_str()); feat("mesh:valid");
  bool cmp = p.vend.p == nullptr; Num* vert = p.vert.p; Num* vend = cmp ? p.vert.p + 1 : p.vend.p;
  for (int t = 0; t < 5; t++) {
    vector<Num> sv = p.vert.vec(), se = p.edge.vec(), sd = p.vend.p ? p.vend.vec() : vector<Num>(), s1 = p.velo.p ? p.velo.vec() : vector<Num>(), s2 = p.vnlo.p ? p.vnlo.vec() : vector<Num>(); string what;
    int k = (int)r.below(7); long v = r.below(n); bool rebuild = r.chance(0.3);
    if (k <= 2 && p.edge.n == 0) k = 3;
    switch (k) {
      case 0: p.edge[r.below((long)p.edge.n)] = badIndex(r, b, n); what = "edge-range"; break;
      case 1: p.edge[r.below((long)p.edge.n)] = (Num)r.below(n) + b; what = "edge-other"; break;
      case 2: { for (int q = 0; q < 5; q++) { v = r.below(n); if (vend[v] - vert[v] >= 2) { long x = vert[v] - b, d = vend[v] - vert[v], i = r.below(d), j = r.below(d); if (r.chance(0.5)) p.edge[x + i] = p.edge[x + j]; else std::swap(p.edge[x + i], p.edge[x + j]); break; } } what = "edge-copy"; break; }
      case 3: if (r.chance(0.5)) vert[v] = (Num)(r.chance(0.3) ? b - 1 : vert[v] + r.range(-1, 1)); else vend[v] = (Num)(vend[v] + r.range(-1, 1)); what = "vertex-array"; break;
      case 4: if (p.velo.n) p.velo[r.below((long)p.velo.n)] = (Num)r.range(-2, 1); what = "element-load"; rebuild = true; break;
      case 5: if (p.vnlo.n) p.vnlo[r.below((long)p.vnlo.n)] = (Num)r.range(-2, 1); what = "node-load"; rebuild = true; break;
      default: { // an extra arc on one side only: shorten a list on the other
        if (vend[v] > vert[v] && !cmp) vend[v]--; what = "arc-lost"; break; }
    }
    string why; int ok = validMesh(m, b, p.ebas, p.nbas, vert, vend, p.edge.p, (long)p.edge.n, p.velo.p, p.vnlo.p, why);
    bool inside = true; for (long x = 0; x < n; x++) if (vert[x] < b || vend[x] < vert[x] || vend[x] - b > (long)p.edge.n) inside = false;
    if (!inside && rebuild) ok = -1;
    if (ok >= 0) {
      SCOTCH_Mesh* me = p.me; SCOTCH_Mesh* nm = nullptr; int rc = 0; errClear();
      if (rebuild) { nm = (SCOTCH_Mesh*)malloc(SCOTCH_meshSizeof()); SCOTCH_meshInit(nm); rc = SCOTCH_meshBuild(nm, p.ebas, p.nbas, (Num)m.ne, (Num)m.nn, vert, vend, p.velo.p, p.vnlo.p, p.vlbl.p, (Num)m.arcs(), p.edge.p); me = nm; feat("mesh:built"); } else feat("mesh:in-place");
      if (rc == 0) rc = SCOTCH_meshCheck(me);
      if (ok == 1) { CHECK(rc == 0, "valid-refused", "valid mesh refused after %s: %s", what.c_str(), g_err.c_str()); feat("mesh:still-valid"); }
      else { CHECK(rc != 0, "invalid-accepted", "mesh with invalid %s accepted (%s)", why.c_str(), what.c_str()); feat("mesh:invalid " + why); H.nontrivial++; }
      if (nm) { SCOTCH_meshExit(nm); free(nm); }
    }
    memcpy(vert, sv.data(), sv.size() * sizeof(Num)); if (!se.empty()) memcpy(p.edge.p, se.data(), se.size() * sizeof(Num)); if (!sd.empty()) memcpy(p.vend.p, sd.data(), sd.size() * sizeof(Num)); if (!s1.empty()) memcpy(p.velo.p, s1.data(), s1.size() * sizeof(Num)); if (!s2.empty()) memcpy(p.vnlo.p, s2.data(), s2.size() * sizeof(Num));
    sig(hash64(hashLM(m), hashStr(what)));
  }
}
static void orderCase(Rng& r) {
  LG g = genGraph(r, 60); if (g.n < 1) return; PG p; randomPG(r, p, g); Num b = p.base; StratH st; genOrdStratH(r, st);
  Buf perm, peri; perm.alloc(g.n); peri.alloc(g.n); Num cblk = 0; SCOTCH_Ordering* o = (SCOTCH_Ordering*)malloc(SCOTCH_orderSizeof());
  desc("%s base=%ld %s", showLG(g).c_str(), (long)b, st.txt.c_str());
  mustOk(SCOTCH_graphOrderInit(p.gr, o, perm.p, peri.p, &cblk, nullptr, nullptr), "graphOrderInit"); mustOk(SCOTCH_graphOrderCompute(p.gr, o, st.s), "graphOrderCompute"); mustOk(SCOTCH_graphOrderCheck(p.gr, o), "graphOrderCheck"); feat("order:valid");
  for (int t = 0; t < 5; t++) {
    auto s = peri.vec(); long i = r.below(g.n), j = r.below(g.n); switch (r.below(4)) { case 0: std::swap(peri[i], peri[j]); break; case 1: peri[i] = peri[j]; break; case 2: peri[i] = badIndex(r, b, g.n); break; default: peri[i] = (Num)r.below(g.n) + b; }
    vector<char> seen(g.n, 0); bool ok = true; for (long k = 0; k < g.n; k++) { long x = (long)peri[k] - b; if (x < 0 || x >= g.n || seen[x]) { ok = false; break; } seen[x] = 1; }
    errClear(); int rc = SCOTCH_graphOrderCheck(p.gr, o);
    if (ok) { CHECK(rc == 0, "valid-refused", "permutation refused: %s", g_err.c_str()); feat("order:still-valid"); } else { CHECK(rc != 0, "invalid-accepted", "non-permutation accepted"); feat("order:invalid"); H.nontrivial++; }
    memcpy(peri.p, s.data(), s.size() * sizeof(Num)); sig(hash64(hashLG(g), hash64(t, i)));
  }
  SCOTCH_graphOrderExit(p.gr, o); free(o);
}
static void runCase(long n, Rng& r) { int k = (int)(n % 5); if (k < 3) graphCase(r); else if (k == 3) meshCase(r); else orderCase(r); }
