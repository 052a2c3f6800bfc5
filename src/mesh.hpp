// Meshes: logical form, random generators, physical layouts bound to a SCOTCH_Mesh.
#pragma once
#include "common.hpp"

struct LM {
  long ne = 0, nn = 0; vector<vector<int>> en, nenum;    // nodes of each element, elements of each node
  vector<Num> ew, nw, lbl; string kind;
  long arcs() const { long a = 0; for (auto& v : en) a += 2 * (long)v.size(); return a; }
  void finish() { nenum.assign(nn, {}); for (long e = 0; e < ne; e++) for (int n : en[e]) nenum[n].push_back((int)e); }
  long degmax() const { size_t d = 0; for (auto& v : en) d = std::max(d, v.size()); for (auto& v : nenum) d = std::max(d, v.size()); return (long)d; }
};
static LM genMesh(Rng& r, long nmax, int force = -1) {
  LM m; int k = force >= 0 ? force : (int)r.below(9);
  long s = std::max(1L, r.range(1, std::max(1L, nmax)));
  auto add = [&](std::initializer_list<long> l) { vector<int> v; for (long x : l) v.push_back((int)x); m.en.push_back(v); };
  switch (k) {
    case 0: case 1: { long x = std::max(1L, (long)std::sqrt((double)s)), y = std::max(1L, s / x); m.kind = "quad"; m.nn = (x + 1) * (y + 1); for (long i = 0; i < x; i++) for (long j = 0; j < y; j++) { long o = i * (y + 1) + j; add({o, o + 1, o + y + 1, o + y + 2}); } break; }
    case 2: { long x = std::max(1L, (long)std::sqrt((double)s / 2)), y = x; m.kind = "tri"; m.nn = (x + 1) * (y + 1); for (long i = 0; i < x; i++) for (long j = 0; j < y; j++) { long o = i * (y + 1) + j; add({o, o + 1, o + y + 1}); add({o + 1, o + y + 1, o + y + 2}); } break; }
    case 3: { long x = std::max(1L, (long)std::cbrt((double)s)), y = x, z = x; m.kind = "hexa"; m.nn = (x + 1) * (y + 1) * (z + 1); for (long i = 0; i < x; i++) for (long j = 0; j < y; j++) for (long l = 0; l < z; l++) { auto id = [&](long a, long b, long c) { return (a * (y + 1) + b) * (z + 1) + c; }; add({id(i, j, l), id(i + 1, j, l), id(i, j + 1, l), id(i + 1, j + 1, l), id(i, j, l + 1), id(i + 1, j, l + 1), id(i, j + 1, l + 1), id(i + 1, j + 1, l + 1)}); } break; }
    case 4: { m.kind = "bars"; m.nn = s + 1; for (long i = 0; i < s; i++) add({i, i + 1}); break; }
    case 5: case 6: { m.kind = "random"; m.nn = r.range(1, std::max(1L, s)); long ne = r.range(1, std::max(1L, s)); for (long e = 0; e < ne; e++) { set<int> t; long d = r.range(r.chance(0.1) ? 0 : 1, std::min(m.nn, 6L)); for (long i = 0; i < d; i++) t.insert((int)r.below(m.nn)); m.en.push_back(vector<int>(t.begin(), t.end())); } break; }
    case 7: { m.kind = "mixed"; m.nn = std::max(4L, s); long o = 0; while (o + 1 < m.nn) { long d = std::min(m.nn - o, r.range(2, 6)); vector<int> v; for (long i = 0; i < d; i++) v.push_back((int)(o + i)); m.en.push_back(v); o += std::max(1L, d - r.range(1, 2)); } break; }
    default: { m.kind = "tiny"; m.nn = r.range(1, 3); long ne = r.range(1, 3); for (long e = 0; e < ne; e++) { vector<int> v; for (long i = 0; i < m.nn; i++) if (r.chance(0.7)) v.push_back((int)i); m.en.push_back(v); } break; }
  }
  m.ne = (long)m.en.size();
  if (r.chance(0.5)) {                                   // renumber
    vector<int> p(m.nn); std::iota(p.begin(), p.end(), 0); r.shuffle(p); for (auto& v : m.en) { for (auto& x : v) x = p[x]; r.shuffle(v); } r.shuffle(m.en);
  }
  m.finish();
  if (r.chance(0.4)) { m.nw.resize(m.nn); for (auto& w : m.nw) w = (Num)r.range(1, 9); }
  if (r.chance(0.4)) { m.ew.resize(m.ne); for (auto& w : m.ew) w = (Num)r.range(1, 9); }
  return m;
}
static string showLM(const LM& m) { return fmt("mesh %s e=%ld n=%ld arcs=%ld%s%s%s", m.kind.c_str(), m.ne, m.nn, m.arcs(), m.ew.empty() ? "" : " ew", m.nw.empty() ? "" : " nw", m.lbl.empty() ? "" : " lbl"); }
static u64 hashLM(const LM& m) { u64 h = hash64(m.ne, m.nn); for (auto& v : m.en) { h = hash64(h, v.size()); for (int x : v) h = hash64(h, x); } return h; }

struct PM {
  const LM* m = nullptr; Num base = 0, ebas = 0, nbas = 0;
  Buf vert, vend, velo, vnlo, vlbl, edge; SCOTCH_Mesh* me = nullptr;
  PM() {}
  PM(const PM&) = delete;
  ~PM() { if (me) { SCOTCH_meshExit(me); free(me); } }
  void layout(Rng& r, const LM& lm, Num b, bool efirst, bool cmp) {
    m = &lm; base = b; ebas = efirst ? b : b + (Num)lm.nn; nbas = efirst ? b + (Num)lm.ne : b;
    long n = lm.ne + lm.nn; vector<Num> vt(n + 1), ve(n), eg;
    auto put = [&](long v) {                             // v: un-based vertex index
      vt[v] = b + (Num)eg.size(); Num g = (Num)v + b;
      if (g >= ebas && g < ebas + lm.ne) for (int x : lm.en[g - ebas]) eg.push_back(nbas + x); else for (int x : lm.nenum[g - nbas]) eg.push_back(ebas + x);
      ve[v] = b + (Num)eg.size(); };
    if (cmp) { for (long v = 0; v < n; v++) put(v); vt[n] = b + (Num)eg.size(); }
    else { vector<long> o(n); std::iota(o.begin(), o.end(), 0); r.shuffle(o); for (long v : o) { while (r.chance(0.2)) eg.push_back(-55555); put(v); } vt.resize(n); }
    vert.set(vt); if (!cmp) vend.set(ve); edge.set(eg);
    if (!lm.ew.empty()) velo.set(lm.ew);
    if (!lm.nw.empty()) vnlo.set(lm.nw);
    if (!lm.lbl.empty()) vlbl.set(lm.lbl);
  }
  void build() {
    me = (SCOTCH_Mesh*)malloc(SCOTCH_meshSizeof()); mustOk(SCOTCH_meshInit(me), "meshInit");
    mustOk(SCOTCH_meshBuild(me, ebas, nbas, (Num)m->ne, (Num)m->nn, vert.p, vend.p ? vend.p : vert.p + 1, velo.p, vnlo.p, vlbl.p, (Num)m->arcs(), edge.p), "meshBuild");
  }
  void save() { vert.save(); vend.save(); velo.save(); vnlo.save(); vlbl.save(); edge.save(); }
  void checkUntouched(const char* w) { CHECK(vert.same() && vend.same() && velo.same() && vnlo.same() && vlbl.same() && edge.same(), "user-mesh-modified", "%s modified caller's mesh arrays", w); }
};
static void randomPM(Rng& r, PM& p, const LM& m) {
  bool c = r.chance(0.6), ef = r.chance(0.5); p.layout(r, m, (Num)r.below(2), ef, c); p.build(); p.save();
  feat(c ? "mlayout:compact" : "mlayout:gaps"); feat(ef ? "melems:first" : "melems:last");
}
// Read a library mesh back (nodes of each element sorted).
static LM readMesh(const SCOTCH_Mesh* me, Num* eb = nullptr, Num* nb = nullptr) {
  Num ebas, nbas, ne, nn, en, dg, *vt, *ve, *vl, *nl, *lb, *et;
  SCOTCH_meshData(me, &ebas, &nbas, &ne, &nn, &vt, &ve, &vl, &nl, &lb, &en, &et, &dg);
  Num base = std::min(ebas, nbas); LM m; m.ne = ne; m.nn = nn; m.en.resize(ne); if (eb) *eb = ebas; if (nb) *nb = nbas;
  long arcs = 0; vector<vector<int>> back(nn);
  for (long e = 0; e < ne; e++) { long v = ebas - base + e; for (Num k = vt[v]; k < ve[v]; k++) { m.en[e].push_back((int)(et[k - base] - nbas)); arcs++; } std::sort(m.en[e].begin(), m.en[e].end()); }
  for (long n = 0; n < nn; n++) { long v = nbas - base + n; for (Num k = vt[v]; k < ve[v]; k++) { back[n].push_back((int)(et[k - base] - ebas)); arcs++; } std::sort(back[n].begin(), back[n].end()); }
  CHECK(arcs == en, "mesh-edgenbr", "edge number %ld, arcs %ld", (long)en, arcs);
  for (auto& v : m.en) for (int x : v) CHECK(x >= 0 && x < nn, "mesh-range", "node %d out of range", x);
  m.finish(); for (auto& v : m.nenum) std::sort(v.begin(), v.end());
  CHECK(m.nenum == back, "mesh-asym", "node adjacency does not match element adjacency");
  CHECK(dg >= m.degmax(), "mesh-degrmax", "maximum degree %ld below %ld", (long)dg, m.degmax());
  if (vl) m.ew.assign(vl, vl + ne);
  if (nl) m.nw.assign(nl, nl + nn);
  if (lb) m.lbl.assign(lb, lb + ne + nn);
  return m;
}
static bool sameMesh(const LM& a, const LM& b) { if (a.ne != b.ne || a.nn != b.nn) return false; for (long e = 0; e < a.ne; e++) { auto x = a.en[e], y = b.en[e]; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x != y) return false; } return true; }
