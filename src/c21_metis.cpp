// C21: the METIS-compatible libraries (v3 and v5 interfaces; one executable per version of the unprefixed names).
#include "mesh.hpp"
#include <cmath>
typedef const Num* CN;
extern "C" {
int SCOTCH_METIS_V3_EdgeND(CN, CN, CN, CN, CN, Num*, Num*); int SCOTCH_METIS_V3_NodeND(CN, CN, CN, CN, CN, Num*, Num*); int SCOTCH_METIS_V3_NodeWND(CN, CN, CN, CN, CN, CN, Num*, Num*);
int SCOTCH_METIS_V5_NodeND(CN, CN, CN, CN, CN, Num*, Num*);
int SCOTCH_METIS_V3_PartGraphKway(CN, CN, CN, CN, CN, CN, CN, CN, CN, Num*, Num*); int SCOTCH_METIS_V3_PartGraphRecursive(CN, CN, CN, CN, CN, CN, CN, CN, CN, Num*, Num*); int SCOTCH_METIS_V3_PartGraphVKway(CN, CN, CN, CN, CN, CN, CN, CN, CN, Num*, Num*);
int SCOTCH_METIS_V5_PartGraphKway(CN, CN, CN, CN, CN, CN, CN, CN, const double*, const double*, CN, Num*, Num*); int SCOTCH_METIS_V5_PartGraphRecursive(CN, CN, CN, CN, CN, CN, CN, CN, const double*, const double*, CN, Num*, Num*);
int SCOTCH_METIS_MeshToDual(CN, CN, CN, CN, CN, CN, Num**, Num**); int SCOTCH_METIS_PartMeshDual(CN, CN, CN, CN, CN, CN, CN, CN, const double*, CN, Num*, Num*, Num*); int SCOTCH_METIS_SetDefaultOptions(Num*);
int METIS_MeshToDual(CN, CN, CN, CN, CN, CN, Num**, Num**); int METIS_PartMeshDual(CN, CN, CN, CN, CN, CN, CN, CN, const double*, CN, Num*, Num*, Num*); int METIS_SetDefaultOptions(Num*);
#if MV == 3
int METIS_EdgeND(CN, CN, CN, CN, CN, Num*, Num*); int METIS_NodeND(CN, CN, CN, CN, CN, Num*, Num*); int METIS_NodeWND(CN, CN, CN, CN, CN, CN, Num*, Num*);
int METIS_PartGraphKway(CN, CN, CN, CN, CN, CN, CN, CN, CN, Num*, Num*); int METIS_PartGraphRecursive(CN, CN, CN, CN, CN, CN, CN, CN, CN, Num*, Num*); int METIS_PartGraphVKway(CN, CN, CN, CN, CN, CN, CN, CN, CN, Num*, Num*);
#else
int METIS_NodeND(CN, CN, CN, CN, CN, Num*, Num*);
int METIS_PartGraphKway(CN, CN, CN, CN, CN, CN, CN, CN, const double*, const double*, CN, Num*, Num*); int METIS_PartGraphRecursive(CN, CN, CN, CN, CN, CN, CN, CN, const double*, const double*, CN, Num*, Num*);
#endif
}
enum { OBJTYPE = 1, NUMBERING = 17, NOPT = 40, OK = 1 };

struct In {                                               // an input array, compared with its copy after the call
  vector<Num> c; Buf b; bool on = false;
  void set(const vector<Num>& v) { c = v; b.alloc((long)v.size()); for (size_t i = 0; i < v.size(); i++) b.p[i] = v[i]; on = true; }
  CN p() const { return on ? b.p : nullptr; }
  void same(const char* w) const { if (on) for (size_t i = 0; i < c.size(); i++) CHECK(b.p[i] == c[i], "input-changed", "%s[%zu] changed from %ld to %ld", w, i, (long)c[i], (long)b.p[i]); }
};
struct CSR { In xadj, adj, ew, vw, vs; };
static void csr(const LG& g, Num base, CSR& c, bool ew) {
  vector<Num> x, a, w; x.push_back(base); for (auto& v : g.adj) { for (auto& e : v) { a.push_back((Num)e.first + base); w.push_back(e.second); } x.push_back((Num)a.size() + base); }
  c.xadj.set(x); c.adj.set(a); if (ew) c.ew.set(w);
}
static long long cutOf(const LG& g, const Num* p, bool weighted) { long long s = 0; for (long v = 0; v < g.n; v++) for (auto& e : g.adj[v]) if (p[v] != p[e.first]) s += weighted ? e.second : 1; return s / 2; }
static long long volOf(const LG& g, const Num* p, const vector<Num>& vs) { long long s = 0; for (long v = 0; v < g.n; v++) { set<Num> q; for (auto& e : g.adj[v]) if (p[e.first] != p[v]) q.insert(p[e.first]); s += (long long)q.size() * (vs.empty() ? 1 : vs[v]); } return s; }
static void parts(const LG& g, const Num* p, Num base, Num k) { for (long v = 0; v < g.n; v++) CHECK(p[v] >= base && p[v] < base + k, "part-range", "vertex %ld is in part %ld, outside [%ld,%ld)", v, (long)p[v], (long)base, (long)(base + k)); }
static void called(int rc, const char* f) { CHECK(g_errnbr == 0, "error", "%s reported an error: %s", f, g_err.c_str()); CHECK(rc == OK, "return", "%s returned %d instead of METIS_OK", f, rc); feat(string("call:") + f); }

// Shares of the target parts, from a choice of shapes; always summing to one.
static vector<double> shares(Rng& r, long k) {
  vector<long> w(k); int t = (int)r.below(5); long s = 0;
  for (auto& x : w) x = t == 0 ? 1 : t == 1 ? r.range(1, 3) : t == 2 ? r.range(1, 10) : t == 3 ? r.range(10, 100) : (r.chance(0.5) ? 1 : 2);
  for (long x : w) s += x;
  vector<double> d; for (long x : w) d.push_back((double)x / (double)s);
  feat(fmt("shares:%d", t)); return d;
}
// Balance, on large meshes with unit weights, whose parts hold many vertices.
static void balance(const LG& g, const Num* p, Num base, Num k, const vector<double>& tw, double tol, const char* f) {
  vector<long> c(k, 0); for (long v = 0; v < g.n; v++) c[p[v] - base]++;
  for (long q = 0; q < k; q++) {
    double share = (double)g.n * (tw.empty() ? 1.0 / (double)k : tw[q]);
    if (share < 30) continue;
    feat("balance"); double bnd = share * (1.1 + 1.5 * tol) + 3, low = share * (0.88 - 1.5 * tol) - 3;
    CHECK((double)c[q] <= bnd, "balance", "%s: part %ld has %ld vertices of %ld, its share being %.1f", f, q, c[q], g.n, share);
    CHECK((double)c[q] >= low, "balance-low", "%s: part %ld has %ld vertices of %ld, its share being %.1f", f, q, c[q], g.n, share);
  }
}
static void caseOrder(Rng& r) {
  LG g = genGraph(r, r.chance(0.7) ? 60 : 400); int thr = pickThreads(r); Num base = (Num)r.below(2); bool wgt = r.chance(0.5); CSR c; csr(g, base, c, false);
  if (wgt) { vector<Num> w(g.n); for (auto& x : w) x = (Num)r.range(1, 9); c.vw.set(w); }
  Num n = (Num)g.n; Buf perm, iperm; perm.alloc(n); iperm.alloc(n); In opt; { vector<Num> o(NOPT, 0); o[NUMBERING] = base; opt.set(o); }
  bool noopt = base == 0 && r.chance(0.5); CN op = noopt ? nullptr : opt.p(); int f = (int)r.below(6); const char* nm = "?"; int rc = 0; In N, B; N.set({n}); B.set({base});
  desc("order f=%d base=%ld wgt=%d thr=%d %s", f, (long)base, (int)wgt, thr, showLG(g).c_str()); errClear();
  In o3; o3.set(vector<Num>(8, 0));
  switch (f) {
    case 0: nm = "V3_EdgeND"; rc = SCOTCH_METIS_V3_EdgeND(N.p(), c.xadj.p(), c.adj.p(), B.p(), o3.p(), perm.p, iperm.p); break;
    case 1: nm = "V3_NodeND"; rc = SCOTCH_METIS_V3_NodeND(N.p(), c.xadj.p(), c.adj.p(), B.p(), o3.p(), perm.p, iperm.p); break;
    case 2: nm = "V3_NodeWND"; rc = SCOTCH_METIS_V3_NodeWND(N.p(), c.xadj.p(), c.adj.p(), c.vw.p(), B.p(), o3.p(), perm.p, iperm.p); break;
    case 3: nm = "V5_NodeND"; rc = SCOTCH_METIS_V5_NodeND(N.p(), c.xadj.p(), c.adj.p(), c.vw.p(), op, perm.p, iperm.p); break;
#if MV == 3
    case 4: if (r.chance(0.5)) { nm = "v3EdgeND"; rc = METIS_EdgeND(N.p(), c.xadj.p(), c.adj.p(), B.p(), o3.p(), perm.p, iperm.p); } else { nm = "v3NodeND"; rc = METIS_NodeND(N.p(), c.xadj.p(), c.adj.p(), B.p(), o3.p(), perm.p, iperm.p); } break;
    default: nm = "v3NodeWND"; rc = METIS_NodeWND(N.p(), c.xadj.p(), c.adj.p(), c.vw.p(), B.p(), o3.p(), perm.p, iperm.p); break;
#else
    default: nm = "v5NodeND"; rc = METIS_NodeND(N.p(), c.xadj.p(), c.adj.p(), c.vw.p(), op, perm.p, iperm.p); break;
#endif
  }
  called(rc, nm); feat(fmt("base:%ld", (long)base));
  vector<char> seen(n, 0); for (Num i = 0; i < n; i++) { Num x = perm.p[i] - base; CHECK(x >= 0 && x < n, "perm-range", "%s: perm[%ld]=%ld", nm, (long)i, (long)perm.p[i]); CHECK(!seen[x], "perm-twice", "%s: perm holds %ld twice", nm, (long)perm.p[i]); seen[x] = 1; CHECK(iperm.p[x] == i + base, "iperm", "%s: iperm[perm[%ld]]=%ld", nm, (long)i, (long)iperm.p[x]); }
  c.xadj.same("xadj"); c.adj.same("adjncy"); c.vw.same("vwgt"); opt.same("options"); o3.same("options"); N.same("n"); B.same("numflag");
  // METIS' perm: row i of the reordered matrix is row perm[i]; on trees and big grids, the fill of that reading must be small (the other reading would give a scrambled elimination order).
  if (g.n >= 200 && (g.kind.find("grid") == 0 || g.kind == "tree" || g.kind == "path")) {
    auto fill = [&](const Num* ord) { vector<long> rank(n); for (Num i = 0; i < n; i++) rank[ord[i] - base] = i; vector<set<long>> s(n); for (long v = 0; v < n; v++) for (auto& e : g.adj[v]) if (rank[e.first] > rank[v]) s[rank[v]].insert(rank[e.first]); long long z = 0; for (long i = 0; i < n; i++) { z += (long long)s[i].size(); if (s[i].empty()) continue; long p = *s[i].begin(); for (long x : s[i]) if (x != p) s[p].insert(x); if (z > 200LL * n) break; } return z; };
    long long a = fill(perm.p); feat("fill"); CHECK(a <= (long long)(8.0 * (double)n * std::log2((double)n)), "fill", "%s: the order given by perm has %lld factor entries for %ld vertices", nm, a, g.n);
  }
  if (n > 3) H.nontrivial++;
  sig(hash64(hashLG(g), f * 2 + base));
}
static void casePart(Rng& r) {
  bool big = r.chance(0.25); LG g = big ? genGraph(r, r.range(300, 900), 5) : genGraph(r, r.chance(0.7) ? 60 : 300); int thr = pickThreads(r); Num base = (Num)r.below(2), k = (Num)(big ? r.range(2, 8) : r.range(1, r.chance(0.8) ? 9 : 40));
  bool plain = big && r.chance(0.8); bool ew = !plain && r.chance(0.5), vw = !plain && r.chance(0.5), vs = r.chance(plain ? 0.2 : 0.4);
  if (ew) { map<pair<int, int>, Num> w; for (long v = 0; v < g.n; v++) for (auto& e : g.adj[v]) { std::pair<int, int> q{std::min((int)v, e.first), std::max((int)v, e.first)}; auto it = w.find(q); if (it == w.end()) it = w.insert({q, (Num)r.range(1, 20)}).first; e.second = it->second; } g.edlo = true; }
  CSR c; csr(g, base, c, ew); vector<Num> vsz; if (vw) { vector<Num> w(g.n); for (auto& x : w) x = (Num)r.range(1, 9); c.vw.set(w); } if (vs) { vsz.resize(g.n); for (auto& x : vsz) x = (Num)r.range(r.chance(0.05) ? 0 : 1, 9); for (auto& x : vsz) if (x < 1) x = 1; c.vs.set(vsz); }
  Num n = (Num)g.n, obj = -77; Buf part; part.alloc(n); In N, B, K, opt, wf, nc; N.set({n}); B.set({base}); K.set({k}); nc.set({1}); { vector<Num> o(NOPT, 0); o[NUMBERING] = base; opt.set(o); }
  bool objvol = r.chance(0.3); if (objvol) opt.b.p[OBJTYPE] = opt.c[OBJTYPE] = 1;
  CN op = opt.p(); if (base == 0 && r.chance(0.4)) { op = nullptr; objvol = false; }
  int f = (int)r.below(7); int fl = (int)r.below(5); if (fl < 4) wf.set({(Num)fl}); bool rec = false, v5 = false, vol = false;
  vector<double> tw; double tol = 0.01, ub[1]; const double* ubp = nullptr; vector<double> tw0; const char* nm = "?"; int rc = 0; errClear(); In o3; o3.set(vector<Num>(8, 0));
  if (f == 3 || f == 4 || (f >= 5 && MV == 5)) {
    v5 = true; if (r.chance(0.4) && k > 0) { tw = shares(r, k); tw0 = tw; } if (r.chance(0.5)) { tol = r.pick(vector<double>{0.01, 0.03, 0.05, 0.1}); ub[0] = tol; ubp = ub; }
  }
  const double* twp = tw.empty() ? nullptr : tw.data();
  desc("part f=%d base=%ld k=%ld ew=%d vw=%d vs=%d fl=%d objvol=%d tw=%d ub=%d thr=%d %s", f, (long)base, (long)k, (int)ew, (int)vw, (int)vs, fl, (int)objvol, (int)!tw.empty(), ubp != 0, thr, showLG(g).c_str());
  bool useE = ew, useS = vs;
#define V3ARGS N.p(), c.xadj.p(), c.adj.p(), c.vw.p(), c.ew.p(), wf.p(), B.p(), K.p(), o3.p(), &obj, part.p
#define V3VARG N.p(), c.xadj.p(), c.adj.p(), c.vw.p(), c.vs.p(), wf.p(), B.p(), K.p(), o3.p(), &obj, part.p
#define V5ARGS N.p(), nc.p(), c.xadj.p(), c.adj.p(), c.vw.p(), c.vs.p(), c.ew.p(), K.p(), twp, ubp, op, &obj, part.p
  switch (f) {
    case 0: nm = "V3_PartGraphKway"; rc = SCOTCH_METIS_V3_PartGraphKway(V3ARGS); break;
    case 1: nm = "V3_PartGraphRecursive"; rec = true; rc = SCOTCH_METIS_V3_PartGraphRecursive(V3ARGS); break;
    case 2: nm = "V3_PartGraphVKway"; vol = true; rc = SCOTCH_METIS_V3_PartGraphVKway(V3VARG); break;
    case 3: nm = "V5_PartGraphKway"; rc = SCOTCH_METIS_V5_PartGraphKway(V5ARGS); break;
    case 4: nm = "V5_PartGraphRecursive"; rec = true; rc = SCOTCH_METIS_V5_PartGraphRecursive(V5ARGS); break;
#if MV == 3
    case 5: if (r.chance(0.5)) { nm = "v3PartGraphKway"; rc = METIS_PartGraphKway(V3ARGS); } else { nm = "v3PartGraphRecursive"; rec = true; rc = METIS_PartGraphRecursive(V3ARGS); } break;
    default: nm = "v3PartGraphVKway"; vol = true; rc = METIS_PartGraphVKway(V3VARG); break;
#else
    case 5: nm = "v5PartGraphKway"; rc = METIS_PartGraphKway(V5ARGS); break;
    default: nm = "v5PartGraphRecursive"; rec = true; rc = METIS_PartGraphRecursive(V5ARGS); break;
#endif
  }
  (void)rec;
  if (v5) vol = vs || objvol;
  else { if (fl < 4) { useE = ew && (fl & 1); useS = vs && (fl & 1); } feat(fmt("wgtflag:%d", fl)); }
  called(rc, nm); feat(fmt("base:%ld", (long)base)); parts(g, part.p, base, k);
  long long want = vol ? volOf(g, part.p, useS ? vsz : vector<Num>()) : cutOf(g, part.p, useE);
  feat(vol ? "obj:volume" : "obj:cut"); CHECK((long long)obj == want, "objective", "%s: the %s of the returned partition is %lld and %ld is reported", nm, vol ? "volume" : "cut", want, (long)obj);
  c.xadj.same("xadj"); c.adj.same("adjncy"); c.vw.same("vwgt"); c.ew.same("adjwgt"); c.vs.same("vsize"); opt.same("options"); o3.same("options"); N.same("n"); K.same("nparts"); wf.same("wgtflag"); nc.same("ncon"); CHECK(tw == tw0, "input-changed", "tpwgts changed"); if (ubp) CHECK(ub[0] == tol, "input-changed", "ubvec changed");
  if (big && g.kind.find("grid") == 0 && !(vw && (v5 || fl >= 2))) balance(g, part.p, base, k, tw, tol, nm);
  if (big && plain && tw.empty() && !vs && k > 1) { feat("cut-bound"); long long cut = cutOf(g, part.p, false); double b = 6.0 * std::sqrt((double)g.n) * (double)k; CHECK((double)cut <= b, "cut-quality", "%s: cut %lld for %ld vertices of a mesh in %ld parts", nm, cut, g.n, (long)k); }
  if (k > 1 && g.n > 3) H.nontrivial++;
  sig(hash64(hashLG(g), f * 100 + k));
}
static void caseMesh(Rng& r) {
  bool big = r.chance(0.15); LM m = genMesh(r, big ? r.range(300, 700) : r.chance(0.7) ? 40 : 150, big ? 0 : -1); int thr = pickThreads(r);
  Num base = (Num)r.below(2), ne = (Num)m.ne, nn = (Num)m.nn, ncom = (Num)r.range(1, 4), k = (Num)r.range(1, r.chance(0.8) ? 8 : 30); if (big) k = (Num)r.range(2, 6);
  if (r.chance(0.1)) { nn += (Num)r.range(1, 3); m.nn = nn; m.finish(); }   // nodes that no element uses
  In NE, NN, eptr, eind, NC, B, K, vw, vsz; NE.set({ne}); NN.set({nn}); NC.set({ncom}); B.set({base}); K.set({k}); { vector<Num> x, a; x.push_back(base); for (auto& e : m.en) { for (int v : e) a.push_back(v + base); x.push_back((Num)a.size() + base); } eptr.set(x); eind.set(a); }
  vector<set<int>> hard(ne), soft(ne); vector<map<int, int>> sh(ne); for (long v = 0; v < m.nn; v++) for (int a : m.nenum[v]) for (int b : m.nenum[v]) if (a != b) sh[a][b]++;
  for (long e = 0; e < ne; e++) for (auto& x : sh[e]) if (x.second >= std::min({(long)ncom, (long)m.en[e].size() - 1, (long)m.en[x.first].size() - 1})) { soft[e].insert(x.first); if (x.second >= ncom) hard[e].insert(x.first); }
  desc("mesh base=%ld ncom=%ld k=%ld thr=%d %s", (long)base, (long)ncom, (long)k, thr, showLM(m).c_str()); feat("mkind:" + m.kind); feat(fmt("base:%ld", (long)base)); errClear();
  Num *xa = nullptr, *ad = nullptr; bool un = r.chance(0.5);
  called(un ? METIS_MeshToDual(NE.p(), NN.p(), eptr.p(), eind.p(), NC.p(), B.p(), &xa, &ad) : SCOTCH_METIS_MeshToDual(NE.p(), NN.p(), eptr.p(), eind.p(), NC.p(), B.p(), &xa, &ad), un ? "MeshToDual" : "V_MeshToDual");
  struct FR { Num *&a, *&b; ~FR() { free(a); free(b); } } fr{xa, ad};
  CHECK(xa && ad, "dual-null", "no arrays returned"); CHECK(xa[0] == base, "dual-base", "xadj[0]=%ld", (long)xa[0]); LG g; g.n = ne; g.adj.resize(ne); long long arcs = 0;
  for (long e = 0; e < ne; e++) {
    CHECK(xa[e + 1] >= xa[e], "dual-xadj", "xadj decreases at %ld", e); set<int> s;
    for (Num j = xa[e]; j < xa[e + 1]; j++) { Num w = ad[j - base] - base; CHECK(w >= 0 && w < ne, "dual-range", "neighbour %ld of element %ld", (long)w, e); CHECK(s.insert((int)w).second, "dual-twice", "edge %ld-%ld twice", e, (long)w); CHECK(soft[e].count((int)w), "dual-extra", "elements %ld and %ld share %d nodes and are neighbours (ncommon %ld)", e, (long)w, sh[e].count((int)w) ? sh[e][(int)w] : 0, (long)ncom); g.adj[e].push_back({(int)w, 1}); arcs++; }
    for (int w : soft[e]) CHECK(s.count(w), "dual-missing", "elements %ld and %d share %d nodes and are not neighbours (ncommon %ld)", e, w, sh[e][w], (long)ncom);
  }
  eptr.same("eptr"); eind.same("eind");
  // partition of the dual graph
  vector<Num> vs; bool useVs = r.chance(0.3), useVw = !big && r.chance(0.4); if (useVs) { vs.resize(ne); for (auto& x : vs) x = (Num)r.range(1, 9); vsz.set(vs); } if (useVw) { vector<Num> w(ne); for (auto& x : w) x = (Num)r.range(1, 9); vw.set(w); }
  vector<double> tw, tw0; if (r.chance(0.4)) { tw = shares(r, k); tw0 = tw; } In opt; bool objvol = r.chance(0.3); { vector<Num> o(NOPT, 7); Num t[NOPT]; called(un ? METIS_SetDefaultOptions(t) : SCOTCH_METIS_SetDefaultOptions(t), "SetDefaultOptions"); for (int i = 0; i < NOPT; i++) { CHECK(t[i] == 0, "options", "default option %d is %ld", i, (long)t[i]); o[i] = t[i]; } o[NUMBERING] = base; if (objvol) o[OBJTYPE] = 1; opt.set(o); }
  CN op = opt.p(); if (base == 0 && r.chance(0.4)) { op = nullptr; objvol = false; }
  Buf ep, np; ep.alloc(ne); np.alloc(nn); Num obj = -77; errClear();
  int rc = un ? METIS_PartMeshDual(NE.p(), NN.p(), eptr.p(), eind.p(), vw.p(), vsz.p(), NC.p(), K.p(), tw.empty() ? 0 : tw.data(), op, &obj, ep.p, np.p) : SCOTCH_METIS_PartMeshDual(NE.p(), NN.p(), eptr.p(), eind.p(), vw.p(), vsz.p(), NC.p(), K.p(), tw.empty() ? 0 : tw.data(), op, &obj, ep.p, np.p);
  called(rc, un ? "PartMeshDual" : "V_PartMeshDual"); parts(g, ep.p, base, k); bool vol = useVs || objvol; long long want = vol ? volOf(g, ep.p, vs) : cutOf(g, ep.p, false); feat(vol ? "obj:volume" : "obj:cut");
  CHECK((long long)obj == want, "objective", "PartMeshDual: the %s of the returned partition is %lld and %ld is reported", vol ? "volume" : "cut", want, (long)obj);
  for (long v = 0; v < nn; v++) { CHECK(np.p[v] >= base && np.p[v] < base + k, "node-part", "node %ld is in part %ld, outside [%ld,%ld)", v, (long)np.p[v], (long)base, (long)(base + k)); bool ok = v >= m.nn || m.nenum[v].empty(); for (int e : m.nenum[v]) ok |= ep.p[e] == np.p[v]; CHECK(ok, "node-part", "node %ld is in part %ld, which holds none of its elements", v, (long)np.p[v]); }
  eptr.same("eptr"); eind.same("eind"); vw.same("vwgt"); vsz.same("vsize"); opt.same("options"); NE.same("ne"); NN.same("nn"); NC.same("ncommon"); K.same("nparts"); CHECK(tw == tw0, "input-changed", "tpwgts changed");
  if (big && ncom <= 2) balance(g, ep.p, base, k, tw, 0.05, "PartMeshDual");
  if (arcs > 0 && k > 1) H.nontrivial++;
  sig(hash64(hashLM(m), ncom * 100 + k));
}
static void caseErrors(Rng& r) {                          // refusals: invalid indices and shares; the outputs say so
  LM m = genMesh(r, 20); if (m.ne < 1 || m.arcs() < 1) return; Num base = (Num)r.below(2), ne = (Num)m.ne, nn = (Num)m.nn, ncom = 1, k = 2; vector<Num> x, a; x.push_back(base); for (auto& e : m.en) { for (int v : e) a.push_back(v + base); x.push_back((Num)a.size() + base); }
  int t = (int)r.below(3); vector<double> tw = {0.5, 0.5}; desc("bad mesh t=%d base=%ld %s", t, (long)base, showLM(m).c_str());
  if (t == 0) a[r.below(a.size())] = base + nn; else if (t == 1) a[r.below(a.size())] = base - 1; else tw = {0.7, 0.8};
  In eptr, eind, opt; eptr.set(x); eind.set(a); { vector<Num> o(NOPT, 0); o[NUMBERING] = base; opt.set(o); } feat(fmt("refuse:%d", t));
  if (t < 2) { Num *xa = (Num*)1, *ad = nullptr; int rc = SCOTCH_METIS_MeshToDual(&ne, &nn, eptr.p(), eind.p(), &ncom, &base, &xa, &ad); CHECK(rc != OK, "bad-accepted", "MeshToDual accepts node index %s", t ? "base-1" : "base+nn"); CHECK(xa == nullptr, "bad-xadj", "xadj is not null after a failure"); }
  Buf ep, np; ep.alloc(ne); np.alloc(nn); Num obj = -77; int rc = SCOTCH_METIS_PartMeshDual(&ne, &nn, eptr.p(), eind.p(), 0, 0, &ncom, &k, tw.data(), opt.p(), &obj, ep.p, np.p);
  CHECK(rc != OK && rc < 0, "bad-accepted", "PartMeshDual accepts invalid input (%d) and returns %d", t, rc); CHECK(obj == rc, "bad-objval", "objval is %ld after failure %d", (long)obj, rc); errClear(); H.nontrivial++;
}
static void runCase(long n, Rng& r) { int t = (int)r.below(20); if (t < 5) caseOrder(r); else if (t < 12) casePart(r); else if (t < 19) caseMesh(r); else caseErrors(r); (void)n; }
