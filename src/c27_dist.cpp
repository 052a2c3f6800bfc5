// C27: gathering, scattering, redistribution and files conserve the graph.
#include "dcommon.hpp"
#include <sstream>

// ---------------------------------------------------------------- gather
static void gather(Rng& r) {
  LG g = genGraphD(r, r.chance(0.8) ? 60 : 500); addWeights(r, g); if (r.chance(0.3)) addLabels(r, g, 0);
  DPG d; randomDPG(r, d, g); desc("gather %s np=%d base=%ld", showLG(g).c_str(), g_np, (long)d.base);
  if (r.chance(0.3)) mustOk(SCOTCH_dgraphGhst(d.gr), "dgraphGhst");
  int root = r.chance(0.4) ? -1 : (int)r.below(g_np); bool holes = d.mx != d.cnt;
  int k = (int)r.range(1, 2);
  for (int i = 0; i < k; i++) {
    if (i) root = r.chance(0.4) ? -1 : (int)r.below(g_np);
    GH h; bool mine = root < 0 || root == g_me;
    int o = SCOTCH_dgraphGather(d.gr, mine ? h.g : nullptr); mustOk(o, "dgraphGather");
    if (mine) {
      Num b; LG x = readGraph(h.g, &b); CHECK(b == d.base, "gather-base", "base value %ld instead of %ld", (long)b, (long)d.base);
      sameLG(g, x, "gathered graph", !g.vlbl.empty());
      if (g.vlbl.empty() && !x.vlbl.empty()) for (long v = 0; v < g.n; v++) CHECK(x.vlbl[v] == d.glob(v), "gather-labels", "vertex %ld has label %ld instead of its global index %ld", v, (long)x.vlbl[v], (long)d.glob(v));
      int oc = SCOTCH_graphCheck(h.g); CHECK(oc == 0, "gather-check", "graphCheck refuses the gathered graph: %s", g_err.c_str());
    }
    feat(root < 0 ? "gather:all" : "gather:root");
  }
  if (g_np > 2 && r.chance(0.2)) {                          // neither one root nor all processes
    GH h; bool mine = g_me < 2; int o = SCOTCH_dgraphGather(d.gr, mine ? h.g : nullptr);
    CHECK(o != 0, "gather-bad-roots", "dgraphGather succeeds with two roots"); errClear(); feat("gather:bad-roots");
  }
  d.checkUntouched("dgraphGather"); (void)holes;
  sig(hashLG(g)); if (g.n > 0) H.nontrivial++;
}
// ---------------------------------------------------------------- scatter
static void scatter(Rng& r) {
  LG g = genGraphD(r, r.chance(0.8) ? 60 : 500); addWeights(r, g); if (r.chance(0.3)) addLabels(r, g, 0);
  int root = (int)r.below(g_np); desc("scatter %s np=%d root %d", showLG(g).c_str(), g_np, root);
  PG p; Rng r2 = r; r.next(); randomPG(r2, p, g);           // same representation on all processes; only that of the root is used
  DGH h; mustOk(SCOTCH_dgraphScatter(h.g, g_me == root ? p.gr : nullptr), "dgraphScatter");
  mustCheckD(h.g, "the scattered graph");
  DG d = readD(h.g); CHECK(d.base == p.base, "scatter-base", "base value %ld instead of %ld", (long)d.base, (long)p.base);
  sameLG(g, d.g, "scattered graph");
  for (int q = 0; q < g_np; q++) CHECK(d.cnt[q] == (g.n + g_np - 1 - q) / g_np, "scatter-distribution", "process %d receives %ld of %ld vertices", q, (long)d.cnt[q], g.n);
  GH c; mustOk(SCOTCH_dgraphGather(h.g, c.g), "dgraphGather"); LG x = readGraph(c.g); sameLG(g, x, "graph scattered then gathered");
  if (r.chance(0.4)) { mustOk(SCOTCH_dgraphGhst(h.g), "dgraphGhst"); DG y = readD(h.g); vector<long> gh; checkGhost(h.g, y, &gh); feat("scatter:ghost"); }
  if (g_np > 1 && r.chance(0.15)) {
    DGH e; bool two = r.chance(0.5); int o = SCOTCH_dgraphScatter(e.g, two ? p.gr : nullptr);
    CHECK(o != 0, "scatter-bad-roots", "dgraphScatter succeeds with %s", two ? "several roots" : "no root"); errClear(); feat("scatter:bad-roots");
  }
  p.checkUntouched("dgraphScatter");
  sig(hashLG(g)); if (g.n > 0) H.nontrivial++; feat("scatter");
}
// ---------------------------------------------------------------- redistribution
static void redist(Rng& r) {
  LG g = genGraphD(r, r.chance(0.8) ? 60 : 400); addWeights(r, g); if (r.chance(0.3)) addLabels(r, g, 0);
  DPG d; randomDPG(r, d, g); desc("redist %s np=%d base=%ld", showLG(g).c_str(), g_np, (long)d.base);
  vector<int> part(g.n); int t = (int)r.below(6); int only = (int)r.below(g_np), two = (int)r.below(g_np);
  for (long v = 0; v < g.n; v++) part[v] = t == 0 ? d.owner(v) : t == 1 ? only : t == 2 ? (r.chance(0.5) ? only : two) : t == 3 ? (d.owner(v) + 1) % g_np : (int)r.below(g_np);
  feat(fmt("redist-part:%d", t));
  Num vdlt = r.chance(0.35) ? (Num)r.range(1, 6) : 0, edlt = r.chance(0.35) ? (Num)r.range(1, 40) : 0; bool usep = r.chance(0.4);
  vector<vector<long>> lst(g_np); for (long v = 0; v < g.n; v++) lst[part[v]].push_back(v);
  if (usep) for (auto& l : lst) r.shuffle(l);
  vector<Num> perm(g.n); vector<long> ord; Num b = d.base; vector<Num> vrt(g_np + 1);
  for (int p = 0; p < g_np; p++) { vrt[p] = b; for (size_t i = 0; i < lst[p].size(); i++) { perm[lst[p][i]] = b + (Num)i; ord.push_back(lst[p][i]); } b += (Num)lst[p].size() + vdlt; } vrt[g_np] = b;
  desc("parts %d, extra %ld %ld%s", t, (long)vdlt, (long)edlt, usep ? ", permuted" : "");
  Buf pl; vector<Num> pv; for (long i = 0; i < d.nloc(); i++) pv.push_back(part[d.first() + i]); pl.set(pv); pl.save();
  Buf pg; if (usep) {
    mustOk(SCOTCH_dgraphGhst(d.gr), "dgraphGhst"); DG x = readD(d.gr); vector<long> gh; checkGhost(d.gr, x, &gh);
    vector<Num> q; for (long i = 0; i < d.nloc(); i++) q.push_back(perm[d.first() + i]); for (long w : gh) q.push_back(perm[w]); pg.set(q); pg.save(); feat("redist:perm");
  }
  DGH h; mustOk(SCOTCH_dgraphRedist(d.gr, pl.p, usep ? pg.p : nullptr, vdlt, edlt, h.g), "dgraphRedist");
  mustCheckD(h.g, "the redistributed graph");
  CHECK(pl.same() && (!usep || pg.same()), "redist-input-modified", "dgraphRedist modified its part or permutation array"); d.checkUntouched("dgraphRedist");
  DG y = readD(h.g); CHECK(y.base == d.base, "redist-base", "base value %ld instead of %ld", (long)y.base, (long)d.base);
  for (int p = 0; p < g_np; p++) {
    CHECK(y.cnt[p] == (Num)lst[p].size(), "redist-count", "process %d received %ld vertices instead of %zu", p, (long)y.cnt[p], lst[p].size());
    CHECK(y.mx[p] == y.cnt[p] + vdlt, "redist-room", "process %d has room for %ld vertices, has %ld and extra %ld asked", p, (long)y.mx[p], (long)y.cnt[p], (long)vdlt);
  }
  CHECK(!y.g.vlbl.empty() || g.n == 0, "redist-labels", "no labels in the redistributed graph");
  LG z; z.n = g.n; z.adj.resize(g.n); z.edlo = g.edlo; vector<long> inv(g.n); for (size_t i = 0; i < ord.size(); i++) inv[ord[i]] = (long)i;
  for (long i = 0; i < g.n; i++) { long v = ord[i]; for (auto& e : g.adj[v]) z.adj[i].push_back({(int)inv[e.first], e.second}); if (!g.velo.empty()) z.velo.push_back(g.velo[v]); z.vlbl.push_back(g.vlbl.empty() ? d.glob(v) : g.vlbl[v]); }
  sameLG(z, y.g, "redistributed graph");
  Num els; SCOTCH_dgraphData(h.g, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, &els, 0, 0, 0, 0); Num eln; SCOTCH_dgraphSize(h.g, 0, 0, 0, &eln);
  CHECK(els >= eln + edlt || edlt == 0, "redist-room", "room for %ld arcs, %ld present and extra %ld asked", (long)els, (long)eln, (long)edlt);
  mustOk(SCOTCH_dgraphGhst(h.g), "dgraphGhst"); { DG q = readD(h.g); vector<long> gh; checkGhost(h.g, q, &gh); }
  if (r.chance(0.3)) {                                      // and back again, by the new graph alone
    vector<Num> bk; for (long i = 0; i < y.cnt[g_me]; i++) bk.push_back(d.owner(ord[y.dsp[g_me] + i])); Buf bb; bb.set(bk);
    DGH h2; mustOk(SCOTCH_dgraphRedist(h.g, bb.p, nullptr, 0, 0, h2.g), "dgraphRedist"); mustCheckD(h2.g, "a graph redistributed twice");
    DG q = readD(h2.g); LG a = q.g; for (int p = 0; p < g_np; p++) CHECK(q.cnt[p] == d.cnt[p], "redist-back", "process %d has %ld vertices after going back, not %ld", p, (long)q.cnt[p], d.cnt[p]);
    map<Num, long> byl; for (long i = 0; i < g.n; i++) byl[z.vlbl[i]] = ord[i]; vector<long> m(g.n); for (long i = 0; i < g.n; i++) { CHECK(byl.count(a.vlbl[i]), "redist-back", "unknown label %ld", (long)a.vlbl[i]); m[i] = byl[a.vlbl[i]]; }
    for (long i = 0; i < g.n; i++) { set<pair<long, Num>> s1, s2; for (auto& e : a.adj[i]) s1.insert({m[e.first], e.second}); for (auto& e : g.adj[m[i]]) s2.insert({e.first, e.second}); CHECK(s1 == s2 && a.vl(i) == g.vl(m[i]), "redist-back", "vertex with label %ld differs after going back", (long)a.vlbl[i]); }
    feat("redist:back");
  }
  sig(hash64(hashLG(g), t)); if (g.n > 0) H.nontrivial++; feat("redist"); if (vdlt) feat("redist:room");
}
// ---------------------------------------------------------------- files
static string textOf(std::function<int(FILE*)> f, int* rc) { char* b = nullptr; size_t n = 0; FILE* s = open_memstream(&b, &n); *rc = f(s); fclose(s); string o(b, n); free(b); return o; }
// An independent reading of one fragment.
struct Frag { vector<long> head; vector<Num> lb, vl; vector<vector<pair<Num, Num>>> ad; };
static Frag readFrag(const string& t) {
  std::istringstream s(t); Frag f; long x; for (int i = 0; i < 9; i++) { CHECK((bool)(s >> x), "file-header", "header of the file ends too early"); f.head.push_back(x); }
  long fl = f.head[8]; bool L = fl >= 100, E = fl / 10 % 10, W = fl % 10;
  for (long i = 0; i < f.head[5]; i++) { long a = 0, b = 1, c; if (L) s >> a; if (W) s >> b; CHECK((bool)(s >> c), "file-body", "file ends too early"); f.lb.push_back((Num)a); f.vl.push_back((Num)b); f.ad.emplace_back(); for (long k = 0; k < c; k++) { long e = 1, w; if (E) s >> e; s >> w; f.ad.back().push_back({(Num)w, (Num)e}); } }
  CHECK(!s.fail(), "file-body", "file ends too early"); CHECK(!(s >> x), "file-body", "file has data after its last vertex"); return f;
}
static LG stripped(const LG& g, long fl) { LG x = g; if (fl & 1) x.velo.clear(); if (fl & 2) { x.edlo = false; for (auto& a : x.adj) for (auto& e : a) e.second = 1; } return x; }
static void files(Rng& r) {
  LG g = genGraphD(r, r.chance(0.8) ? 60 : 400); addWeights(r, g); if (r.chance(0.3)) addLabels(r, g, 0);
  DPG d; randomDPG(r, d, g); desc("files %s np=%d base=%ld", showLG(g).c_str(), g_np, (long)d.base);
  int rc; string t = textOf([&](FILE* f) { return SCOTCH_dgraphSave(d.gr, f); }, &rc); mustOk(rc, "dgraphSave"); d.checkUntouched("dgraphSave");
  Frag f = readFrag(t);
  CHECK(f.head[0] == 2 && f.head[1] == g_np && f.head[2] == g_me && f.head[3] == g.n && f.head[4] == g.arcs() && f.head[5] == d.nloc() && f.head[6] == d.edgeloc && f.head[7] == d.base, "file-header", "wrong header: %ld %ld %ld %ld %ld %ld %ld %ld", f.head[0], f.head[1], f.head[2], f.head[3], f.head[4], f.head[5], f.head[6], f.head[7]);
  bool L = f.head[8] >= 100; bool holes = d.mx != d.cnt; CHECK(L || (g.vlbl.empty() && !holes), "file-labels", "no labels in the file although they are needed");
  auto lab = [&](long v) { return !g.vlbl.empty() ? g.vlbl[v] : d.glob(v); };
  for (long i = 0; i < d.nloc(); i++) {
    long v = d.first() + i; CHECK(!L || f.lb[i] == lab(v), "file-labels", "vertex %ld is labelled %ld", v, (long)f.lb[i]); CHECK(f.vl[i] == g.vl(v), "file-vertex-load", "vertex %ld weighs %ld", v, (long)f.vl[i]);
    vector<pair<Num, Num>> e; for (auto& q : g.adj[v]) e.push_back({lab(q.first), g.edlo ? q.second : 1}); auto a = f.ad[i]; std::sort(a.begin(), a.end()); std::sort(e.begin(), e.end()); CHECK(a == e, "file-adjacency", "neighbours of vertex %ld differ in the file", v);
  }
  LG want = g; if (L) { want.vlbl.clear(); for (long v = 0; v < g.n; v++) want.vlbl.push_back(lab(v)); }
  Num bl = (Num)r.range(-1, 1), fl = (Num)r.below(4);
  // the base of labelled files cannot be changed freely: their edge ends are labels
  { DGH h; FILE* s = memIn(t); int o = SCOTCH_dgraphLoad(h.g, s, bl, fl); fclose(s); mustOk(o, "dgraphLoad of saved fragments");
    mustCheckD(h.g, "the loaded graph"); DG x = readD(h.g); CHECK(x.base == (bl < 0 ? d.base : bl), "load-base", "base value %ld with %ld in file and %ld asked", (long)x.base, (long)d.base, (long)bl);
    for (int p = 0; p < g_np; p++) CHECK(x.cnt[p] == d.cnt[p], "load-distribution", "process %d has %ld vertices instead of %ld", p, (long)x.cnt[p], d.cnt[p]);
    sameLG(stripped(want, fl), x.g, "graph loaded from fragments");
    mustOk(SCOTCH_dgraphGhst(h.g), "dgraphGhst"); DG y = readD(h.g); checkGhost(h.g, y);
    int rc2; string t2 = textOf([&](FILE* q) { return SCOTCH_dgraphSave(h.g, q); }, &rc2); mustOk(rc2, "dgraphSave"); Frag f2 = readFrag(t2); CHECK(f2.head[5] == d.nloc(), "file-header", "saved again with %ld vertices", f2.head[5]);
    if (bl < 0 && fl == 0) CHECK(t2 == t, "file-fixpoint", "saving a loaded graph gives another file");
    feat(fmt("load-dist:base%ld:flag%ld", (long)bl, (long)fl)); }
  if (r.chance(0.25)) {                                     // something wrong on one process: all must refuse
    int p = (int)r.below(g_np), k = (int)r.below(5); u64 rn = r.next(); string u = t;
    if (k == 0 && g_me == p) u = u.substr(0, rn % (u.size() / 2 + 1));
    if (k == 1 && g_me == p) u = "3" + u.substr(1);
    auto put = [&](int fld, long v) { std::istringstream s(u); string w, o; for (int i = 0; i < 9; i++) { s >> w; o += (i == fld ? fmt("%ld", v) : w) + (i % 2 == 0 ? "\n" : "\t"); } string rest; std::getline(s, rest, '\0'); u = o + rest; };
    if (k == 2) { if (g_me == p) put(1, g_np + 1); }
    if (k == 3) { if (g_me == p) put(3, g.n + 1); }
    if (k == 4) { if (g_me == p) put(8, 999); }
    DGH h; FILE* s = memIn(u); int o = SCOTCH_dgraphLoad(h.g, s, -1, 0); fclose(s);
    auto all = allOne(o != 0); bool any = false, ev = true; for (Num q : all) { any |= q; ev &= q != 0; }
    bool must = k != 0 || false; if (must && !(k == 4 && false)) CHECK(any, "bad-file-accepted", "fragments with defect %d on process %d are accepted", k, p);
    CHECK(any == ev, "load-refusal-not-global", "fragments with defect %d on process %d are refused on some processes only", k, p);
    errClear(); feat(fmt("load-bad:%d", k));
  }
  sig(hash64(hashLG(g), 99)); if (g.n > 0) H.nontrivial++; feat("files");
}
static void centFiles(Rng& r) {
  LG g = genGraphD(r, r.chance(0.8) ? 60 : 500); addWeights(r, g); if (r.chance(0.3)) addLabels(r, g, 0);
  PG p; randomPG(r, p, g); desc("centralized file %s np=%d base=%ld", showLG(g).c_str(), g_np, (long)p.base);
  int rc; string t = textOf([&](FILE* f) { return SCOTCH_graphSave(p.gr, f); }, &rc); mustOk(rc, "graphSave");
  Num bl = (Num)r.range(-1, 1), fl = (Num)r.below(4); int root = r.chance(0.4) ? -1 : (int)r.below(g_np); bool bad = r.chance(0.15);
  long cut = (long)(r.next() % (t.size() + 1)); bool hd = r.chance(0.3); if (bad && hd) cut = std::min(cut, 6L);
  string u = bad ? t.substr(0, cut) : t; desc("root %d, load base %ld flags %ld%s", root, (long)bl, (long)fl, bad ? ", cut" : "");
  DGH h; FILE* s = (root < 0 || root == g_me) ? memIn(u) : nullptr; int o = SCOTCH_dgraphLoad(h.g, s, bl, fl); if (s) fclose(s);
  auto all = allOne(o != 0); bool any = false, ev = true; for (Num q : all) { any |= q; ev &= q != 0; }
  CHECK(any == ev, "load-refusal-not-global", "a centralized file is refused on some processes only");
  if (bad) { feat(root < 0 ? "cut:multi" : "cut:cent"); errClear(); if (any) return; if (cut < (long)t.size() - 1) { bool more = false; for (long i = cut; i < (long)t.size(); i++) more |= t[i] > ' '; if (more && cut > 0 && t[cut - 1] <= ' ') CHECK(any, "cut-file-accepted", "a file cut at %ld of %zu is accepted", cut, t.size()); } return; }
  if (root < 0 && g_np > 1 && any) { CHECK(g_err.find("not implemented") != string::npos || g_errnbr == 0, "load-refused", "several copies of a valid centralized file are refused: %s", g_err.c_str()); errClear(); feat("load:multi-unimplemented"); return; }
  CHECK(!any, "load-refused", "a valid centralized file is refused: %s", g_err.c_str());
  mustCheckD(h.g, "the loaded graph"); DG d = readD(h.g);
  CHECK(d.base == (bl < 0 ? p.base : bl), "load-base", "base value %ld with %ld in file and %ld asked", (long)d.base, (long)p.base, (long)bl);
  sameLG(stripped(g, fl), d.g, "graph loaded from a centralized file");
  for (int q = 0; q < g_np; q++) CHECK(d.cnt[q] == (g.n + g_np - 1 - q) / g_np, "load-distribution", "process %d receives %ld of %ld vertices", q, (long)d.cnt[q], g.n);
  mustOk(SCOTCH_dgraphGhst(h.g), "dgraphGhst"); DG y = readD(h.g); checkGhost(h.g, y);
  GH c; mustOk(SCOTCH_dgraphGather(h.g, c.g), "dgraphGather"); LG x = readGraph(c.g); sameLG(stripped(g, fl), x, "loaded then gathered graph");
  if (g_np > 2 && r.chance(0.15)) { DGH e; FILE* q = g_me < 2 ? memIn(t) : nullptr; int oo = SCOTCH_dgraphLoad(e.g, q, bl, fl); if (q) fclose(q); CHECK(oo != 0, "load-bad-streams", "dgraphLoad succeeds with two streams"); errClear(); feat("load:bad-streams"); }
  if (g_np > 1 && r.chance(0.1)) { DGH e; int oo = SCOTCH_dgraphLoad(e.g, nullptr, bl, fl); CHECK(oo != 0, "load-bad-streams", "dgraphLoad succeeds without streams"); errClear(); feat("load:no-stream"); }
  sig(hashLG(g)); if (g.n > 0) H.nontrivial++; feat(root < 0 ? "load:multi" : "load:cent");
}
static void runCaseD(long n, Rng& r) {
  int t = (int)r.below(12);
  if (t < 2) gather(r); else if (t < 4) scatter(r); else if (t < 7) redist(r); else if (t < 10) files(r); else centFiles(r);
}
