// C31: repeated distributed computations give the same result under the deterministic option; ParMETIS-compatible calls.
#include "dcommon.hpp"
#include "gendist.hpp"
#include <malloc.h>
typedef const Num* CN;
extern "C" {
int SCOTCH_contextBindDgraph(SCOTCH_Context*, const SCOTCH_Dgraph*, SCOTCH_Dgraph*);
int ParMETIS_V3_NodeND(CN, Num*, Num*, CN, CN, Num*, Num*, MPI_Comm*);
int ParMETIS_V3_PartKway(CN, Num*, Num*, Num*, Num*, CN, CN, CN, CN, const float*, const float*, CN, Num*, Num*, MPI_Comm*);
int ParMETIS_V3_PartGeomKway(CN, Num*, Num*, Num*, Num*, CN, CN, CN, const float*, CN, CN, const float*, const float*, CN, Num*, Num*, MPI_Comm*);
}
struct In {                                               // an input array, compared with its copy after the call
  vector<Num> c; Buf b; bool on = false;
  void set(const vector<Num>& v) { c = v; b.alloc((long)v.size()); for (size_t i = 0; i < v.size(); i++) b.p[i] = v[i]; on = true; }
  Num* p() { return on ? b.p : nullptr; }
  void same(const char* w) const { if (on) for (size_t i = 0; i < c.size(); i++) CHECK(b.p[i] == c[i], "input-changed", "%s[%zu] changed from %ld to %ld", w, i, (long)c[i], (long)b.p[i]); }
};
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-6; }
static vector<float> shares(Rng& r, long k, vector<double>& sh) {
  vector<long> w(k); int t = (int)r.below(5); long s = 0;
  for (auto& x : w) { x = t == 0 ? 1 : t == 1 ? r.range(1, 3) : t == 2 ? r.range(1, 10) : t == 3 ? r.range(10, 100) : (r.chance(0.5) ? 1 : 2); s += x; }
  vector<float> d; for (long x : w) { sh.push_back((double)x / (double)s); d.push_back((float)((double)x / (double)s)); }
  feat(fmt("shares:%d", t)); return d;
}
static void caseParmetis(Rng& r) {
  bool big = r.chance(0.2); LG g;
  if (big) { long a = r.range(24, 40), b = r.range(24, 40); LGB B(a * b); for (long i = 0; i < a; i++) for (long j = 0; j < b; j++) { if (i + 1 < a) B.e(i * b + j, (i + 1) * b + j); if (j + 1 < b) B.e(i * b + j, i * b + j + 1); } g = finish(B, "grid", r, r.chance(0.5)); }
  else g = genGraphD(r, r.chance(0.6) ? 60 : 400);
  if (g.n < 1) return;
  long n = g.n; vector<long> dsp(g_np + 1, 0);
  { vector<long> cut; bool hole = r.chance(0.15); if (r.chance(0.5)) for (int p = 1; p < g_np; p++) cut.push_back(n * p / g_np); else for (int p = 1; p < g_np; p++) cut.push_back(r.range(0, n)); if (!hole) for (int p = 1; p < g_np; p++) cut[p - 1] = std::max<long>(cut[p - 1], 0); std::sort(cut.begin(), cut.end()); for (int p = 1; p < g_np; p++) dsp[p] = cut[p - 1]; dsp[g_np] = n; }
  Num base = (Num)r.below(2); bool vw = r.chance(0.5), ew = r.chance(0.5); Num flag = (Num)r.below(4);
  vector<Num> vt, x, a, w, u; for (long q : dsp) vt.push_back((Num)q + base);
  vector<long> wv(n); for (auto& z : wv) z = r.range(1, 9); u64 eseed = r.next(); auto el = [&](long s, long t) { return (Num)(1 + hash64(eseed, (u64)(std::min(s, t) * 100003 + std::max(s, t))) % 9); };
  x.push_back(base); for (long v = dsp[g_me]; v < dsp[g_me + 1]; v++) { u.push_back((Num)wv[v]); for (auto& e : g.adj[v]) { a.push_back((Num)e.first + base); w.push_back(el(v, e.first)); } x.push_back((Num)a.size() + base); }
  In iv, ix, ia, iu, iw; iv.set(vt); ix.set(x); ia.set(a); if (vw) iu.set(u); if (ew) iw.set(w);
  auto same = [&]() { iv.same("vtxdist"); ix.same("xadj"); ia.same("adjncy"); iu.same("vwgt"); iw.same("adjwgt"); };
  Num nl = (Num)(dsp[g_me + 1] - dsp[g_me]); SubComm* sc = nullptr; (void)sc; MPI_Comm cm = MPI_COMM_WORLD; Num opt[4] = {0, 0, 0, 0};
  int call = (int)r.below(3);
  if (call == 0) {
    bool hs = r.chance(0.8); Buf o, sz; o.alloc(nl); sz.alloc(2 * g_np); for (long i = 0; i < 2 * g_np; i++) sz.p[i] = -77;
    desc("ParMETIS_V3_NodeND %s np=%d base=%ld%s", showLG(g).c_str(), g_np, (long)base, hs ? " sizes" : "");
    errClear(); int rc = ParMETIS_V3_NodeND(iv.p(), ix.p(), ia.p(), &base, opt, o.p, hs ? sz.p : nullptr, &cm);
    CHECK(rc == 1 && g_errnbr == 0, "return", "ParMETIS_V3_NodeND returned %d: %s", rc, g_err.c_str()); same();
    vector<Num> P = allCat(o.vec()); checkOrdering(n, base, P.data(), nullptr, (Num)n, nullptr, nullptr); feat("call:NodeND");
    CHECK(sz[2 * g_np - 1] == -77, "sizes-overrun", "cell 2p-1 of sizes, of size 2p-1, was written");
    if (hs) {
      for (int i = 0; i < 2 * g_np - 1; i++) CHECK(allSame(sz[i]), "sizes-not-global", "sizes[%d] differs between processes", i);
      bool p2 = (g_np & (g_np - 1)) == 0;
      if (!p2) { for (int i = 0; i < 2 * g_np - 1; i++) CHECK(sz[i] == -1, "sizes", "sizes[%d] is %ld on %d processes", i, (long)sz[i], g_np); feat("sizes:none"); }
      else {
        long s = 0; for (int i = 0; i < 2 * g_np - 1; i++) { CHECK(sz[i] >= 0, "sizes", "sizes[%d] is %ld", i, (long)sz[i]); s += sz[i]; }
        CHECK(s == n, "sizes-sum", "sizes sum to %ld for %ld vertices", s, n);
        vector<long> node(n, -1); long pos = 0;                                // node k of the heap has sons 2k+1 (first) and 2k (second); cell of node k is 2p-1-k
        std::function<void(int)> go = [&](int k) { if (2 * k < 2 * g_np) { go(2 * k + 1); go(2 * k); } for (long i = 0; i < sz[2 * g_np - 1 - k]; i++) node[pos++] = k; }; go(1);
        auto anc = [](long a, long b) { while (b > a) b >>= 1; return a == b; };
        for (long v = 0; v < n; v++) for (auto& e : g.adj[v]) { long A = node[P[v] - base], B = node[P[e.first] - base]; CHECK(anc(std::min(A, B), std::max(A, B)), "sizes-separation", "sizes put neighbours %ld and %d in domains %ld and %ld which separators should keep apart", v, e.first, A, B); }
        int used = 0; for (int i = 0; i < g_np; i++) used += sz[i] > 0; if (used > 1) { feat("sizes:several"); H.nontrivial++; }
        if (big && g_np > 1) { for (int i = 0; i < g_np; i++) CHECK(sz[i] >= n / (4 * g_np) && sz[i] <= n * 2 / g_np, "sizes-balance", "domain %d of %d has %ld vertices of %ld", i, g_np, (long)sz[i], n); feat("sizes:quality"); }
      }
    }
  }
  else {
    Num k = (Num)r.range(1, big ? 8 : 12), ncon = 1, cutv = -77, nd = 2; float ub = 1.05f; vector<double> sh; vector<float> tp = shares(r, k, sh);
    Buf pt; pt.alloc(nl); desc("%s %s np=%d base=%ld k=%ld flag=%ld%s%s", call == 1 ? "ParMETIS_V3_PartKway" : "ParMETIS_V3_PartGeomKway", showLG(g).c_str(), g_np, (long)base, (long)k, (long)flag, vw ? " vwgt" : "", ew ? " adjwgt" : "");
    errClear(); int rc = call == 1 ? ParMETIS_V3_PartKway(iv.p(), ix.p(), ia.p(), iu.p(), iw.p(), &flag, &base, &ncon, &k, tp.data(), &ub, opt, &cutv, pt.p, &cm)
                                   : ParMETIS_V3_PartGeomKway(iv.p(), ix.p(), ia.p(), iu.p(), iw.p(), &flag, &base, &nd, nullptr, &ncon, &k, tp.data(), &ub, opt, &cutv, pt.p, &cm);
    CHECK(rc == 1 && g_errnbr == 0, "return", "partitioning returned %d: %s", rc, g_err.c_str()); same(); feat(call == 1 ? "call:PartKway" : "call:PartGeomKway");
    vector<Num> P = allCat(pt.vec()); for (long v = 0; v < n; v++) CHECK(P[v] >= base && P[v] < base + k, "part-range", "vertex %ld is in part %ld outside [%ld,%ld)", v, (long)P[v], (long)base, (long)(base + k));
    long long c = 0; for (long v = 0; v < n; v++) for (auto& e : g.adj[v]) if (P[v] != P[e.first]) c += ew && (flag & 1) ? el(v, e.first) : 1;
    CHECK(cutv == c / 2, "edgecut", "edge cut reported %ld, computed %lld", (long)cutv, c / 2); if (c > 0) H.nontrivial++;
    if (big) {
      bool wt = vw && (flag & 2); vector<double> ld(k, 0); double tot = 0; for (long v = 0; v < n; v++) { double q = wt ? wv[v] : 1; ld[P[v] - base] += q; tot += q; }
      for (long q = 0; q < k; q++) { double want = tot * sh[q]; if (n * sh[q] < 40) continue; CHECK(ld[q] <= want * 1.15 + (wt ? 20 : 4) && ld[q] >= want * 0.82 - (wt ? 20 : 4), "balance", "part %ld weighs %g instead of %g", q, ld[q], want); feat("balance"); }
    }
  }
}
struct Ctx { SCOTCH_Context* c; Ctx() { c = SCOTCH_contextAlloc(); mustOk(SCOTCH_contextInit(c), "contextInit"); } ~Ctx() { SCOTCH_contextExit(c); free(c); } };
static void caseRepeat(Rng& r) {
  int sz = (int)r.below(10); LG g = genGraphD(r, sz < 4 ? 80 : sz < 8 ? 400 : 1500); addWeights(r, g, false); if (g.n < 1) return;
  DPG d; randomDPG(r, d, g); Num seed = (Num)(r.next() & 0x7fffffff); int th = r.chance(0.75) ? 1 : (int)r.range(2, 3); int op = (int)r.below(4);
  StratH s; string txt = "default"; Num k = (Num)r.range(2, 9), cr = (Num)r.range(10, 200); double crr = 0.5 + 0.4 * r.unit(); Num fl = (Num)(r.below(3) == 0 ? SCOTCH_COARSENFOLD : r.below(2) ? SCOTCH_COARSENFOLDDUP : SCOTCH_COARSENNONE);
  if (op == 0) { if (r.chance(0.6)) { txt = dOrd(r, 3); mustOk(SCOTCH_stratDgraphOrder(s.s, txt.c_str()), txt.c_str()); } }
  else if (op == 1) { if (r.chance(0.6)) { txt = dmMap(r); mustOk(SCOTCH_stratDgraphMap(s.s, txt.c_str()), txt.c_str()); } }
  static const char* on[] = {"order", "part", "coarsen", "band"}; desc("repeat %s %s np=%d base=%ld %d threads k=%ld strat %s", on[op], showLG(g).c_str(), g_np, (long)d.base, th, (long)k, txt.c_str());
  vector<Num> seeds; long ns = r.range(1, 3); for (long i = 0; i < ns; i++) seeds.push_back((Num)r.below(g.n)); Num dist = (Num)r.range(1, 3);
  auto run = [&](SCOTCH_Dgraph* gr) -> vector<Num> {
    vector<Num> o; errClear();
    if (op == 0) {
      SCOTCH_Dordering* q = SCOTCH_dorderAlloc(); mustOk(SCOTCH_dgraphOrderInit(gr, q), "dgraphOrderInit"); mustOk(SCOTCH_dgraphOrderCompute(gr, q, s.s), "dgraphOrderCompute");
      Buf p; p.alloc(d.nloc()); mustOk(SCOTCH_dgraphOrderPerm(gr, q, p.p), "dgraphOrderPerm"); o = p.vec(); Num c = SCOTCH_dgraphOrderCblkDist(gr, q); Buf t, u; t.alloc(c); u.alloc(c); mustOk(SCOTCH_dgraphOrderTreeDist(gr, q, t.p, u.p), "dgraphOrderTreeDist");
      for (Num z : t.vec()) o.push_back(z); for (Num z : u.vec()) o.push_back(z);
      SCOTCH_dgraphOrderExit(gr, q); free(q);
    }
    else if (op == 1) { Buf p; p.alloc(d.nloc()); int rc = SCOTCH_dgraphPart(gr, k, s.s, p.p); mustOk(rc, "dgraphPart"); o = p.vec(); }
    else if (op == 2) {
      Num mx = SCOTCH_dgraphCoarsenVertLocMax(gr, fl); Buf m; m.alloc(2 * mx); DGH h; int rc = SCOTCH_dgraphCoarsen(gr, cr, crr, fl, h.g, m.p); CHECK(rc == 0 || rc == 1, "call-failed", "dgraphCoarsen returns %d", rc); o.push_back(rc);
      bool in = !(fl == SCOTCH_COARSENFOLD && g_np > 1) || g_me < (g_np + 1) / 2;
      if (rc == 0 && in) { Num vn, en, *vt, *ve, *vl, *et; SCOTCH_dgraphData(h.g, nullptr, nullptr, &vn, nullptr, nullptr, &vt, &ve, &vl, nullptr, nullptr, &en, nullptr, &et, nullptr, nullptr, nullptr); Num b = d.base;
        for (Num i = 0; i < vn; i++) { o.push_back(vl ? vl[i] : 1); o.push_back(ve[i] - vt[i]); for (Num e = vt[i]; e < ve[i]; e++) o.push_back(et[e - b]); o.push_back(m[2 * i]); o.push_back(m[2 * i + 1]); } }
    }
    else {
      Buf sd; long c = 0; vector<Num> l; for (Num v : seeds) if (d.owner(v) == g_me) { bool dup = false; for (Num x : l) dup |= x == v - d.first() + d.base; if (!dup) { l.push_back((Num)(v - d.first() + d.base)); c++; } } sd.alloc(d.nloc()); for (long i = 0; i < c; i++) sd.p[i] = l[i];
      DGH h; mustOk(SCOTCH_dgraphBand(gr, (Num)c, sd.p, dist, h.g), "dgraphBand");
      Num vn, *vt, *ve, *vl, *lb, *et; SCOTCH_dgraphData(h.g, nullptr, nullptr, &vn, nullptr, nullptr, &vt, &ve, &vl, &lb, nullptr, nullptr, nullptr, &et, nullptr, nullptr, nullptr);
      for (Num i = 0; i < vn; i++) { o.push_back(vl ? vl[i] : 1); o.push_back(lb ? lb[i] : -1); o.push_back(ve[i] - vt[i]); for (Num e = vt[i]; e < ve[i]; e++) o.push_back(et[e - d.base]); }
    }
    return o;
  };
  vector<Num> r0; int reps = 3; bool glob = getenv("C31_GLOBAL") != nullptr; Ctx* keep = new Ctx; struct KX { Ctx*& k; ~KX() { delete k; } } kx{keep};
  auto prep = [&](Ctx& c) { mustOk(SCOTCH_contextOptionSetNum(c.c, SCOTCH_OPTIONNUMDETERMINISTIC, 1), "contextOptionSetNum"); mustOk(SCOTCH_contextThreadSpawn(c.c, th, nullptr), "contextThreadSpawn"); mustOk(SCOTCH_contextRandomClone(c.c), "contextRandomClone"); SCOTCH_contextRandomSeed(c.c, seed); };
  prep(*keep);
  for (int i = 0; i < reps; i++) {
    Rng l(hash64(r.next(), (u64)g_me)); g_dlyst = l.next(); g_dlymode = (int)l.below(4); mallopt(M_PERTURB, (int)l.below(256)); feat(fmt("rep-delays:%d", g_dlymode));
    vector<Num> o;
    if (glob) { SCOTCH_randomSeed(seed); SCOTCH_randomReset(); o = run(d.gr); }
    else { bool fresh = (hash64(seed, i) & 1) != 0; Ctx* c = fresh ? new Ctx : keep; if (fresh) prep(*c); else SCOTCH_contextRandomReset(c->c);
      SCOTCH_Dgraph* cg = SCOTCH_dgraphAlloc(); mustOk(SCOTCH_contextBindDgraph(c->c, d.gr, cg), "contextBindDgraph"); o = run(cg); SCOTCH_dgraphExit(cg); free(cg); if (fresh) delete c; }
    if (i == 0) r0 = o;
    bool eq = o == r0; vector<Num> all = allOne((Num)eq); for (int p = 0; p < g_np; p++) CHECK(all[p], "repeat", "%s run %d gives another result on process %d", on[op], i, p);
  }
  feat(string("repeat:") + on[op]); if (g_np > 1 && r0.size() > 4) H.nontrivial++;
  d.checkUntouched("repeated computation"); sig(hash64(hashLG(g), hashStr(txt)));
}
static void runCaseD(long, Rng& r) { if (r.chance(0.45)) caseParmetis(r); else caseRepeat(r); }
