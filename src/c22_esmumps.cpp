// C22: ordering interface for sparse solvers, block symbolic factorization, orderings of the solver library.
#include "common.hpp"
#define INT Num
#define restrict __restrict
typedef unsigned char byte;
#define orderInit _ESMUMPSorderInit
#define orderExit _ESMUMPSorderExit
#define orderLoad _ESMUMPSorderLoad
#define orderSave _ESMUMPSorderSave
#define orderCheck _ESMUMPSorderCheck
#define orderGraph _ESMUMPSorderGraph
#define orderGraphStrat _ESMUMPSorderGraphStrat
#define symbolInit _ESMUMPSsymbolInit
#define symbolExit _ESMUMPSsymbolExit
#define symbolRealloc _ESMUMPSsymbolRealloc
#define symbolCheck _ESMUMPSsymbolCheck
#define symbolCost _ESMUMPSsymbolCost
#define symbolFaxGraph _ESMUMPSsymbolFaxGraph
#define dofInit _ESMUMPSdofInit
#define dofExit _ESMUMPSdofExit
#define dofGraph _ESMUMPSdofGraph
#define dofConstant _ESMUMPSdofConstant
typedef SCOTCH_Graph Graph;
#define ESMUMPS_GRAPH_H
extern "C" {
#include "dof.h"
#include "symbol.h"
#include "order.h"
#include "fax.h"
int esmumps(Num, Num, Num*, Num, Num*, Num*, Num*, Num*, Num*); int esmumpsv(Num, Num, Num*, Num, Num*, Num*, Num*, Num*, Num*);
int esmumps_strat1(Num, Num, int, Num, Num, double, int, FILE*, char*);
}

// ---- the interface for solvers
static void caseMumps(Rng& r) {
  LG g = genGraph(r, r.chance(0.6) ? 50 : r.chance(0.8) ? 250 : 700); bool wgt = r.chance(0.5); long n = g.n; pickThreads(r);
  vector<Num> w(n, 1); if (wgt) for (auto& x : w) x = (Num)r.range(1, r.chance(0.2) ? 1000 : 9);
  Buf pe, len, iw, nv, elen, last; pe.alloc(n); len.alloc(n); long a = g.arcs(); iw.alloc(a); nv.alloc(n); elen.alloc(n); last.alloc(n);
  vector<int> o(n); std::iota(o.begin(), o.end(), 0); bool shuf = r.chance(0.3); if (shuf) r.shuffle(o); Num k = 1; for (int v : o) { pe.p[v] = k; len.p[v] = (Num)g.adj[v].size(); for (auto& e : g.adj[v]) iw.p[k++ - 1] = e.first + 1; }
  for (long v = 0; v < n; v++) { nv.p[v] = w[v]; elen.p[v] = last.p[v] = -9; }
  vector<Num> iw0(iw.p, iw.p + a), len0(len.p, len.p + n); desc("esmumps%s shuf=%d %s", wgt ? "v" : "", (int)shuf, showLG(g).c_str()); errClear();
  if (!wgt && r.chance(0.5)) for (long v = 0; v < n; v++) nv.p[v] = -12345;
  mustOk((wgt ? esmumpsv : esmumps)((Num)n, (Num)a, pe.p, (Num)a + 1, len.p, iw.p, nv.p, elen.p, last.p), "esmumps"); feat(wgt ? "call:esmumpsv" : "call:esmumps"); feat("gkind:" + g.kind);
  for (long i = 0; i < a; i++) CHECK(iw.p[i] == iw0[i], "input-changed", "iw[%ld] changed", i);
  for (long i = 0; i < n; i++) CHECK(len.p[i] == len0[i], "input-changed", "len[%ld] changed", i);
  vector<vector<int>> grp(n), kid(n); vector<int> owner(n), fa(n, -1); long prin = 0;
  for (long v = 0; v < n; v++) {
    CHECK(pe.p[v] <= 0 && pe.p[v] >= -n, "pe-range", "pe[%ld]=%ld", v + 1, (long)pe.p[v]); CHECK(nv.p[v] >= 0, "nv-range", "nv[%ld]=%ld", v + 1, (long)nv.p[v]);
    if (nv.p[v] == 0) { CHECK(pe.p[v] != 0, "secondary-root", "secondary variable %ld has no principal variable", v + 1); long p = -pe.p[v] - 1; CHECK(nv.p[p] > 0, "principal", "secondary variable %ld points to %ld, which is not principal", v + 1, p + 1); grp[p].push_back((int)v); owner[v] = (int)p; }
    else { prin++; grp[v].push_back((int)v); owner[v] = (int)v; if (pe.p[v]) { long p = -pe.p[v] - 1; CHECK(nv.p[p] > 0, "father", "father %ld of %ld is not principal", p + 1, v + 1); fa[v] = (int)p; kid[p].push_back((int)v); } }
  }
  vector<int> ord; for (long v = 0; v < n; v++) if (nv.p[v] > 0 && fa[v] < 0) ord.push_back((int)v); for (size_t i = 0; i < ord.size(); i++) for (int c : kid[ord[i]]) ord.push_back(c);
  CHECK((long)ord.size() == prin, "tree-cycle", "%ld principal variables and %zu reached from the roots", prin, ord.size());
  vector<set<int>> st(n); vector<char> done(n, 0);
  for (long i = (long)ord.size() - 1; i >= 0; i--) {      // children first
    int p = ord[i]; set<int>& s = st[p]; for (int v : grp[p]) for (auto& e : g.adj[v]) if (!done[e.first]) s.insert(e.first);
    for (int c : kid[p]) { s.insert(st[c].begin(), st[c].end()); st[c].clear(); }
    for (int v : grp[p]) { s.erase(v); done[v] = 1; }
    long long f = 0; for (int v : grp[p]) f += w[v]; for (int v : s) f += w[v];
    CHECK(f == nv.p[p], "front-size", "front of %d holds %lld columns, and %ld is reported", p + 1, f, (long)nv.p[p]);
    bool tofa = false; for (int v : s) { CHECK(!done[v], "order", "row %d of front %d has already been eliminated", v + 1, p + 1); int q = owner[v], t = p; if (q == fa[p]) tofa = true; while (t >= 0 && t != q) t = fa[t]; CHECK(t == q, "not-ancestor", "row %d of front %d belongs to %d, which is not an ancestor", v + 1, p + 1, q + 1); }
    if (fa[p] >= 0) CHECK(tofa, "father-empty", "front %d has father %d and no row in it", p + 1, fa[p] + 1); else CHECK(s.empty(), "root", "front %d is a root and has rows beyond", p + 1);
  }
  if (elen.p[0] != -9) {                                  // permutations are given by debug builds
    feat("perm"); vector<int> at(n, -1); for (long v = 0; v < n; v++) { Num x = elen.p[v] - 1; CHECK(x >= 0 && x < n && at[x] < 0, "elen", "elen[%ld]=%ld", v + 1, (long)elen.p[v]); at[x] = (int)v; CHECK(last.p[x] == v + 1, "last", "last[%ld]=%ld", (long)x + 1, (long)last.p[x]); }
    for (long v = 0; v < n; v++) if (nv.p[v] > 0) { long b = elen.p[v]; for (int u : grp[v]) CHECK(elen.p[u] >= b && elen.p[u] < b + (long)grp[v].size(), "block", "variables of %ld are not contiguous", v + 1); if (fa[v] >= 0) CHECK(elen.p[fa[v]] > b, "block", "father of %ld comes before it", v + 1); }
  }
  feat(prin == n ? "tree:scalar" : "tree:blocks"); if (prin > 1 && prin < n) H.nontrivial++;
  sig(hash64(hashLG(g), wgt));
}

// ---- block symbolic factorization of any ordering
struct Ngb { const LG* g; const vector<Num>* xadj; Num base; Num v; size_t i; };
static Num ngNext(void* p) { Ngb* n = (Ngb*)p; auto& a = n->g->adj[n->v]; return n->i < a.size() ? a[n->i++].first + n->base : n->base - 1; }
static Num ngFirst(void* p, const Num v) { Ngb* n = (Ngb*)p; n->v = v - n->base; n->i = 0; return ngNext(p); }
static Num ngDeg(void* p, const Num v) { Ngb* n = (Ngb*)p; return (Num)n->g->adj[v - n->base].size(); }
struct OrdH : Order { OrdH() { orderInit(this); } ~OrdH() { orderExit(this); } };
struct SymH : SymbolMatrix { SymH() { symbolInit(this); } ~SymH() { symbolExit(this); } };
static void caseFax(Rng& r) {
  LG g = genGraph(r, r.chance(0.6) ? 40 : r.chance(0.8) ? 160 : 500); long n = g.n; PG p; randomPG(r, p, g); Num base = p.base; int t = (int)r.below(4); OrdH o; desc("fax t=%d base=%ld %s", t, (long)base, showLG(g).c_str()); errClear();
  if (t == 0) { mustOk(orderGraph(&o, p.gr), "orderGraph"); feat("order:default"); }
  else {
    o.permtab = (Num*)malloc(n * sizeof(Num)); o.peritab = (Num*)malloc(n * sizeof(Num)); o.rangtab = (Num*)malloc((n + 1) * sizeof(Num)); vector<int> q(n); std::iota(q.begin(), q.end(), 0); if (t != 1) r.shuffle(q);
    for (long i = 0; i < n; i++) { o.peritab[i] = q[i] + base; o.permtab[q[i]] = (Num)i + base; }
    o.cblknbr = 0; o.rangtab[0] = base; long mx = t == 3 ? 1 : r.range(1, std::max(1L, std::min(n, r.chance(0.5) ? 6L : 60L))); for (long i = 0; i < n; ) { i += std::min(n - i, r.range(1, mx)); o.rangtab[++o.cblknbr] = (Num)i + base; } feat(t == 3 ? "order:scalar" : t == 1 ? "order:natural" : "order:random");
  }
  mustOk(orderCheck(&o), "orderCheck"); CHECK(o.rangtab[0] == base && o.rangtab[o.cblknbr] == n + base, "range", "range array does not span the vertices");
  SymH s; bool cb = r.chance(0.4);
  if (cb) { Ngb nb{&g, nullptr, base, 0, 0}; feat("call:symbolFax"); mustOk(symbolFax(&s, (Num)n, (Num)g.arcs(), base, &nb, ngFirst, ngNext, ngDeg, &o), "symbolFax"); }
  else { feat("call:symbolFaxGraph"); mustOk(symbolFaxGraph(&s, p.gr, &o), "symbolFaxGraph"); }
  if (r.chance(0.2)) { symbolRealloc(&s); feat("call:symbolRealloc"); }
  mustOk(symbolCheck(&s), "symbolCheck"); p.checkUntouched("symbolFax");
  CHECK(s.baseval == base && s.cblknbr == o.cblknbr && s.nodenbr == n, "sizes", "base %ld, %ld column blocks, %ld nodes", (long)s.baseval, (long)s.cblknbr, (long)s.nodenbr);
  long cn = o.cblknbr; vector<int> blk(n); for (long c = 0; c < cn; c++) for (long i = o.rangtab[c]; i < o.rangtab[c + 1]; i++) blk[i - base] = (int)c;
  vector<set<int>> rows(cn); vector<vector<int>> kid(cn); long long nnz = 0; long blocks = 0;
  for (long c = 0; c < cn; c++) {
    int lo = (int)(o.rangtab[c] - base), hi = (int)(o.rangtab[c + 1] - base); set<int>& x = rows[c];
    for (int i = lo; i < hi; i++) for (auto& e : g.adj[o.peritab[i] - base]) { int q = (int)(o.permtab[e.first] - base); if (q >= hi) x.insert(q); }
    for (int k : kid[c]) for (int q : rows[k]) if (q >= hi) x.insert(q);
    if (!x.empty()) kid[blk[*x.begin()]].push_back((int)c);
    nnz += (long long)(hi - lo) * (hi - lo + (long long)x.size());
    CHECK(s.cblktab[c].fcolnum == lo + base && s.cblktab[c].lcolnum == hi - 1 + base, "cblk", "column block %ld spans %ld to %ld", c, (long)s.cblktab[c].fcolnum, (long)s.cblktab[c].lcolnum);
    long b = s.cblktab[c].bloknum - base, e = s.cblktab[c + 1].bloknum - base; CHECK(b == blocks && e > b && e <= s.bloknbr, "blok", "column block %ld has blocks %ld to %ld", c, b, e); blocks = e;
    CHECK(s.bloktab[b].frownum == lo + base && s.bloktab[b].lrownum == hi - 1 + base && s.bloktab[b].cblknum == c + base, "diagonal", "diagonal block of %ld", c);
    set<int> got; long pl = -2, pb = -1;
    for (long k = b + 1; k < e; k++) { long f = s.bloktab[k].frownum - base, l = s.bloktab[k].lrownum - base, q = s.bloktab[k].cblknum - base; CHECK(f >= hi && f <= l && l < n, "row", "block %ld of column block %ld spans %ld to %ld", k, c, f, l); CHECK(f > pl, "overlap", "blocks of %ld overlap", c); CHECK(blk[f] == q && blk[l] == q, "facing", "block %ld-%ld of %ld faces %ld instead of %d and %d", f, l, c, q, blk[f], blk[l]); CHECK(!(f == pl + 1 && q == pb), "split", "blocks of %ld facing %ld are not merged", c, q); pl = l; pb = q; for (long i = f; i <= l; i++) got.insert((int)i); }
    for (int q : x) CHECK(got.count(q), "fill-missing", "row %d missing from column block %ld", q, c); for (int q : got) CHECK(x.count(q), "fill-extra", "row %d of column block %ld is not in the fill", q, c);
  }
  CHECK(blocks == s.bloknbr, "blok", "%ld blocks, %ld announced", blocks, (long)s.bloknbr);
  { Dof d; dofInit(&d); Num dv = (Num)r.range(1, 4); if (r.chance(0.5)) { mustOk(dofGraph(&d, p.gr, dv, o.peritab), "dofGraph"); } else dofConstant(&d, base, (Num)n, dv); double z = -1, op = -1; mustOk(symbolCost(&s, &d, SYMBOLCOSTLDLT, &z, &op), "symbolCost"); feat("call:symbolCost");
    double wz = (double)nnz * dv * dv; CHECK(std::fabs(z - wz) <= 1e-9 * wz, "nnz", "%.17g factor entries reported, %.17g in the structure", z, wz);
    // operations do not depend on how columns are grouped into blocks, as long as the fill is the same
    if (t == 3) { double w = 0; for (long c = 0; c < cn; c++) { double h = (double)rows[c].size() * dv, k = dv; w += k * (k * (2 * k + 6 * h + 3) + 1) / 6; } CHECK(op >= w - 1e-6 * w - 1e-6, "opc", "%.17g operations reported, at least %.17g needed", op, w); } dofExit(&d); }
  if (cn > 1 && s.bloknbr > cn) H.nontrivial++;
  sig(hash64(hashLG(g), t));
  if (r.chance(0.4)) {                                    // orderings saved and loaded
    MemFile f; errClear(); mustOk(orderSave(&o, f.f), "orderSave"); string txt = f.str(); OrdH l; FILE* in = memIn(txt); int rc = orderLoad(&l, in); fclose(in); mustOk(rc, "orderLoad"); feat("call:orderLoad"); CHECK(l.cblknbr == o.cblknbr, "load", "%ld blocks", (long)l.cblknbr);
    for (long c = 0; c <= cn; c++) CHECK(l.rangtab[c] == o.rangtab[c], "load", "rangtab[%ld]=%ld", c, (long)l.rangtab[c]); for (long v = 0; v < n; v++) CHECK(l.permtab[v] == o.permtab[v] && l.peritab[v] == o.peritab[v], "load", "permutation at %ld", v); mustOk(orderCheck(&l), "orderCheck of loaded ordering");
  }
  if (n > 1 && r.chance(0.3)) {                           // damaged orderings are refused
    int k = (int)r.below(3); long v = (long)r.below(n); feat("refuse"); Num old;
    if (k == 0) { old = o.permtab[v]; o.permtab[v] = o.permtab[(v + 1) % n]; } else if (k == 1) { old = o.peritab[v]; o.peritab[v] = r.chance(0.5) ? base - 1 : (Num)n + base; } else { v = (long)r.below(cn); old = o.rangtab[v]; if (cn < 2 && v == 0) return; if (v == 0) return; o.rangtab[v] = o.rangtab[v + (r.chance(0.5) ? 1 : -1)]; }
    CHECK(orderCheck(&o) != 0, "damaged-accepted", "damaged ordering accepted (%d)", k); if (k == 0) o.permtab[v] = old; else if (k == 1) o.peritab[v] = old; else o.rangtab[v] = old; errClear();
  }
}
static void caseStrat(Rng& r) {                           // strategies for solvers are valid and order graphs
  char buf[4096]; FILE* nul = fopen("/dev/null", "w"); Num pn = (Num)r.range(1, 64), lf = (Num)r.range(1, 500); errClear(); desc("strat1 %ld %ld", (long)pn, (long)lf);
  Num cmin = (Num)r.range(0, 60); mustOk(esmumps_strat1(pn, lf, (int)r.below(2), cmin, (Num)r.range(cmin, 100000), r.unit() * 0.3, (int)r.below(2), nul, buf), "esmumps_strat1"); fclose(nul); feat("call:esmumps_strat1"); string s = buf; CHECK(s.size() < sizeof buf, "long", "strategy too long");
  LG g = genGraph(r, 300); PG p; randomPG(r, p, g); OrdH o; desc("strat1 %s on %s", s.c_str(), showLG(g).c_str()); mustOk(orderGraphStrat(&o, p.gr, s.c_str()), "orderGraphStrat"); mustOk(orderCheck(&o), "orderCheck"); CHECK(o.rangtab[0] == p.base && o.rangtab[o.cblknbr] == g.n + p.base, "range", "range array does not span the vertices"); H.nontrivial++; sig(hashLG(g));
}
static void runCase(long n, Rng& r) { (void)n; int t = (int)r.below(20); if (t < 9) caseMumps(r); else if (t < 18) caseFax(r); else caseStrat(r); }
