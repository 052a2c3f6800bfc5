// C23: every Fortran-callable routine does what the C routine of the same name does: both are called on equal data, from the same random state.
#include "gen.hpp"
#include "mesh.hpp"
#include <unistd.h>
#include <sys/mman.h>
typedef SCOTCH_Graph G; typedef SCOTCH_Strat S; typedef SCOTCH_Arch A; typedef SCOTCH_Mapping M; typedef SCOTCH_Ordering O; typedef SCOTCH_Mesh X; typedef SCOTCH_Context C; typedef SCOTCH_ArchDom D; typedef SCOTCH_Geom Q;
typedef const Num* N; typedef Num* P; typedef int* I; typedef SCOTCH_Idx* L; typedef double* R; typedef const double* CR;
#define FD(n, ...) void scotchf##n##_(__VA_ARGS__);
extern "C" {
FD(graphinit, G*, I) FD(graphexit, G*) FD(graphfree, G*) FD(graphsizeof, I) FD(graphload, G*, I, N, N, I) FD(graphsave, const G*, I, I)
FD(graphbuild, G*, N, N, N, N, N, N, N, N, N, I) FD(graphsize, const G*, P, P) FD(graphdata, const G*, N, P, P, L, L, L, L, P, L, L) FD(graphcheck, const G*, I)
FD(graphstat, const G*, P, P, P, R, R, P, P, R, R, P, P, P, R, R) FD(graphbase, G*, N, P) FD(graphdiampv, G*, P) FD(graphcolor, const G*, P, P, N, I)
FD(graphcoarsen, G*, N, CR, N, G*, P, I) FD(graphcoarsenmatch, G*, P, CR, N, P, I) FD(graphcoarsenbuild, G*, P, P, G*, P, I)
FD(graphinducelist, G*, N, N, G*, I) FD(graphinducepart, G*, N, const SCOTCH_GraphPart2*, const SCOTCH_GraphPart2*, G*, I)
FD(graphmapinit, const G*, M*, const A*, P, I) FD(graphmapexit, const G*, M*) FD(graphmapcompute, G*, M*, S*, I) FD(graphmapfixedcompute, G*, M*, S*, I) FD(graphremapcompute, G*, M*, M*, CR, N, S*, I) FD(graphremapfixedcompute, G*, M*, M*, CR, N, S*, I)
FD(graphmap, G*, const A*, S*, P, I) FD(graphmapfixed, G*, const A*, S*, P, I) FD(graphremap, G*, const A*, P, CR, N, S*, P, I) FD(graphremapfixed, G*, const A*, P, CR, N, S*, P, I)
FD(graphpart, G*, N, S*, P, I) FD(graphpartfixed, G*, N, S*, P, I) FD(graphrepart, G*, N, P, CR, N, S*, P, I) FD(graphrepartfixed, G*, N, P, CR, N, S*, P, I) FD(graphpartovl, G*, N, S*, P, I)
FD(stratgraphmap, S*, const char*, I, int) FD(stratgraphmapbuild, S*, N, N, CR, I) FD(stratgraphclusterbuild, S*, N, N, CR, CR, I) FD(stratgraphorder, S*, const char*, I, int) FD(stratgraphorderbuild, S*, N, N, CR, I)
FD(stratgraphpartovl, S*, const char*, I, int) FD(stratgraphpartovlbuild, S*, N, N, CR, I) FD(stratgraphbipart, S*, const char*, I, int) FD(stratmeshorder, S*, const char*, I, int) FD(stratmeshorderbuild, S*, N, CR, I)
FD(stratinit, S*, I) FD(stratexit, S*) FD(stratsave, S*, I, I)
FD(graphorderinit, const G*, O*, P, P, P, P, P, I) FD(graphorderexit, const G*, O*) FD(graphordersave, const G*, const O*, I, I) FD(graphordersavemap, const G*, const O*, I, I) FD(graphordersavetree, const G*, const O*, I, I) FD(graphordercompute, G*, O*, S*, I) FD(graphordercomputelist, G*, O*, N, N, S*, I)
FD(graphorder, G*, S*, P, P, P, P, P, I) FD(graphorderlist, G*, N, N, S*, P, P, P, P, P, I) FD(graphordercheck, const G*, const O*, I)
FD(graphtabload, const G*, P, I, I) FD(graphtabsave, const G*, N, I, I) FD(graphmapload, const G*, M*, I, I) FD(graphmapsave, const G*, M*, I, I) FD(graphmapview, const G*, const M*, I, I)
FD(graphgeomloadscot, G*, Q*, I, I, const char*, I, int) FD(graphgeomsavescot, const G*, const Q*, I, I, const char*, I, int) FD(graphgeomloadchac, G*, Q*, I, I, const char*, I, int) FD(graphgeomsavechac, const G*, const Q*, I, I, const char*, I, int)
FD(graphgeomloadmmkt, G*, Q*, I, I, const char*, I, int) FD(graphgeomsavemmkt, const G*, const Q*, I, I, const char*, I, int)
FD(meshinit, X*, I) FD(meshexit, X*) FD(meshsizeof, I) FD(meshload, X*, I, N, I) FD(meshsave, const X*, I, I) FD(meshbuild, X*, N, N, N, N, N, N, N, N, N, N, N, I) FD(meshcheck, const X*, I) FD(meshsize, const X*, P, P, P)
FD(meshdata, const X*, N, P, P, P, P, L, L, L, L, L, P, L, P) FD(meshgraph, const X*, G*, I) FD(meshgraphdual, const X*, G*, N, I)
FD(meshorder, X*, S*, P, P, P, P, P, I) FD(meshorderlist, X*, N, N, S*, P, P, P, P, P, I) FD(meshorderinit, const X*, O*, P, P, P, P, P, I) FD(meshorderexit, const X*, O*) FD(meshordercompute, X*, O*, S*, I) FD(meshordercomputelist, X*, O*, N, N, S*, I) FD(meshordercheck, const X*, O*, I)
FD(meshordersave, const X*, O*, I, I) FD(meshordersavemap, const X*, O*, I, I) FD(meshordersavetree, const X*, O*, I, I)
FD(archinit, A*, I) FD(archexit, A*) FD(archsizeof, I) FD(archdomsizeof, I) FD(archload, A*, I, I) FD(archsave, A*, I, I) FD(archname, A*, char*, I) FD(archsize, A*, I) FD(archvar, A*, I) FD(archcmplt, A*, N, I) FD(archcmpltw, A*, N, N, I) FD(archhcub, A*, N, I)
FD(archmesh2, A*, N, N, I) FD(archmesh3, A*, N, N, N, I) FD(archmeshx, A*, N, N, I) FD(archsub, A*, A*, N, N, I) FD(archtleaf, A*, N, N, N, I) FD(archtorus2, A*, N, N, I) FD(archtorus3, A*, N, N, N, I) FD(archtorusx, A*, N, N, I) FD(archvcmplt, A*, I) FD(archvhcub, A*, I) FD(archbuild, A*, G*, N, N, S*, I)
FD(archdomnum, A*, D*, P) FD(archdomterm, A*, D*, N, I) FD(archdomsize, A*, const D*, P) FD(archdomwght, A*, const D*, P) FD(archdomdist, A*, const D*, const D*, P) FD(archdomfrst, A*, D*, I) FD(archdombipart, A*, const D*, D*, D*, I)
FD(randomload, I, I) FD(randomsave, I, I) FD(randomproc, const int*) FD(randomreset, void) FD(randomseed, N) FD(randomval, N, P)
FD(geominit, Q*, I) FD(geomexit, Q*) FD(geomsizeof, I) FD(geomdata, const Q*, CR, P, L)
FD(contextinit, C*, I) FD(contextexit, C*) FD(contextsizeof, I) FD(contextrandomclone, C*, I) FD(contextrandomreset, C*) FD(contextrandomseed, C*, P) FD(contextthreadspawn, C*, I, const int*, I) FD(contextoptiongetnum, C*, const int*, P, I) FD(contextoptionsetnum, C*, const int*, P, I) FD(contextbindgraph, C*, const G*, G*, I)
FD(version, I, I, I)
}
template <class T> struct Obj { T* o; Obj(int n) { o = (T*)malloc(n); } ~Obj() { free(o); } Obj(const Obj&) = delete; operator T*() { return o; } };
#define OBJ(T, v, f) Obj<T> v(f())
struct Fl {                                              // a file, seen as a stream and as a handle
  int fd; FILE* f = nullptr; Fl() { fd = memfd_create("c23", 0); } Fl(const string& s) : Fl() { if (write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort(); lseek(fd, 0, SEEK_SET); } ~Fl() { if (f) fclose(f); close(fd); } Fl(const Fl&) = delete;
  FILE* st(const char* m) { f = fdopen(dup(fd), m); return f; }
  string get() { if (f) { fclose(f); f = nullptr; } string s; char b[4096]; ssize_t k; lseek(fd, 0, SEEK_SET); while ((k = read(fd, b, sizeof b)) > 0) s.append(b, k); return s; }
};
static long nfd() { long c = 0; for (int i = 0; i < 64; i++) c += fcntl(i, F_GETFD) >= 0; return c; }
static void same(int rc, int rf, const char* w) { errClear(); CHECK(rc == rf, "error-code", "%s: C returns %d, Fortran %d", w, rc, rf); feat(string("call:") + w); }
static void eq(const vector<Num>& a, const vector<Num>& b, const char* w) { CHECK(a == b, "result", "%s: Fortran gives another result than C", w); }
static void eqs(const string& a, const string& b, const char* w) { CHECK(a == b, "result-file", "%s: Fortran writes another file than C", w); feat(string("call:") + w); }
static void rnd() { SCOTCH_randomReset(); }
struct StratT { S s; StratT() { SCOTCH_stratInit(&s); } ~StratT() { SCOTCH_stratExit(&s); } };
static vector<Num> rndv(Rng& r, long n, long lo, long hi) { vector<Num> v(n); for (auto& x : v) x = (Num)r.range(lo, hi); return v; }
static string ftext(Rng& r, const string& t) { return t + (r.chance(0.5) ? string("@#{") : string("")); }   // characters after the given length must not be read

static string stext(S* s) { Fl f; SCOTCH_stratSave(s, f.st("w")); return f.get(); }
static void caseStrat(Rng& r) {
  StratT a, b; int ra = 0, rb = -9; int k = (int)r.below(11); static const long fl[] = {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATRECURSIVE, SCOTCH_STRATLEVELMAX, SCOTCH_STRATLEVELMIN, SCOTCH_STRATLEAFSIMPLE, SCOTCH_STRATSEPASIMPLE};
  Num f = 0, n = (Num)r.range(1, 60); for (long x : fl) if (r.chance(0.3)) f |= (Num)x; double bal = 0.01 * (double)r.range(1, 90), den = 0.01 * (double)r.range(1, 99); string t, u; const char* w = "";
  auto bad = [&](string s) { return r.chance(0.15) ? s + "{" : s; };
  SCOTCH_stratExit(&b.s); scotchfstratinit_(&b.s, &rb); same(0, rb, "stratInit"); rb = -9;
#define TXT(nm, C, e) case nm
  if (k == 0) { w = "stratGraphMapBuild"; ra = SCOTCH_stratGraphMapBuild(&a.s, f, n, bal); scotchfstratgraphmapbuild_(&b.s, &f, &n, &bal, &rb); }
  else if (k == 1) { w = "stratGraphClusterBuild"; ra = SCOTCH_stratGraphClusterBuild(&a.s, f, n, den, bal); scotchfstratgraphclusterbuild_(&b.s, &f, &n, &den, &bal, &rb); }
  else if (k == 2) { w = "stratGraphOrderBuild"; Num l = (Num)r.range(0, 9); ra = SCOTCH_stratGraphOrderBuild(&a.s, f, l, bal); scotchfstratgraphorderbuild_(&b.s, &f, &l, &bal, &rb); }
  else if (k == 3) { w = "stratGraphPartOvlBuild"; ra = SCOTCH_stratGraphPartOvlBuild(&a.s, f, n, bal); scotchfstratgraphpartovlbuild_(&b.s, &f, &n, &bal, &rb); }
  else if (k == 4) { w = "stratMeshOrderBuild"; ra = SCOTCH_stratMeshOrderBuild(&a.s, f, bal); scotchfstratmeshorderbuild_(&b.s, &f, &bal, &rb); }
  else {
    if (k == 5 || k == 6) { t = bad(genMapStrat(r, 1, false)); w = "stratGraphMap"; ra = SCOTCH_stratGraphMap(&a.s, t.c_str()); u = ftext(r, t); Buf q; char* h = (char*)malloc(u.size() + 1); memcpy(h, u.data(), u.size()); char* z = (char*)realloc(h, std::max<size_t>(u.size(), 1)); scotchfstratgraphmap_(&b.s, z, &rb, (int)t.size()); free(z); }
    else {
      u = ""; auto go = [&](int (*c)(S*, const char*), void (*ff)(S*, const char*, I, int)) { u = ftext(r, t); char* z = (char*)malloc(std::max<size_t>(u.size(), 1)); memcpy(z, u.data(), u.size()); ra = c(&a.s, t.c_str()); ff(&b.s, z, &rb, (int)t.size()); free(z); };
      if (k == 7) { w = "stratGraphBipart"; t = bad(genBipart(r, 2)); go(SCOTCH_stratGraphBipart, scotchfstratgraphbipart_); }
      if (k == 8) { w = "stratGraphOrder"; t = bad(r.chance(0.5) ? "n{sep=m{low=g,asc=f},ole=f,ose=g}" : "c{rat=0.7,cpr=n{sep=g,ole=d,ose=s},unc=h}"); go(SCOTCH_stratGraphOrder, scotchfstratgraphorder_); }
      if (k == 9) { w = "stratMeshOrder"; t = bad(r.chance(0.5) ? "n{sep=g,ole=f,ose=s}" : "s"); go(SCOTCH_stratMeshOrder, scotchfstratmeshorder_); }
      if (k == 10) { w = "stratGraphPartOvl"; t = bad(r.chance(0.5) ? "g" : "m{vert=20,low=r{sep=g},asc=f}"); go(SCOTCH_stratGraphPartOvl, scotchfstratgraphpartovl_); }
    }
  }
  desc("%s flag=%lx n=%ld bal=%g '%s'", w, (long)f, (long)n, bal, t.c_str()); same(ra, rb, w);
  if (ra == 0) { CHECK(stext(&a.s) == stext(&b.s), "strategy", "%s: Fortran builds another strategy: %s instead of %s", w, stext(&b.s).c_str(), stext(&a.s).c_str()); Fl g; int rc = -9; scotchfstratsave_(&b.s, &g.fd, &rc); same(0, rc, "stratSave"); eqs(stext(&a.s), g.get(), "stratSave"); H.nontrivial++; }
  S c; int rc = -9; scotchfstratinit_(&c, &rc); scotchfstratexit_(&c); sig(hash64(hashStr(t), hash64(k, f * 100 + n)));
}
static string gsave(const G* g) { Fl f; SCOTCH_graphSave(g, f.st("w")); return f.get(); }
static void idx(const Num* base, SCOTCH_Idx i, const Num* p, const Num* alt, const char* w) { const Num* e = p ? p : alt; CHECK(i == (SCOTCH_Idx)(e - base + 1), "index", "%s: index %ld is given for the array at index %ld", w, (long)i, (long)(e - base) + 1); }
static void caseGraph(Rng& r) {
  LG g = genGraph(r, 60); addWeights(r, g, false); if (r.chance(0.4)) addLabels(r, g, 1); PG p; randomPG(r, p, g); int rc = -9, k; desc("%s", showLG(g).c_str());
  Num n = (Num)g.n, m = (Num)g.arcs(); OBJ(G, q, SCOTCH_graphSizeof); scotchfgraphsizeof_(&k); CHECK(k == SCOTCH_graphSizeof(), "sizeof", "graphSizeof: %d", k);
  scotchfgraphinit_(q, &rc); same(0, rc, "graphInit"); rc = -9;
  scotchfgraphbuild_(q, &p.base, &n, p.vert.p, p.vend.p ? p.vend.p : p.vert.p + 1, p.velo.p ? p.velo.p : p.vert.p, p.vlbl.p ? p.vlbl.p : p.vert.p, &m, p.edge.p, p.edlo.p ? p.edlo.p : p.edge.p, &rc); same(0, rc, "graphBuild");
  eqs(gsave(p.gr), gsave(q), "graphBuild"); rc = -9; scotchfgraphcheck_(q, &rc); same(SCOTCH_graphCheck(p.gr), rc, "graphCheck");
  Num a = -5, b = -5, b2, n2, m2, *vt, *ve, *vl, *lb, *et, *el; scotchfgraphsize_(q, &a, &b); CHECK(a == n && b == m, "result", "graphSize gives %ld %ld", (long)a, (long)b); feat("call:graphSize");
  SCOTCH_graphData(q, &b2, &n2, &vt, &ve, &vl, &lb, &m2, &et, &el); SCOTCH_Idx x[6]; Num d[3]; Num* org = p.vert.p;
  scotchfgraphdata_(q, org, &d[0], &d[1], &x[0], &x[1], &x[2], &x[3], &d[2], &x[4], &x[5]); CHECK(d[0] == b2 && d[1] == n2 && d[2] == m2, "result", "graphData gives other sizes"); feat("call:graphData");
  idx(org, x[0], vt, vt, "verttab"); idx(org, x[1], ve, ve, "vendtab"); idx(org, x[2], vl, vt, "velotab"); idx(org, x[3], lb, vt, "vlbltab"); idx(org, x[4], et, et, "edgetab"); idx(org, x[5], el, et, "edlotab");
  { Num s[8], t[8]; double e[6], f[6]; SCOTCH_graphStat(p.gr, s, s + 1, s + 2, e, e + 1, s + 3, s + 4, e + 2, e + 3, s + 5, s + 6, s + 7, e + 4, e + 5); scotchfgraphstat_(q, t, t + 1, t + 2, f, f + 1, t + 3, t + 4, f + 2, f + 3, t + 5, t + 6, t + 7, f + 4, f + 5);
    for (int i = 0; i < 8; i++) CHECK(s[i] == t[i], "result", "graphStat: integer %d is %ld and not %ld", i, (long)t[i], (long)s[i]); for (int i = 0; i < 6; i++) CHECK(e[i] == f[i] || (e[i] != e[i] && f[i] != f[i]), "result", "graphStat: double %d is %g and not %g", i, f[i], e[i]); feat("call:graphStat"); }
  { Fl f; rc = -9; scotchfgraphsave_(q, &f.fd, &rc); same(0, rc, "graphSave"); string t = f.get(); eqs(gsave(p.gr), t, "graphSave");
    if (r.chance(0.3) && !t.empty()) t.resize(r.below(t.size())); Num nb = (Num)r.range(-1, 1), fl = (Num)r.below(4); OBJ(G, u, SCOTCH_graphSizeof); OBJ(G, v, SCOTCH_graphSizeof); SCOTCH_graphInit(u); SCOTCH_graphInit(v); Fl f1(t), f2(t); int r1 = SCOTCH_graphLoad(u, f1.st("r"), nb, fl), r2 = -9; scotchfgraphload_(v, &f2.fd, &nb, &fl, &r2); same(r1, r2, "graphLoad"); if (r1 == 0) eqs(gsave(u), gsave(v), "graphLoad"); SCOTCH_graphExit(u); scotchfgraphexit_(v); }
  int bad = -1; rc = 0; scotchfgraphsave_(q, &bad, &rc); CHECK(rc != 0, "error-code", "graphSave on a closed handle succeeds");
  { Num nb = (Num)r.below(3), ob = -7, cur = -7; scotchfgraphbase_(q, &nb, &ob); SCOTCH_graphData(q, &cur, 0, 0, 0, 0, 0, 0, 0, 0); CHECK(ob == p.base && cur == nb, "result", "graphBase from %ld to %ld returns %ld and leaves base %ld", (long)p.base, (long)nb, (long)ob, (long)cur); SCOTCH_graphBase(q, p.base); feat("call:graphBase"); }
  if (r.chance(0.5)) { scotchfgraphfree_(q); feat("call:graphFree"); } else scotchfgraphexit_(q); if (g.arcs()) H.nontrivial++; sig(hashLG(g));
}
static void caseGeom(Rng& r) {
  LG g = genGraph(r, 40); PG p; p.layout(r, g, 1, true); p.build(); int dim = (int)r.range(1, 3), rc = -9; string ge = fmt("%d\n%ld\n", dim, g.n); for (long v = 0; v < g.n; v++) { ge += fmt("%ld", v + 1); for (int d = 0; d < dim; d++) ge += fmt(" %.2f", (double)r.range(-500, 500) / 4); ge += "\n"; }
  int k = (int)r.below(3); static const char* w[] = {"graphGeomLoadScot", "graphGeomLoadChac", "graphGeomLoadMmkt"}; if (g.n < 1) return; desc("%s %s dim=%d", w[k], showLG(g).c_str(), dim);
  if (k == 2) return (void)feat("skip");                  // MatrixMarket saving is checked through the other routines
  Fl a, b, ga, gb; OBJ(Q, q, SCOTCH_geomSizeof); OBJ(Q, z, SCOTCH_geomSizeof); int s; scotchfgeomsizeof_(&s); CHECK(s == SCOTCH_geomSizeof(), "sizeof", "geomSizeof"); SCOTCH_geomInit(q); scotchfgeominit_(z, &rc); same(0, rc, "geomInit");
  OBJ(G, u, SCOTCH_graphSizeof); OBJ(G, v, SCOTCH_graphSizeof); SCOTCH_graphInit(u); SCOTCH_graphInit(v); rc = -9; int ra;
  if (k == 0) {
    string t = gsave(p.gr); Fl f1(t), f2(t), h1(ge), h2(ge); ra = SCOTCH_graphGeomLoadScot(u, q, f1.st("r"), h1.st("r"), nullptr); scotchfgraphgeomloadscot_(v, z, &f2.fd, &h2.fd, "", &rc, 0); same(ra, rc, w[0]);
    if (ra == 0) { eqs(gsave(u), gsave(v), w[0]); Num d1, d2; double* t1; SCOTCH_geomData(q, &d1, &t1); double* t2; SCOTCH_geomData(z, &d2, &t2); double org[1]; SCOTCH_Idx ix = 0; Num d3 = -1; scotchfgeomdata_(z, t2 ? t2 - 3 : org, &d3, &ix); CHECK(d1 == d2 && d3 == d1, "result", "geomData: dimension %ld and not %ld", (long)d3, (long)d1); if (t2) CHECK(ix == 4, "index", "geomData: index %ld", (long)ix); feat("call:geomData");
      for (long i = 0; i < g.n * d1; i++) CHECK(t1[i] == t2[i], "result", "geometry differs");
      ra = SCOTCH_graphGeomSaveScot(u, q, a.st("w"), ga.st("w"), nullptr); scotchfgraphgeomsavescot_(v, z, &b.fd, &gb.fd, "", &rc, 0); same(ra, rc, "graphGeomSaveScot"); eqs(a.get(), b.get(), "graphGeomSaveScot"); eqs(ga.get(), gb.get(), "graphGeomSaveScot"); H.nontrivial++; }
  }
  else {
    ra = SCOTCH_graphGeomSaveChac(p.gr, q, a.st("w"), ga.st("w"), nullptr); scotchfgraphgeomsavechac_(p.gr, z, &b.fd, &gb.fd, "", &rc, 0); same(ra, rc, "graphGeomSaveChac"); string t = a.get(); eqs(t, b.get(), "graphGeomSaveChac");
    Fl f1(t), f2(t), h1(""), h2(""); ra = SCOTCH_graphGeomLoadChac(u, q, f1.st("r"), h1.st("r"), nullptr); scotchfgraphgeomloadchac_(v, z, &f2.fd, &h2.fd, "", &rc, 0); same(ra, rc, w[1]); if (ra == 0) eqs(gsave(u), gsave(v), w[1]);
    Fl c, d, gc, gd; ra = SCOTCH_graphGeomSaveMmkt(p.gr, q, c.st("w"), gc.st("w"), nullptr); rc = -9; scotchfgraphgeomsavemmkt_(p.gr, z, &d.fd, &gd.fd, "", &rc, 0); same(ra, rc, "graphGeomSaveMmkt"); string t2 = c.get(); eqs(t2, d.get(), "graphGeomSaveMmkt");
    OBJ(G, u2, SCOTCH_graphSizeof); OBJ(G, v2, SCOTCH_graphSizeof); SCOTCH_graphInit(u2); SCOTCH_graphInit(v2); Fl f3(t2), f4(t2), h3(""), h4(""); ra = SCOTCH_graphGeomLoadMmkt(u2, q, f3.st("r"), h3.st("r"), nullptr); rc = -9; scotchfgraphgeomloadmmkt_(v2, z, &f4.fd, &h4.fd, "", &rc, 0); same(ra, rc, w[2]); if (ra == 0) eqs(gsave(u2), gsave(v2), w[2]); SCOTCH_graphExit(u2); SCOTCH_graphExit(v2); H.nontrivial++;
  }
  SCOTCH_graphExit(u); SCOTCH_graphExit(v); SCOTCH_geomExit(q); scotchfgeomexit_(z); sig(hash64(hashLG(g), k));
}
static void caseMap(Rng& r) {
  LG g = genGraph(r, 80); addWeights(r, g, false); PG p; randomPG(r, p, g); if (g.n < 1) return; auto h = genArch(r, 12, false); Num k = (Num)SCOTCH_archSize(h->a); StratT s; Num np = (Num)r.range(1, 9); Num flg = r.chance(0.5) ? SCOTCH_STRATDEFAULT : SCOTCH_STRATRECURSIVE; bool ds = r.chance(0.3); if (!ds) SCOTCH_stratGraphMapBuild(&s.s, flg, 4, 0.05);
  double em = 0.1 * (double)r.range(0, 30); vector<Num> vm = rndv(r, g.n, 0, 5); bool usevm = r.chance(0.7); int op = (int)r.below(14); static const char* w[] = {"graphMap", "graphMapFixed", "graphRemap", "graphRemapFixed", "graphPart", "graphPartFixed", "graphRepart", "graphRepartFixed", "graphPartOvl", "graphMapCompute", "graphMapFixedCompute", "graphRemapCompute", "graphRemapFixedCompute", "graphMapIo"};
  bool part = op >= 4 && op <= 8; Num sz = part ? np : k; StratT so; S* st = op == 8 ? &so.s : &s.s; desc("%s %s on %s size %ld", w[op], showLG(g).c_str(), part ? "parts" : h->name.c_str(), (long)sz);
  vector<Num> old = rndv(r, g.n, 0, sz - 1), ini(g.n, 0); bool fixed = op == 1 || op == 3 || op == 5 || op == 7 || op == 10 || op == 12; if (fixed) for (auto& x : ini) x = r.chance(0.3) ? (Num)r.below(sz) : -1; for (auto& x : old) if (r.chance(0.1)) x = -1;
  Buf ta, tb, oa, ob, va; ta.set(ini); tb.set(ini); oa.set(old); ob.set(old); va.set(vm); Num* vmp = usevm ? va.p : nullptr; auto vmf = [&](Num* o) { return usevm ? va.p : nullptr; }; int ra = -8, rb = -9; G* q = p.gr;
  rnd();
  if (op == 0) ra = SCOTCH_graphMap(q, h->a, st, ta.p); if (op == 1) ra = SCOTCH_graphMapFixed(q, h->a, st, ta.p); if (op == 2) ra = SCOTCH_graphRemap(q, h->a, oa.p, em, vmp, st, ta.p); if (op == 3) ra = SCOTCH_graphRemapFixed(q, h->a, oa.p, em, vmp, st, ta.p);
  if (op == 4) ra = SCOTCH_graphPart(q, np, st, ta.p); if (op == 5) ra = SCOTCH_graphPartFixed(q, np, st, ta.p); if (op == 6) ra = SCOTCH_graphRepart(q, np, oa.p, em, vmp, st, ta.p); if (op == 7) ra = SCOTCH_graphRepartFixed(q, np, oa.p, em, vmp, st, ta.p); if (op == 8) ra = SCOTCH_graphPartOvl(q, np, st, ta.p);
  M m, mo; string ia, ib;
  auto cmp = [&](bool f) { int rc = 0; Fl fs, ft; if (!f) {
      mustOk(SCOTCH_graphMapInit(q, &m, h->a, ta.p), "graphMapInit"); mustOk(SCOTCH_graphMapInit(q, &mo, h->a, oa.p), "graphMapInit"); rc = op == 9 ? SCOTCH_graphMapCompute(q, &m, st) : op == 10 ? SCOTCH_graphMapFixedCompute(q, &m, st) : op == 11 ? SCOTCH_graphRemapCompute(q, &m, &mo, em, vmp, st) : op == 12 ? SCOTCH_graphRemapFixedCompute(q, &m, &mo, em, vmp, st) : 0;
      SCOTCH_graphMapSave(q, &m, fs.st("w")); if (op != 13 && op != 9 && op != 10) ; else SCOTCH_graphMapView(q, &m, ft.st("w")); ia = fs.get() + "|" + ft.get(); SCOTCH_graphMapExit(q, &m); SCOTCH_graphMapExit(q, &mo); }
    else { int e = -9; scotchfgraphmapinit_(q, &m, h->a, tb.p, &e); same(0, e, "graphMapInit"); e = -9; scotchfgraphmapinit_(q, &mo, h->a, ob.p, &e); rc = -9; if (op == 9) scotchfgraphmapcompute_(q, &m, st, &rc); if (op == 10) scotchfgraphmapfixedcompute_(q, &m, st, &rc); if (op == 11) scotchfgraphremapcompute_(q, &m, &mo, &em, vmp, st, &rc); if (op == 12) scotchfgraphremapfixedcompute_(q, &m, &mo, &em, vmp, st, &rc); if (op == 13) rc = 0;
      e = -9; scotchfgraphmapsave_(q, &m, &fs.fd, &e); same(0, e, "graphMapSave"); if (op != 13 && op != 9 && op != 10) ; else { e = -9; scotchfgraphmapview_(q, &m, &ft.fd, &e); same(0, e, "graphMapView"); } ib = fs.get() + "|" + ft.get(); scotchfgraphmapexit_(q, &m); scotchfgraphmapexit_(q, &mo); }
    return rc; };
  if (op >= 9) ra = cmp(false);
  rnd();
  if (op == 0) scotchfgraphmap_(q, h->a, st, tb.p, &rb); if (op == 1) scotchfgraphmapfixed_(q, h->a, st, tb.p, &rb); if (op == 2) scotchfgraphremap_(q, h->a, ob.p, &em, vmp, st, tb.p, &rb); if (op == 3) scotchfgraphremapfixed_(q, h->a, ob.p, &em, vmp, st, tb.p, &rb);
  if (op == 4) scotchfgraphpart_(q, &np, st, tb.p, &rb); if (op == 5) scotchfgraphpartfixed_(q, &np, st, tb.p, &rb); if (op == 6) scotchfgraphrepart_(q, &np, ob.p, &em, vmp, st, tb.p, &rb); if (op == 7) scotchfgraphrepartfixed_(q, &np, ob.p, &em, vmp, st, tb.p, &rb); if (op == 8) scotchfgraphpartovl_(q, &np, st, tb.p, &rb);
  if (op >= 9) rb = cmp(true);
  same(ra, rb, w[op]); if (ra == 0) { eq(ta.vec(), tb.vec(), w[op]); if (op >= 9) eqs(ia, ib, w[op]); H.nontrivial++; } sig(hash64(hashLG(g), op));
  Fl f1, f2; int e = -9; mustOk(SCOTCH_graphTabSave(q, ta.p, f1.st("w")), "graphTabSave"); scotchfgraphtabsave_(q, ta.p, &f2.fd, &e); same(0, e, "graphTabSave"); string t = f1.get(); eqs(t, f2.get(), "graphTabSave"); Fl f3(t), f4(t); Buf xa, xb; xa.set(vector<Num>(g.n, -3)); xb.set(vector<Num>(g.n, -3)); int e1 = SCOTCH_graphTabLoad(q, xa.p, f3.st("r")); e = -9; scotchfgraphtabload_(q, xb.p, &f4.fd, &e); same(e1, e, "graphTabLoad"); eq(xa.vec(), xb.vec(), "graphTabLoad");
  if (op == 13) { M m1; int z = -9; Buf l1, l2; l1.set(vector<Num>(g.n, 0)); l2.set(vector<Num>(g.n, 0)); SCOTCH_graphMapInit(q, &m1, h->a, l1.p); Fl i1(t), i2(t); int z1 = SCOTCH_graphMapLoad(q, &m1, i1.st("r")); SCOTCH_graphMapExit(q, &m1); SCOTCH_graphMapInit(q, &m1, h->a, l2.p); scotchfgraphmapload_(q, &m1, &i2.fd, &z); SCOTCH_graphMapExit(q, &m1); same(z1, z, "graphMapLoad"); eq(l1.vec(), l2.vec(), "graphMapLoad"); }
  p.checkUntouched(w[op]);
}
struct OT { Buf p, q, r, t; Num c = -4; OT(long n) { vector<Num> z(n, -7), y(n + 1, -7); p.set(z); q.set(z); r.set(y); t.set(z); } bool operator==(const OT& o) const { return c == o.c && p.vec() == o.p.vec() && q.vec() == o.q.vec() && r.vec() == o.r.vec() && t.vec() == o.t.vec(); } };
static void caseOrder(Rng& r) {
  LG g = genGraph(r, 80); if (r.chance(0.5)) addWeights(r, g, false); PG p; randomPG(r, p, g); if (g.n < 1) return; StratT s; if (r.chance(0.6)) SCOTCH_stratGraphOrderBuild(&s.s, SCOTCH_STRATLEVELMAX | SCOTCH_STRATLEVELMIN, (Num)r.below(5), 0.2); int op = (int)r.below(3); OT a(g.n), b(g.n); int ra, rb = -9; G* q = p.gr; vector<Num> l; for (long v = 0; v < g.n; v++) if (r.chance(0.6)) l.push_back((Num)v + p.base); Num ln = (Num)l.size(); if (!ln) { l.push_back(p.base); ln = 1; } Buf lb; lb.set(l);
  static const char* w[] = {"graphOrder", "graphOrderList", "graphOrderCompute"}; desc("%s %s", w[op], showLG(g).c_str());
  rnd();
  if (op == 0) { ra = SCOTCH_graphOrder(q, &s.s, a.p.p, a.q.p, &a.c, a.r.p, a.t.p); rnd(); scotchfgraphorder_(q, &s.s, b.p.p, b.q.p, &b.c, b.r.p, b.t.p, &rb); }
  else if (op == 1) { ra = SCOTCH_graphOrderList(q, ln, lb.p, &s.s, a.p.p, a.q.p, &a.c, a.r.p, a.t.p); rnd(); scotchfgraphorderlist_(q, &ln, lb.p, &s.s, b.p.p, b.q.p, &b.c, b.r.p, b.t.p, &rb); }
  else {
    bool lst = r.chance(0.4); O o, y; mustOk(SCOTCH_graphOrderInit(q, &o, a.p.p, a.q.p, &a.c, a.r.p, a.t.p), "graphOrderInit"); ra = lst ? SCOTCH_graphOrderComputeList(q, &o, ln, lb.p, &s.s) : SCOTCH_graphOrderCompute(q, &o, &s.s); int e = -9; scotchfgraphorderinit_(q, &y, b.p.p, b.q.p, &b.c, b.r.p, b.t.p, &e); same(0, e, "graphOrderInit"); rnd(); if (lst) scotchfgraphordercomputelist_(q, &y, &ln, lb.p, &s.s, &rb); else scotchfgraphordercompute_(q, &y, &s.s, &rb);
    if (ra == 0 && rb == 0) { e = -9; scotchfgraphordercheck_(q, &y, &e); same(SCOTCH_graphOrderCheck(q, &o), e, "graphOrderCheck"); Fl f[6]; SCOTCH_graphOrderSave(q, &o, f[0].st("w")); SCOTCH_graphOrderSaveMap(q, &o, f[1].st("w")); SCOTCH_graphOrderSaveTree(q, &o, f[2].st("w")); int e3[3] = {-9, -9, -9}; scotchfgraphordersave_(q, &y, &f[3].fd, e3); scotchfgraphordersavemap_(q, &y, &f[4].fd, e3 + 1); scotchfgraphordersavetree_(q, &y, &f[5].fd, e3 + 2); static const char* z[] = {"graphOrderSave", "graphOrderSaveMap", "graphOrderSaveTree"}; for (int i = 0; i < 3; i++) { same(0, e3[i], z[i]); eqs(f[i].get(), f[3 + i].get(), z[i]); } }
    SCOTCH_graphOrderExit(q, &o); scotchfgraphorderexit_(q, &y);
  }
  same(ra, rb, w[op]); if (ra == 0) { CHECK(a == b, "result", "%s: Fortran gives another ordering", w[op]); if (g.arcs()) H.nontrivial++; } sig(hash64(hashLG(g), op));
}
static void caseOps(Rng& r) {
  LG g = genGraph(r, 80); addWeights(r, g, false); PG p; randomPG(r, p, g); if (g.n < 1) return; G* q = p.gr; int op = (int)r.below(6); int ra, rb = -9; static const char* w[] = {"graphCoarsen", "graphCoarsenMatch", "graphColor", "graphDiamPV", "graphInduceList", "graphInducePart"}; desc("%s %s", w[op], showLG(g).c_str());
  OBJ(G, u, SCOTCH_graphSizeof); OBJ(G, v, SCOTCH_graphSizeof); SCOTCH_graphInit(u); SCOTCH_graphInit(v); Num cn = (Num)r.range(1, g.n), fl = r.chance(0.5) ? SCOTCH_COARSENNOMERGE : SCOTCH_COARSENNONE; double rat = 0.6 + 0.4 * r.unit(); Buf a, b; vector<Num> z(2 * g.n, -7); a.set(z); b.set(z);
  if (op == 0) { rnd(); ra = SCOTCH_graphCoarsen(q, cn, rat, fl, u, a.p); rnd(); scotchfgraphcoarsen_(q, &cn, &rat, &fl, v, b.p, &rb); same(ra, rb, w[op]); if (ra == 0) { eqs(gsave(u), gsave(v), w[op]); eq(a.vec(), b.vec(), w[op]); H.nontrivial++; } }
  else if (op == 1) { Num c1 = cn, c2 = cn; rnd(); ra = SCOTCH_graphCoarsenMatch(q, &c1, rat, fl, a.p); rnd(); scotchfgraphcoarsenmatch_(q, &c2, &rat, &fl, b.p, &rb); same(ra, rb, w[op]); if (ra == 0) { CHECK(c1 == c2, "result", "graphCoarsenMatch: %ld and not %ld", (long)c2, (long)c1); eq(a.vec(), b.vec(), w[op]); Buf ma, mb; ma.set(vector<Num>(2 * c1, -7)); mb.set(vector<Num>(2 * c1, -7)); int e1 = SCOTCH_graphCoarsenBuild(q, c1, a.p, u, ma.p), e2 = -9; scotchfgraphcoarsenbuild_(q, &c2, b.p, v, mb.p, &e2); same(e1, e2, "graphCoarsenBuild"); if (e1 == 0) { eqs(gsave(u), gsave(v), "graphCoarsenBuild"); eq(ma.vec(), mb.vec(), "graphCoarsenBuild"); } H.nontrivial++; } }
  else if (op == 2) { Num c1 = -1, c2 = -1, f0 = 0; rnd(); ra = SCOTCH_graphColor(q, a.p, &c1, 0); rnd(); scotchfgraphcolor_(q, b.p, &c2, &f0, &rb); same(ra, rb, w[op]); CHECK(c1 == c2, "result", "graphColor: %ld and not %ld", (long)c2, (long)c1); eq(a.vec(), b.vec(), w[op]); H.nontrivial++; }
  else if (op == 3) { rnd(); Num d1 = SCOTCH_graphDiamPV(q), d2 = -9; rnd(); scotchfgraphdiampv_(q, &d2); CHECK(d1 == d2, "result", "graphDiamPV: %ld and not %ld", (long)d2, (long)d1); feat("call:graphDiamPV"); H.nontrivial++; }
  else if (op == 4) { vector<Num> l; for (long x = 0; x < g.n; x++) if (r.chance(0.5)) l.push_back((Num)x + p.base); r.shuffle(l); Num ln = (Num)l.size(); Buf lb; lb.set(l); ra = SCOTCH_graphInduceList(q, ln, lb.p, u); scotchfgraphinducelist_(q, &ln, lb.p, v, &rb); same(ra, rb, w[op]); if (ra == 0 && ln) { eqs(gsave(u), gsave(v), w[op]); H.nontrivial++; } }
  else { vector<SCOTCH_GraphPart2> pt(g.n); Num c = 0; for (auto& x : pt) { x = (SCOTCH_GraphPart2)r.below(2); c += x == 1; } SCOTCH_GraphPart2 one = 1; ra = SCOTCH_graphInducePart(q, c, pt.data(), 1, u); scotchfgraphinducepart_(q, &c, pt.data(), &one, v, &rb); same(ra, rb, w[op]); if (ra == 0 && c) { eqs(gsave(u), gsave(v), w[op]); H.nontrivial++; } }
  SCOTCH_graphExit(u); SCOTCH_graphExit(v); sig(hash64(hashLG(g), op));
}
static string asave(A* a) { Fl f; SCOTCH_archSave(a, f.st("w")); return f.get(); }
static void caseArch(Rng& r) {
  OBJ(A, a, SCOTCH_archSizeof); OBJ(A, b, SCOTCH_archSizeof); int s, rc = -9, ra = 0, rb = -9; scotchfarchsizeof_(&s); CHECK(s == SCOTCH_archSizeof(), "sizeof", "archSizeof"); scotchfarchdomsizeof_(&s); CHECK(s == SCOTCH_archDomSizeof(), "sizeof", "archDomSizeof"); SCOTCH_archInit(a); scotchfarchinit_(b, &rc); same(0, rc, "archInit");
  int k = (int)r.below(12); Num x = (Num)r.range(1, 6), y = (Num)r.range(1, 5), z = (Num)r.range(1, 4); vector<Num> wv = rndv(r, x, 1, 9), dv = rndv(r, y, 1, 3), sv = rndv(r, z, 1, 3), lv = rndv(r, z, 1, 9); static const char* w[] = {"archCmplt", "archCmpltw", "archHcub", "archMesh2", "archMesh3", "archMeshX", "archTorus2", "archTorus3", "archTorusX", "archTleaf", "archVcmplt", "archVhcub"}; bool var = k >= 10; desc("%s %ld %ld %ld", w[k], (long)x, (long)y, (long)z);
  switch (k) {
    case 0: ra = SCOTCH_archCmplt(a, x); scotchfarchcmplt_(b, &x, &rb); break; case 1: ra = SCOTCH_archCmpltw(a, x, wv.data()); scotchfarchcmpltw_(b, &x, wv.data(), &rb); break; case 2: ra = SCOTCH_archHcub(a, x); scotchfarchhcub_(b, &x, &rb); break;
    case 3: ra = SCOTCH_archMesh2(a, x, y); scotchfarchmesh2_(b, &x, &y, &rb); break; case 4: ra = SCOTCH_archMesh3(a, x, y, z); scotchfarchmesh3_(b, &x, &y, &z, &rb); break; case 5: ra = SCOTCH_archMeshX(a, y, dv.data()); scotchfarchmeshx_(b, &y, dv.data(), &rb); break;
    case 6: ra = SCOTCH_archTorus2(a, x, y); scotchfarchtorus2_(b, &x, &y, &rb); break; case 7: ra = SCOTCH_archTorus3(a, x, y, z); scotchfarchtorus3_(b, &x, &y, &z, &rb); break; case 8: ra = SCOTCH_archTorusX(a, y, dv.data()); scotchfarchtorusx_(b, &y, dv.data(), &rb); break;
    case 9: ra = SCOTCH_archTleaf(a, z, sv.data(), lv.data()); scotchfarchtleaf_(b, &z, sv.data(), lv.data(), &rb); break; case 10: ra = SCOTCH_archVcmplt(a); scotchfarchvcmplt_(b, &rb); break; default: ra = SCOTCH_archVhcub(a); scotchfarchvhcub_(b, &rb);
  }
  same(ra, rb, w[k]); if (ra != 0) { SCOTCH_archExit(a); scotchfarchexit_(b); return; } eqs(asave(a), asave(b), w[k]);
  { Fl f; rc = -9; scotchfarchsave_(b, &f.fd, &rc); same(0, rc, "archSave"); string t = f.get(); eqs(asave(a), t, "archSave"); if (r.chance(0.3)) t = t.substr(0, r.below(t.size())); OBJ(A, c, SCOTCH_archSizeof); OBJ(A, d, SCOTCH_archSizeof); SCOTCH_archInit(c); SCOTCH_archInit(d); Fl f1(t), f2(t); int r1 = SCOTCH_archLoad(c, f1.st("r")), r2 = -9; scotchfarchload_(d, &f2.fd, &r2); same(r1, r2, "archLoad"); if (r1 == 0) eqs(asave(c), asave(d), "archLoad"); SCOTCH_archExit(c); SCOTCH_archExit(d); }
  { char nm[64]; memset(nm, '@', 64); int len = (int)r.range(1, 40); string o = SCOTCH_archName(a); scotchfarchname_(b, nm, &len); for (int i = 0; i < len && i < (int)o.size(); i++) CHECK(nm[i] == o[i], "result", "archName: character %d", i); for (int i = len; i < 64; i++) CHECK(nm[i] == '@', "overrun", "archName writes character %d of a string of length %d", i, len); feat("call:archName"); }
  int v = -9; scotchfarchvar_(b, &v); CHECK((v != 0) == (SCOTCH_archVar(a) != 0) && (v != 0) == var, "result", "archVar gives %d", v); s = -9; scotchfarchsize_(b, &s); if (!var) CHECK(s == SCOTCH_archSize(a), "result", "archSize gives %d", s);
  D* d = (D*)calloc(6, SCOTCH_archDomSizeof()); auto at = [&](int i) { return (D*)((char*)d + (size_t)i * SCOTCH_archDomSizeof()); };
  ra = SCOTCH_archDomFrst(a, at(0)); rb = -9; scotchfarchdomfrst_(b, at(1), &rb); same(ra, rb, "archDomFrst");
  for (int i = 0; i < 12; i++) {
    Num n1 = SCOTCH_archDomNum(a, at(0)), n2 = -9; scotchfarchdomnum_(b, at(1), &n2); CHECK(n1 == n2, "result", "archDomNum: %ld and not %ld", (long)n2, (long)n1); n1 = SCOTCH_archDomSize(a, at(0)); scotchfarchdomsize_(b, at(1), &n2); CHECK(n1 == n2, "result", "archDomSize: %ld and not %ld", (long)n2, (long)n1); n1 = SCOTCH_archDomWght(a, at(0)); scotchfarchdomwght_(b, at(1), &n2); CHECK(n1 == n2, "result", "archDomWght: %ld and not %ld", (long)n2, (long)n1);
    ra = SCOTCH_archDomBipart(a, at(0), at(2), at(3)); rb = -9; scotchfarchdombipart_(b, at(1), at(4), at(5), &rb); same(ra, rb, "archDomBipart"); if (ra != 0) break;
    n1 = SCOTCH_archDomDist(a, at(2), at(3)); scotchfarchdomdist_(b, at(4), at(5), &n2); CHECK(n1 == n2, "result", "archDomDist: %ld and not %ld", (long)n2, (long)n1); int c = (int)r.below(2); memcpy(at(0), at(2 + c), SCOTCH_archDomSizeof()); memcpy(at(1), at(4 + c), SCOTCH_archDomSizeof()); feat("call:archDom");
  }
  Num t = (Num)r.below(30); if (!var) t = (Num)(t % s); ra = SCOTCH_archDomTerm(a, at(0), t); rb = -9; scotchfarchdomterm_(b, at(1), &t, &rb); same(ra, rb, "archDomTerm"); if (ra == 0) { Num n2 = -9; scotchfarchdomnum_(b, at(1), &n2); CHECK(SCOTCH_archDomNum(a, at(0)) == n2, "result", "archDomTerm gives another domain"); }
  free(d);
  if (!var && s > 1) { vector<Num> l; for (int i = 0; i < s; i++) if (r.chance(0.6)) l.push_back(i); if (l.empty()) l.push_back(0); r.shuffle(l); Num ln = (Num)l.size(); OBJ(A, e, SCOTCH_archSizeof); OBJ(A, f, SCOTCH_archSizeof); SCOTCH_archInit(e); SCOTCH_archInit(f); ra = SCOTCH_archSub(e, a, ln, l.data()); rb = -9; scotchfarchsub_(f, b, &ln, l.data(), &rb); same(ra, rb, "archSub"); if (ra == 0) { eqs(asave(e), asave(f), "archSub"); } SCOTCH_archExit(e); SCOTCH_archExit(f); }
  if (r.chance(0.3)) { LG g = genGraph(r, 20, 0); if (g.n > 1) { PG p; p.layout(r, g, 0, true); p.build(); vector<Num> l; for (long i = 0; i < g.n; i++) if (r.chance(0.5)) l.push_back((Num)i); if (l.empty()) l.push_back(0); Num ln = (Num)l.size(); OBJ(A, e, SCOTCH_archSizeof); OBJ(A, f, SCOTCH_archSizeof); SCOTCH_archInit(e); SCOTCH_archInit(f); StratT st; rnd(); ra = SCOTCH_archBuild(e, p.gr, ln, l.data(), &st.s); rnd(); rb = -9; scotchfarchbuild_(f, p.gr, &ln, l.data(), &st.s, &rb); same(ra, rb, "archBuild"); if (ra == 0) eqs(asave(e), asave(f), "archBuild"); SCOTCH_archExit(e); SCOTCH_archExit(f); } }
  SCOTCH_archExit(a); scotchfarchexit_(b); H.nontrivial++; sig(hash64(k, x * 10000 + y * 100 + z));
}
static string msave(const X* m) { Fl f; SCOTCH_meshSave(m, f.st("w")); return f.get(); }
static void caseMesh(Rng& r) {
  LM m = genMesh(r, 40); PM p; randomPM(r, p, m); int rc = -9, s; if (m.ne + m.nn < 2) return; desc("%s", showLM(m).c_str()); OBJ(X, q, SCOTCH_meshSizeof); scotchfmeshsizeof_(&s); CHECK(s == SCOTCH_meshSizeof(), "sizeof", "meshSizeof"); scotchfmeshinit_(q, &rc); same(0, rc, "meshInit"); Num ne = (Num)m.ne, nn = (Num)m.nn, en = (Num)m.arcs();
  rc = -9; scotchfmeshbuild_(q, &p.ebas, &p.nbas, &ne, &nn, p.vert.p, p.vend.p ? p.vend.p : p.vert.p + 1, p.velo.p ? p.velo.p : p.vert.p, p.vnlo.p ? p.vnlo.p : p.vert.p, p.vlbl.p ? p.vlbl.p : p.vert.p, &en, p.edge.p, &rc); same(0, rc, "meshBuild"); eqs(msave(p.me), msave(q), "meshBuild"); rc = -9; scotchfmeshcheck_(q, &rc); same(SCOTCH_meshCheck(p.me), rc, "meshCheck");
  Num a, b, c; scotchfmeshsize_(q, &a, &b, &c); CHECK(a == ne && b == nn && c == en, "result", "meshSize gives %ld %ld %ld", (long)a, (long)b, (long)c);
  { Num d[6], e[6], *t[6]; SCOTCH_Idx x[6]; SCOTCH_meshData(q, d, d + 1, d + 2, d + 3, &t[0], &t[1], &t[2], &t[3], &t[4], d + 4, &t[5], d + 5); Num* o = p.vert.p; scotchfmeshdata_(q, o, e, e + 1, e + 2, e + 3, &x[0], &x[1], &x[2], &x[3], &x[4], e + 4, &x[5], e + 5); for (int i = 0; i < 6; i++) { CHECK(d[i] == e[i], "result", "meshData: integer %d is %ld and not %ld", i, (long)e[i], (long)d[i]); if (t[i]) idx(o, x[i], t[i], t[i], fmt("mesh array %d", i).c_str()); else idx(o, x[i], nullptr, t[0], "absent mesh array"); } feat("call:meshData"); }
  { Fl f; rc = -9; scotchfmeshsave_(q, &f.fd, &rc); same(0, rc, "meshSave"); string t = f.get(); eqs(msave(p.me), t, "meshSave"); if (r.chance(0.3)) t.resize(r.below(t.size())); Num nb = (Num)r.range(-1, 1); OBJ(X, u, SCOTCH_meshSizeof); OBJ(X, v, SCOTCH_meshSizeof); SCOTCH_meshInit(u); SCOTCH_meshInit(v); Fl f1(t), f2(t); int r1 = SCOTCH_meshLoad(u, f1.st("r"), nb), r2 = -9; scotchfmeshload_(v, &f2.fd, &nb, &r2); same(r1, r2, "meshLoad"); if (r1 == 0) eqs(msave(u), msave(v), "meshLoad"); SCOTCH_meshExit(u); scotchfmeshexit_(v); }
  { OBJ(G, u, SCOTCH_graphSizeof); OBJ(G, v, SCOTCH_graphSizeof); SCOTCH_graphInit(u); SCOTCH_graphInit(v); int r1, r2 = -9; Num nc = (Num)r.range(1, 3); bool du = r.chance(0.5); if (du) { r1 = SCOTCH_meshGraphDual(p.me, u, nc); scotchfmeshgraphdual_(q, v, &nc, &r2); } else { r1 = SCOTCH_meshGraph(p.me, u); scotchfmeshgraph_(q, v, &r2); } same(r1, r2, du ? "meshGraphDual" : "meshGraph"); if (r1 == 0) eqs(gsave(u), gsave(v), du ? "meshGraphDual" : "meshGraph"); SCOTCH_graphExit(u); SCOTCH_graphExit(v); }
  if (nn > 0) {
    StratT st; int op = (int)r.below(2); OT x(nn), y(nn); int r1, r2 = -9; rnd();
    if (op == 0) { r1 = SCOTCH_meshOrder(p.me, &st.s, x.p.p, x.q.p, &x.c, x.r.p, x.t.p); rnd(); scotchfmeshorder_(q, &st.s, y.p.p, y.q.p, &y.c, y.r.p, y.t.p, &r2); same(r1, r2, "meshOrder"); }
    else { O o, z; mustOk(SCOTCH_meshOrderInit(p.me, &o, x.p.p, x.q.p, &x.c, x.r.p, x.t.p), "meshOrderInit"); r1 = SCOTCH_meshOrderCompute(p.me, &o, &st.s); int e = -9; scotchfmeshorderinit_(q, &z, y.p.p, y.q.p, &y.c, y.r.p, y.t.p, &e); same(0, e, "meshOrderInit"); rnd(); scotchfmeshordercompute_(q, &z, &st.s, &r2); same(r1, r2, "meshOrderCompute");
      if (r1 == 0 && r2 == 0) { e = -9; scotchfmeshordercheck_(q, &z, &e); same(SCOTCH_meshOrderCheck(p.me, &o), e, "meshOrderCheck"); Fl f[6]; SCOTCH_meshOrderSave(p.me, &o, f[0].st("w")); SCOTCH_meshOrderSaveMap(p.me, &o, f[1].st("w")); SCOTCH_meshOrderSaveTree(p.me, &o, f[2].st("w")); int e3[3] = {-9, -9, -9}; scotchfmeshordersave_(q, &z, &f[3].fd, e3); scotchfmeshordersavemap_(q, &z, &f[4].fd, e3 + 1); scotchfmeshordersavetree_(q, &z, &f[5].fd, e3 + 2); static const char* w[] = {"meshOrderSave", "meshOrderSaveMap", "meshOrderSaveTree"}; for (int i = 0; i < 3; i++) { same(0, e3[i], w[i]); eqs(f[i].get(), f[3 + i].get(), w[i]); } }
      SCOTCH_meshOrderExit(p.me, &o); scotchfmeshorderexit_(q, &z); }
    if (r1 == 0) CHECK(x == y, "result", "mesh ordering: Fortran gives another ordering");
  }
  scotchfmeshexit_(q); H.nontrivial++; sig(hashLM(m)); p.checkUntouched("Fortran routine");
}
static void caseMisc(Rng& r) {
  Num sd = (Num)r.range(1, 1000000), mx = (Num)r.range(1, 100000); int pr = (int)r.below(9), ra = -9; desc("random seed=%ld proc=%d, context", (long)sd, pr);
  auto draw = [&](bool f) { vector<Num> v; for (int i = 0; i < 20; i++) { Num x = -9; if (f) scotchfrandomval_(&mx, &x); else x = SCOTCH_randomVal(mx); v.push_back(x); } return v; };
  SCOTCH_randomProc(pr); SCOTCH_randomSeed(sd); auto a = draw(false); Fl s1; SCOTCH_randomSave(s1.st("w")); auto a2 = draw(false); SCOTCH_randomReset(); SCOTCH_randomProc(0); SCOTCH_randomSeed(1);
  scotchfrandomproc_(&pr); scotchfrandomseed_(&sd); auto b = draw(true); eq(a, b, "randomSeed"); Fl s2; scotchfrandomsave_(&s2.fd, &ra); same(0, ra, "randomSave"); eqs(s1.get(), s2.get(), "randomSave"); auto b2 = draw(true); eq(a2, b2, "randomVal"); scotchfrandomreset_(); eq(a, draw(true), "randomReset"); Fl s3(s1.get()); ra = -9; scotchfrandomload_(&s3.fd, &ra); same(0, ra, "randomLoad"); eq(a2, draw(true), "randomLoad");
  int pz = 0; scotchfrandomproc_(&pz); SCOTCH_randomSeed(1);
  int v[3], f[3]; SCOTCH_version(v, v + 1, v + 2); scotchfversion_(f, f + 1, f + 2); for (int i = 0; i < 3; i++) CHECK(v[i] == f[i], "result", "version"); int z;
  OBJ(C, c, SCOTCH_contextSizeof); scotchfcontextsizeof_(&z); CHECK(z == SCOTCH_contextSizeof(), "sizeof", "contextSizeof"); ra = -9; scotchfcontextinit_(c, &ra); same(0, ra, "contextInit"); int th = (int)r.range(1, 3); ra = -9; scotchfcontextthreadspawn_(c, &th, (const int*)(C*)c, &ra); same(0, ra, "contextThreadSpawn"); ra = -9; scotchfcontextrandomclone_(c, &ra); same(0, ra, "contextRandomClone"); Num cs = (Num)r.range(1, 9999); scotchfcontextrandomseed_(c, &cs);
  int on = SCOTCH_OPTIONNUMDETERMINISTIC; Num ov = (Num)r.below(2), og = -9; ra = -9; scotchfcontextoptionsetnum_(c, &on, &ov, &ra); same(0, ra, "contextOptionSetNum"); ra = -9; scotchfcontextoptiongetnum_(c, &on, &og, &ra); same(0, ra, "contextOptionGetNum"); CHECK(og == ov, "result", "contextOptionGetNum gives %ld", (long)og);
  OBJ(C, d, SCOTCH_contextSizeof); mustOk(SCOTCH_contextInit(d), "contextInit"); mustOk(SCOTCH_contextThreadSpawn(d, 1, nullptr), "spawn"); mustOk(SCOTCH_contextRandomClone(d), "clone"); SCOTCH_contextRandomSeed(d, cs);
  if (th == 1) { LG g = genGraph(r, 60); PG p; randomPG(r, p, g); if (g.n > 0) { OBJ(G, u, SCOTCH_graphSizeof); OBJ(G, w, SCOTCH_graphSizeof); mustOk(SCOTCH_contextOptionSetNum(d, on, ov), "option"); ra = -9; scotchfcontextbindgraph_(c, p.gr, u, &ra); same(0, ra, "contextBindGraph"); mustOk(SCOTCH_contextBindGraph(d, p.gr, w), "contextBindGraph"); StratT s; Buf x, y; x.set(vector<Num>(g.n, -1)); y.set(vector<Num>(g.n, -1)); int r1 = SCOTCH_graphPart(w, 3, &s.s, x.p), r2 = SCOTCH_graphPart(u, 3, &s.s, y.p); same(r1, r2, "graphPart"); eq(x.vec(), y.vec(), "contextRandomSeed"); scotchfcontextrandomreset_(c); SCOTCH_contextRandomReset(d); r1 = SCOTCH_graphPart(w, 3, &s.s, x.p); r2 = SCOTCH_graphPart(u, 3, &s.s, y.p); eq(x.vec(), y.vec(), "contextRandomReset"); SCOTCH_graphExit(u); SCOTCH_graphExit(w); } }
  SCOTCH_contextExit(d); scotchfcontextexit_(c); H.nontrivial++; sig(hash64(sd, mx));
}
// Indices are compared modulo the size of SCOTCH_Idx, which is not wide enough for arrays far apart in the default build.
static void runCase(long, Rng& r) {
  setThreads(1); long n0 = nfd(); errClear(); SCOTCH_randomProc(0);
  switch (r.below(9)) { case 0: caseStrat(r); break; case 1: caseGraph(r); break; case 2: caseGeom(r); break; case 3: case 4: caseMap(r); break; case 5: caseOrder(r); break; case 6: caseOps(r); break; case 7: caseArch(r); break; default: if (r.chance(0.7)) caseMesh(r); else caseMisc(r); }
  CHECK(nfd() == n0, "handle-leak", "%ld files are open, and %ld before", nfd(), n0);
}
