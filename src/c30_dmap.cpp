// C30: distributed partitions are complete and balanced, saved as they are, and described by true statistics.
#include "dcommon.hpp"
#include "gendist.hpp"

static bool near(double a, double b, double rel = 1e-4) { return std::fabs(a - b) <= rel * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
#define CMP(name, got, want) CHECK(near((double)(got), (double)(want)), "stat-" name, name " reported %.9g, computed %.9g", (double)(got), (double)(want))
static void mmad(const vector<double>& v, double& mn, double& mx, double& sum, double& avg, double& dlt) {
  mn = mx = sum = avg = dlt = 0; if (v.empty()) return; mn = 1e30; mx = -1e30;
  for (auto x : v) { mn = std::min(mn, x); mx = std::max(mx, x); sum += x; } avg = sum / v.size(); for (auto x : v) dlt += std::fabs(x - avg); dlt /= v.size();
}
static double getNum(const string& t, const char* key, int occ = 0) {
  size_t p = t.find(key); CHECK(p != string::npos, "view-format", "field %s missing in: %s", key, t.c_str());
  p += strlen(key); while (occ-- > 0) { p = t.find_first_of("/(", p); CHECK(p != string::npos, "view-format", "field %s incomplete", key); p++; }
  return strtod(t.c_str() + p, nullptr);
}
static void dgraphStatCheck(Rng& r, const LG& g, DPG& d) {
  Num vmn = -7, vmx = -7, vsm = -7, dmn = -7, dmx = -7, emn = -7, emx = -7, esm = -7; double va = -7, vd = -7, da = -7, dd = -7, ea = -7, ed = -7;
  bool w[14]; for (bool& b : w) b = r.chance(0.85);
  mustOk(SCOTCH_dgraphStat(d.gr, w[0] ? &vmn : nullptr, w[1] ? &vmx : nullptr, w[2] ? &vsm : nullptr, w[3] ? &va : nullptr, w[4] ? &vd : nullptr, w[5] ? &dmn : nullptr, w[6] ? &dmx : nullptr, w[7] ? &da : nullptr, w[8] ? &dd : nullptr, w[9] ? &emn : nullptr, w[10] ? &emx : nullptr, w[11] ? &esm : nullptr, w[12] ? &ea : nullptr, w[13] ? &ed : nullptr), "dgraphStat");
  double mn, mx, sm, av, dl; vector<double> v;
  auto cmp = [&](int k, const char* n, double got, double want) { CHECK(w[k] ? near(got, want) : got == -7, "dgraph-stat", "%s reported %.9g, computed %.9g", n, got, want); };
  for (long i = 0; i < g.n; i++) v.push_back((double)g.vl(i));
  mmad(v, mn, mx, sm, av, dl); cmp(0, "velomin", vmn, mn); cmp(1, "velomax", vmx, mx); cmp(2, "velosum", vsm, sm); cmp(3, "veloavg", va, av); cmp(4, "velodlt", vd, dl);
  v.clear(); for (auto& a : g.adj) v.push_back((double)a.size());
  mmad(v, mn, mx, sm, av, dl); cmp(5, "degrmin", dmn, mn); cmp(6, "degrmax", dmx, mx); cmp(7, "degravg", da, av); cmp(8, "degrdlt", dd, dl);
  v.clear(); for (auto& a : g.adj) for (auto& e : a) v.push_back((double)e.second);
  mmad(v, mn, mx, sm, av, dl); cmp(9, "edlomin", emn, mn); cmp(10, "edlomax", emx, mx); cmp(12, "edloavg", ea, av); cmp(13, "edlodlt", ed, dl);
  if (w[11]) CHECK(esm == sm || esm * 2 == sm, "dgraph-stat", "edge load sum %ld, arc load sum %g", (long)esm, sm); else cmp(11, "edlosum", esm, 0);
  feat("dgraphStat");
}
struct Ref { double nb, mn, mx, avg, dl, mnw, mxw, nmn, nmx, nsm, cl, cd, ce, cut; long dmax; vector<double> hist; };
static Ref reference(const LG& g, const vector<Num>& pt, const ArchH& a) {
  Ref q; map<Num, double> load; for (long v = 0; v < g.n; v++) load[pt[v]] += g.vl(v);
  q.mn = q.mnw = 1e30; q.mx = q.mxw = 0; double sum = 0; for (auto& x : load) { q.mn = std::min(q.mn, x.second); q.mx = std::max(q.mx, x.second); double w = x.second / a.w(x.first); q.mnw = std::min(q.mnw, w); q.mxw = std::max(q.mxw, w); sum += x.second; }
  q.nb = (double)load.size(); q.avg = sum / q.nb; q.dl = 0; for (auto& x : load) q.dl += std::fabs(x.second - q.avg); q.dl /= q.nb * q.avg;
  q.cl = q.cd = q.ce = q.cut = 0; q.dmax = 0; q.hist.assign(256, 0); map<Num, set<Num>> ngh; for (auto& x : load) ngh[x.first];
  for (long v = 0; v < g.n; v++) for (auto& e : g.adj[v]) { long d = pt[v] != pt[e.first]; q.cl += e.second; q.cd += d; q.ce += (double)d * e.second; if (d) { q.cut += e.second; ngh[pt[v]].insert(pt[e.first]); } q.hist[d] += e.second; q.dmax = std::max(q.dmax, d); }
  q.nmn = 1e30; q.nmx = q.nsm = 0; for (auto& x : ngh) { q.nmn = std::min(q.nmn, (double)x.second.size()); q.nmx = std::max(q.nmx, (double)x.second.size()); q.nsm += x.second.size(); }
  return q;
}
static void mapStatCheck(Rng& r, const LG& g, DPG& d, SCOTCH_Dmapping* m, const vector<Num>& pt, const ArchH& a) {
  Ref q = reference(g, pt, a); bool w[15]; for (bool& b : w) b = r.chance(0.85);
  if (r.chance(0.2)) { Rng l(hash64(r.next(), (u64)g_me)); for (bool& b : w) b = l.chance(0.5); feat("stat-null:local"); }   // wanted values may differ between processes
  Num tg = -7, mb = -7, mi = -7, ma = -7, ns = -7, ni = -7, nx = -7, cm = -7, ct[256], cl = -7, cd = -7, ce = -7; double av = -7, dl = -7; for (Num& x : ct) x = -7;
  mustOk(SCOTCH_dgraphMapStat(d.gr, m, w[0] ? &tg : nullptr, w[1] ? &mb : nullptr, w[2] ? &mi : nullptr, w[3] ? &ma : nullptr, w[4] ? &av : nullptr, w[5] ? &dl : nullptr, w[6] ? &ns : nullptr, w[7] ? &ni : nullptr, w[8] ? &nx : nullptr, w[9] ? &cm : nullptr, w[10] ? ct : nullptr, w[11] ? &cl : nullptr, w[12] ? &cd : nullptr, w[13] ? &ce : nullptr), "dgraphMapStat");
  bool none = g.arcs() == 0;
  auto cmp = [&](int k, const char* n, double got, double want) { CHECK(w[k] ? near(got, none && k > 0 ? 0 : want) : got == -7, "map-stat", "%s reported %.9g, computed %.9g%s", n, got, want, w[k] ? "" : " (not asked)"); };
  cmp(0, "tgtnbr", tg, a.size); cmp(1, "mapnbr", mb, q.nb);
  if (!none) { if (w[2]) CHECK(std::fabs(mi - q.mnw) <= 0.5001, "map-stat", "mapmin reported %ld, computed %g", (long)mi, q.mnw); if (w[3]) CHECK(std::fabs(ma - q.mxw) <= 0.5001, "map-stat", "mapmax reported %ld, computed %g", (long)ma, q.mxw); }
  if (a.wght.empty()) { cmp(4, "mapavg", av, q.avg); cmp(5, "mapdlt", dl, q.dl); }
  cmp(6, "ngbsum", ns, q.nsm); cmp(7, "ngbmin", ni, q.nmn); cmp(8, "ngbmax", nx, q.nmx); cmp(9, "cdstmax", cm, q.dmax);
  for (int k = 0; k < 256; k++) cmp(10, "cdsttab", ct[k], q.hist[k] / 2);
  cmp(11, "cmlosum", cl, q.cl / 2); cmp(12, "cmdisum", cd, q.cd / 2); cmp(13, "cmexsum", ce, q.ce / 2);
  feat("mapStat");
  MemFile f; bool me = r.chance(0.7) ? (int)r.below(g_np) == g_me : true; mustOk(SCOTCH_dgraphMapView(d.gr, m, me ? f.f : nullptr), "dgraphMapView");
  if (me && !none) {
    string t = f.str(), nb = t.substr(std::min(t.size(), t.find("Neighbors")));
    CMP("procs", getNum(t, "Processors "), q.nb); CMP("target", getNum(t, "Processors ", 1), a.size); CMP("procratio", getNum(t, "Processors ", 2), q.nb / a.size);
    if (a.wght.empty()) { CMP("min", getNum(t, "Target min="), q.mn); CMP("max", getNum(t, "\tmax="), q.mx); CMP("avg", getNum(t, "\tavg="), q.avg); CMP("dlt", getNum(t, "\tdlt="), q.dl); CMP("maxavg", getNum(t, "maxavg="), q.mx / q.avg); }
    CMP("neighbors-min", getNum(nb, "Neighbors min="), q.nmn); CMP("neighbors-max", getNum(nb, "max="), q.nmx); CMP("neighbors-sum", getNum(nb, "sum="), q.nsm);
    CMP("dilat", getNum(t, "CommDilat="), q.cd / g.arcs()); CMP("dilatsum", getNum(t, "CommDilat=", 1), q.cd / 2); CMP("expan", getNum(t, "CommExpan="), q.ce / q.cl); CMP("expansum", getNum(t, "CommExpan=", 1), q.ce / 2);
    CMP("cutsz", getNum(t, "CommCutSz="), q.cut / q.cl); CMP("cutszsum", getNum(t, "CommCutSz=", 1), q.cut / 2); CMP("delta", getNum(t, "CommDelta="), q.cl * q.cd == 0 ? 0 : q.ce * g.arcs() / (q.cl * q.cd));
    for (long k = 0; k <= q.dmax; k++) CMP("commload-hist", getNum(t, fmt("Cmlosum[%ld]=", k).c_str()), q.hist[k] / q.cl);
  }
}
static void saveCheck(Rng& r, const LG& g, DPG& d, SCOTCH_Dmapping* m, const vector<Num>& pt) {
  bool me = (int)r.below(g_np) == g_me; MemFile f; mustOk(SCOTCH_dgraphMapSave(d.gr, m, me ? f.f : nullptr), "dgraphMapSave");
  if (me) {
    string s = f.str(); vector<long> t; const char* c = s.c_str(); char* e; for (;;) { long x = strtol(c, &e, 10); if (e == c) break; t.push_back(x); c = e; } while (*c == ' ' || *c == '\n') c++; CHECK(*c == 0, "file-text", "unexpected text '%.20s'", c);
    CHECK((long)t.size() == 1 + 2 * g.n && t[0] == g.n, "file-size", "header %ld, %zu numbers for %ld vertices", t.empty() ? -1 : t[0], t.size(), g.n);
    map<long, long> q; for (size_t i = 1; i < t.size(); i += 2) { CHECK(!q.count(t[i]), "file-vertex", "vertex %ld saved twice", t[i]); q[t[i]] = t[i + 1]; }
    for (long v = 0; v < g.n; v++) { long l = g.vlbl.empty() ? v + d.base : (long)g.vlbl[v]; CHECK(q.count(l), "file-vertex", "vertex %ld not saved", l); CHECK(q[l] == pt[v], "file-part", "vertex %ld saved with part %ld instead of %ld", l, q[l], (long)pt[v]); }
  }
  feat("mapSave");
}
static void runCaseD(long, Rng& r) {
  bool qual = r.chance(0.1); int sz = (int)r.below(10); LG g;
  if (qual) { long a = r.range(24, 40), b = r.range(24, 40); LGB B(a * b); bool tor = r.chance(0.4); for (long i = 0; i < a; i++) for (long j = 0; j < b; j++) { if (i + 1 < a || tor) B.e(i * b + j, ((i + 1) % a) * b + j); if (j + 1 < b || tor) B.e(i * b + j, i * b + (j + 1) % b); } g = finish(B, tor ? "torus" : "grid", r, r.chance(0.5)); }
  else { g = genGraphD(r, sz < 5 ? 60 : sz < 9 ? 300 : 1500); addWeights(r, g, false); }
  if (g.n < 1) return;
  if (r.chance(0.25)) addLabels(r, g, 0);
  DPG d; randomDPG(r, d, g);
  auto a = qual ? genArch(r, 8, true, 0) : r.chance(0.06) ? genArch(r, 20, false) : genArch(r, r.chance(0.7) ? 8 : 40, true, r.chance(0.6) ? 0 : r.chance(0.7) ? 2 : 17);
  StratH s; string txt = "default"; double bal = 0.05; Num pwgt = 0; (void)pwgt;
  auto newStrat = [&]() {
    int t = (int)r.below(10);
    if (t < 2 && !a->var) { txt = "default"; bal = 0.05; feat("strat:default"); }
    else if (t < 5 || a->var || qual) {
      static const long fl[] = {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATSCALABILITY}; long f = 0; for (long x : fl) if (r.chance(0.25)) f |= x;
      bal = r.chance(0.5) ? 0.05 : 0.01 + r.unit() * (qual ? 0.2 : 0.5);
      if (a->var || (!qual && r.chance(0.15))) { Num pw = (Num)r.range(1, 50); double ds = r.unit(); txt = fmt("cluster(0x%lx,%d,%ld,%.3f,%.3f)", f, g_np, (long)pw, ds, bal); mustOk(SCOTCH_stratDgraphClusterBuild(s.s, (Num)f, (Num)g_np, pw, ds, bal), txt.c_str()); feat("strat:cluster"); }
      else { txt = fmt("build(0x%lx,%d,%ld,%.3f)", f, g_np, a->size, bal); mustOk(SCOTCH_stratDgraphMapBuild(s.s, (Num)f, (Num)g_np, (Num)a->size, bal), txt.c_str()); feat("strat:build"); }
    }
    else { txt = dmMap(r); mustOk(SCOTCH_stratDgraphMap(s.s, txt.c_str()), txt.c_str()); feat("strat:random"); }
  };
  newStrat();
  int th = r.chance(0.7) ? 1 : (int)r.range(2, 3); feat(fmt("threads:%d", th));
  desc("dmap %s np=%d base=%ld %d threads arch %s strat %s", showLG(g).c_str(), g_np, (long)d.base, th, a->name.c_str(), txt.c_str());
  bool part1 = a->name.compare(0, 6, "cmplt ") == 0; errClear();
  if (r.chance(0.3)) dgraphStatCheck(r, g, d);
  int call = (int)r.below(4); SCOTCH_Dmapping* m = nullptr; Buf pt; bool al = r.chance(0.5); if (d.nloc() > 0 || al) pt.alloc(d.nloc()); else pt.alloc(0);
  struct DM { SCOTCH_Dgraph* g; SCOTCH_Dmapping*& m; ~DM() { if (m) { SCOTCH_dgraphMapExit(g, m); free(m); } } } dm{d.gr, m};
  int rc; setThreads(th);
  if (call == 0 && part1) { feat("call:dgraphPart"); rc = SCOTCH_dgraphPart(d.gr, (Num)a->size, s.s, pt.p); }
  else if (call == 1) { feat("call:dgraphMap"); rc = SCOTCH_dgraphMap(d.gr, a->a, s.s, pt.p); }
  else { feat("call:dgraphMapCompute"); m = (SCOTCH_Dmapping*)malloc(sizeof(SCOTCH_Dmapping)); mustOk(SCOTCH_dgraphMapInit(d.gr, m, a->a, pt.p), "dgraphMapInit"); rc = SCOTCH_dgraphMapCompute(d.gr, m, s.s); }
  setThreads(1); CHECK(allSame(rc != 0), "return-value", "mapping fails on some processes only: %s", g_err.c_str());
  d.checkUntouched("dgraphMapCompute");
  bool cmpl = part1 || a->name.compare(0, 6, "cmpltw") == 0 || a->name == "varcmplt";
  if (rc != 0 && !cmpl) { CHECK(allSame(g_err.find("not implemented") != string::npos), "refusal", "%s", g_err.c_str()); feat("refused"); errClear(); return; }
  auto overflow = [&]() { auto x = allOne(rc != 0 && g_err.find("cannot bipartition domain") != string::npos); long c = 0; for (Num y : x) c += y; return a->var && c > 0; };   // the label space of variable targets may be exhausted
  if (overflow()) { feat("var-overflow"); errClear(); return; }
  mustOk(rc, "dgraphMapCompute"); CHECK(g_errnbr == 0, "error-printed", "%s", g_err.c_str());
  vector<Num> P = allCat(pt.vec());
  auto range = [&]() { for (long v = 0; v < g.n; v++) CHECK(P[v] >= (a->var ? 1 : 0) && (a->var || P[v] < a->size), "part-range", "vertex %ld has part %ld, target size %ld", v, (long)P[v], a->size); };
  range(); set<Num> used(P.begin(), P.end()); if (used.size() > 1) H.nontrivial++;
  if (m) {
    if (!a->var) mapStatCheck(r, g, d, m, P, *a);
    saveCheck(r, g, d, m, P);
    if (r.chance(0.2)) { SCOTCH_stratExit(s.s); SCOTCH_stratInit(s.s); newStrat(); desc("then %s", txt.c_str()); rc = SCOTCH_dgraphMapCompute(d.gr, m, s.s); CHECK(allSame(rc != 0), "return-value", "mapping again fails on some processes only: %s", g_err.c_str()); if (overflow()) { feat("var-overflow"); errClear(); return; } mustOk(rc, "dgraphMapCompute again"); P = allCat(pt.vec()); range(); if (!a->var) mapStatCheck(r, g, d, m, P, *a); saveCheck(r, g, d, m, P); feat("recomputed"); }
  }
  if (qual && a->size > 1) {
    vector<long> ld(a->size, 0); for (Num x : P) ld[x]++; long mx = *std::max_element(ld.begin(), ld.end()); double avg = (double)g.n / a->size; long cut = 0; for (long v = 0; v < g.n; v++) for (auto& e : g.adj[v]) cut += P[v] != P[e.first]; cut /= 2;
    if (getenv("C30_STAT") && g_me == 0) fprintf(stderr, "STAT n=%ld k=%ld kind=%s bal=%.3f mx=%.3f cut=%.3f %s np=%d\n", g.n, a->size, g.kind.c_str(), bal, mx / avg, cut / (std::sqrt((double)g.n) * a->size), txt.c_str(), g_np);
    CHECK(mx <= avg * (1 + bal) * 1.06 + 2, "balance", "biggest part has %ld vertices, average %.1f, tolerance %.3f", mx, avg, bal);
    CHECK(cut <= (g.kind == "grid" ? 1.0 : 1.7) * std::sqrt((double)g.n) * a->size, "cut-size", "%ld edges of a %s of %ld vertices cut by %ld parts", cut, g.kind.c_str(), g.n, a->size);
    feat("quality");
  }
  mustCheckD(d.gr, "the graph after mapping"); d.checkUntouched("mapping"); sig(hash64(hashLG(g), hashStr(a->name + txt)));
}
