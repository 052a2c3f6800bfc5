// C04: reported statistics equal an independent recomputation.
#include "gen.hpp"
#include "mesh.hpp"

static bool near(double a, double b, double rel = 1e-4) { return std::fabs(a - b) <= rel * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
template <class T> static void mmad(const vector<T>& v, double& mn, double& mx, double& sum, double& avg, double& dlt) {
  mn = mx = sum = avg = dlt = 0; if (v.empty()) return;
  mn = 1e30; mx = -1e30; for (auto x : v) { mn = std::min(mn, (double)x); mx = std::max(mx, (double)x); sum += x; }
  avg = sum / v.size(); for (auto x : v) dlt += std::fabs(x - avg); dlt /= v.size();
}
#define CMP(name, got, want) CHECK(near((double)(got), (double)(want)), "stat-" name, name " reported %.9g, computed %.9g", (double)(got), (double)(want))

static void graphStat(Rng& r, const LG& g, PG& p) {
  Num vmn, vmx, vsm, dmn, dmx, emn, emx, esm; double va, vd, da, dd, ea, ed;
  SCOTCH_graphStat(p.gr, &vmn, &vmx, &vsm, &va, &vd, &dmn, &dmx, &da, &dd, &emn, &emx, &esm, &ea, &ed);
  double mn, mx, sm, av, dl; vector<long> v;
  for (long i = 0; i < g.n; i++) v.push_back(g.vl(i));
  mmad(v, mn, mx, sm, av, dl); CMP("velomin", vmn, mn); CMP("velomax", vmx, mx); CMP("velosum", vsm, sm); CMP("veloavg", va, av); CMP("velodlt", vd, dl);
  v.clear(); for (auto& a : g.adj) v.push_back((long)a.size());
  mmad(v, mn, mx, sm, av, dl); CMP("degrmin", dmn, mn); CMP("degrmax", dmx, mx); CMP("degravg", da, av); CMP("degrdlt", dd, dl);
  v.clear(); for (auto& a : g.adj) for (auto& e : a) v.push_back(e.second);
  mmad(v, mn, mx, sm, av, dl); CMP("edlomin", emn, mn); CMP("edlomax", emx, mx); CMP("edloavg", ea, av); CMP("edlodlt", ed, dl);
  CHECK(esm == sm || esm * 2 == sm, "stat-edlosum", "edge load sum %ld, arc load sum %g", (long)esm, sm);  // per arc or per edge: not specified
  Num vn, en; SCOTCH_graphSize(p.gr, &vn, &en); CHECK(vn == g.n && en == g.arcs(), "stat-size", "graphSize %ld %ld", (long)vn, (long)en);
}

static double getNum(const string& t, const char* key, int occ = 0) {
  size_t p = t.find(key); CHECK(p != string::npos, "view-format", "field %s missing in: %s", key, t.c_str());
  p += strlen(key); while (occ-- > 0) { p = t.find_first_of("/(", p); CHECK(p != string::npos, "view-format", "field %s incomplete", key); p++; }
  return strtod(t.c_str() + p, nullptr);
}

static void mapView(Rng& r, const LG& g, PG& p) {
  auto arch = genArch(r, r.chance(0.7) ? 8 : 40, true, -1, true, false);
  bool rem = r.chance(0.5) && !arch->var, raw = rem && r.chance(0.4);
  desc("arch %s raw %d rem %d", arch->name.c_str(), raw, rem);
  vector<Num> pt(g.n), po(g.n), vm(g.n); int mode = (int)r.below(4);
  Num lim = arch->var ? (Num)(1 << r.range(0, 6)) : (Num)arch->size; Num one = (Num)r.below(lim);
  for (long v = 0; v < g.n; v++) { pt[v] = mode == 0 ? one : mode == 1 ? (Num)(r.below(lim) / 2 * 2 % lim) : mode == 2 ? (Num)((v * lim) / g.n) : (Num)r.below(lim); if (arch->var) pt[v] += 1; po[v] = r.chance(0.5) ? pt[v] : (Num)r.below(lim); vm[v] = (Num)r.range(0, 9); }
  if (rem && r.chance(0.3)) for (auto& x : po) if (r.chance(0.1)) x = -1;
  Buf part, old, vml; part.set(pt); old.set(po); vml.set(vm); part.save(); old.save(); vml.save();
  bool useVml = r.chance(0.5); double emra = r.range(0, 400) / 100.0;
  SCOTCH_Mapping *m = SCOTCH_mapAlloc(), *o = SCOTCH_mapAlloc();
  mustOk(SCOTCH_graphMapInit(p.gr, m, arch->a, part.p), "graphMapInit"); mustOk(SCOTCH_graphMapInit(p.gr, o, arch->a, old.p), "graphMapInit");
  MemFile mf; int rc;
  if (rem) rc = raw ? SCOTCH_graphRemapViewRaw(p.gr, m, o, emra, useVml ? vml.p : nullptr, mf.f) : SCOTCH_graphRemapView(p.gr, m, o, emra, useVml ? vml.p : nullptr, mf.f);
  else rc = SCOTCH_graphMapView(p.gr, m, mf.f);
  SCOTCH_graphMapExit(p.gr, m); SCOTCH_graphMapExit(p.gr, o); free(m); free(o);
  mustOk(rc, "graphMapView"); string t = mf.str();
  CHECK(part.same(), "view-modifies-mapping", "the displayed mapping was modified"); CHECK(old.same() && vml.same(), "view-modifies-old", "old mapping or migration cost array modified");
  p.checkUntouched("graphMapView");
  if (g.arcs() == 0) { CHECK(t.empty(), "view-format", "output for an empty graph: %s", t.c_str()); return; }
  // reference
  map<Num, long> load; for (long v = 0; v < g.n; v++) load[pt[v]] += g.vl(v);
  double mn = 1e30, mx = 0, sum = 0, dl = 0; for (auto& x : load) { mn = std::min(mn, (double)x.second); mx = std::max(mx, (double)x.second); sum += x.second; }
  double nb = (double)load.size(), avg = sum / nb; for (auto& x : load) dl += std::fabs(x.second - avg); dl /= nb * avg;
  auto D = [&](Num a, Num b) -> long { if (arch->dist) return arch->dist(a, b);
    SCOTCH_ArchDom* da = SCOTCH_archDomAlloc(); SCOTCH_ArchDom* db = SCOTCH_archDomAlloc(); SCOTCH_archDomTerm(arch->a, da, a); SCOTCH_archDomTerm(arch->a, db, b); long d = SCOTCH_archDomDist(arch->a, da, db); free(da); free(db); return d; };
  map<Num, set<Num>> ngh; for (auto& x : load) ngh[x.first];
  double cl = 0, cd = 0, ce = 0, cut = 0; map<long, double> hist;
  for (long v = 0; v < g.n; v++) for (auto& e : g.adj[v]) { long d = D(pt[v], pt[e.first]); cl += e.second; cd += d; ce += (double)d * e.second; if (d != 0) cut += e.second; hist[std::min(d, 255L)] += e.second; if (pt[v] != pt[e.first]) ngh[pt[v]].insert(pt[e.first]); }
  double nmn = 1e30, nmx = 0, nsm = 0; for (auto& x : ngh) { nmn = std::min(nmn, (double)x.second.size()); nmx = std::max(nmx, (double)x.second.size()); nsm += x.second.size(); }
  double en = (double)g.arcs();
  double mgn = 0, mgd = 0, mgl = 0, mgc = 0; for (long v = 0; v < g.n; v++) if (rem && po[v] != -1 && po[v] != pt[v]) { mgn++; mgd += D(po[v], pt[v]); mgl += g.vl(v); mgc += emra * (useVml ? vm[v] : 1); }
  if (mgn > 0) { mgd /= mgn; mgl /= mgn; }
  if (raw) {
    vector<double> f; const char* q = t.c_str(); char* e; for (;;) { double x = strtod(q, &e); if (e == q) break; f.push_back(x); q = e; }
    CHECK(f.size() == (rem ? 18u : 13u), "view-format", "raw output has %ld fields: %s", (long)f.size(), t.c_str());
    CMP("raw-procs", f[0], nb); if (!arch->var) CMP("raw-target", f[1], arch->size); CMP("raw-min", f[2], mn); CMP("raw-max", f[3], mx); CMP("raw-avg", f[4], avg); CMP("raw-dlt", f[5], dl); CMP("raw-maxavg", f[6], mx / avg);
    CMP("raw-commload", f[7], cl); CMP("raw-commexpan", f[8], ce); CMP("raw-dilat", f[9], cd / en); CMP("raw-expan", f[10], cl ? ce / cl : 0); CMP("raw-cut", f[11], cl ? cut / cl : 0); CMP("raw-delta", f[12], cl * cd == 0 ? 0 : ce * en / (cl * cd));
    if (rem) { CMP("raw-emra", f[13], emra); CMP("raw-migrnbr", f[14], mgn / g.n); CMP("raw-migrdist", f[15], mgd); CMP("raw-migrload", f[16], mgl); CMP("raw-migrcost", f[17], mgc); }
    return;
  }
  CMP("procs", getNum(t, "Processors "), nb); if (!arch->var) { CMP("target", getNum(t, "Processors ", 1), arch->size); CMP("procratio", getNum(t, "Processors ", 2), nb / arch->size); }
  CMP("min", getNum(t, "Target min="), mn); CMP("max", getNum(t, "\tmax="), mx); CMP("avg", getNum(t, "\tavg="), avg); CMP("dlt", getNum(t, "\tdlt="), dl); CMP("maxavg", getNum(t, "maxavg="), mx / avg);
  CMP("neighbors-min", getNum(t, "Neighbors min="), nmn); CMP("neighbors-max", getNum(t.substr(t.find("Neighbors")), "max="), nmx); CMP("neighbors-sum", getNum(t.substr(t.find("Neighbors")), "sum="), nsm);
  CMP("dilat", getNum(t, "CommDilat="), cd / en); CMP("dilatsum", getNum(t, "CommDilat=", 1), std::floor(cd / 2)); CMP("expan", getNum(t, "CommExpan="), cl ? ce / cl : 0); CMP("expansum", getNum(t, "CommExpan=", 1), std::floor(ce / 2));
  CMP("cutsz", getNum(t, "CommCutSz="), cl ? cut / cl : 0); CMP("cutszsum", getNum(t, "CommCutSz=", 1), std::floor(cut / 2)); CMP("delta", getNum(t, "CommDelta="), cl * cd == 0 ? 0 : ce * en / (cl * cd));
  for (auto& h : hist) CMP("commload-hist", getNum(t, fmt("CommLoad[%ld]=", h.first).c_str()), h.second / cl);
  if (rem) { CMP("migrnbr", getNum(t, "MigrNbr="), mgn); CMP("migrpct", getNum(t, "MigrNbr=", 1), 100 * mgn / g.n); CMP("migrdist", getNum(t, "AvgMigrDist="), mgd); CMP("migrload", getNum(t, "AvgMigrLoad="), mgl); CMP("migrcost", getNum(t, "MigrCost="), mgc); }
  // diameters: each part's value is a sum over its components of 1 + (an eccentricity); bounds from exact radii and diameters
  double lmn = 1e30, hmn = 1e30, lmx = 0, hmx = 0, lsm = 0, hsm = 0;
  for (auto& x : load) {
    vector<char> seen(g.n); double lo = 0, hi = 0;
    auto bfs = [&](long s, vector<long>* comp) { vector<long> d(g.n, -1), q{s}; d[s] = 0; long e = 0; for (size_t i = 0; i < q.size(); i++) for (auto& k : g.adj[q[i]]) if (pt[k.first] == x.first && d[k.first] < 0) { d[k.first] = d[q[i]] + 1; e = d[k.first]; q.push_back(k.first); } if (comp) *comp = q; return e; };
    for (long v = 0; v < g.n; v++) if (pt[v] == x.first && !seen[v]) { vector<long> c; bfs(v, &c); long rad = LONG_MAX, dia = 0; if (c.size() > 200) { lo += 1; hi += (double)c.size(); for (long w : c) seen[w] = 1; continue; } for (long w : c) { seen[w] = 1; long e = bfs(w, nullptr); rad = std::min(rad, e); dia = std::max(dia, e); } lo += 1 + rad; hi += 1 + dia; }
    lmn = std::min(lmn, lo); hmn = std::min(hmn, hi); lmx = std::max(lmx, lo); hmx = std::max(hmx, hi); lsm += lo; hsm += hi;
  }
  string dt = t.substr(t.find("PartDiam")); double a = getNum(dt, "min="), b = getNum(dt, "max="), c = getNum(dt, "avg=");
  CHECK(a >= lmn && a <= hmn && b >= lmx && b <= hmx && c >= lsm / nb - 1e-4 && c <= hsm / nb + 1e-4, "stat-diam", "part diameters min=%g max=%g avg=%g outside [%g,%g] [%g,%g] [%g,%g]", a, b, c, lmn, hmn, lmx, hmx, lsm / nb, hsm / nb);
  H.nontrivial++;
}

static void ovlView(Rng& r, const LG& g, PG& p) {
  long k = r.range(1, 9); vector<Num> pt(g.n); for (auto& x : pt) x = r.chance(0.25) ? -1 : (Num)r.below(k);
  Buf part; part.set(pt); part.save(); MemFile mf;
  mustOk(SCOTCH_graphPartOvlView(p.gr, (Num)k, part.p, mf.f), "graphPartOvlView"); string t = mf.str();
  vector<double> ld(k); double sep = 0; for (long v = 0; v < g.n; v++) if (pt[v] >= 0) ld[pt[v]] += g.vl(v); else { sep += g.vl(v); set<Num> s; for (auto& e : g.adj[v]) if (pt[e.first] >= 0) s.insert(pt[e.first]); for (Num x : s) ld[x] += g.vl(v); }
  double mn = *std::min_element(ld.begin(), ld.end()), mx = *std::max_element(ld.begin(), ld.end()), sm = 0; for (double x : ld) sm += x;
  CMP("ovl-sep", getNum(t, "sep="), sep); CMP("ovl-min", getNum(t, "min="), mn); CMP("ovl-max", getNum(t, "max="), mx); CMP("ovl-avg", getNum(t, "avg="), sm / k);
  if (sm > 0) { CMP("ovl-maxavg", getNum(t, "maxavg="), mx / (sm / k)); CMP("ovl-minavg", getNum(t, "minavg="), mn / (sm / k)); }
  CHECK(part.same(), "view-modifies-mapping", "overlap partition modified by the display"); p.checkUntouched("graphPartOvlView"); H.nontrivial++;
}

static void meshStat(Rng& r) {
  LM m = genMesh(r, r.chance(0.7) ? 30 : 200); PM p; randomPM(r, p, m); desc("%s", showLM(m).c_str());
  Num wmn, wmx, wsm, emn, emx, nmn, nmx; double wa, wd, ea, ed, na, nd;
  SCOTCH_meshStat(p.me, &wmn, &wmx, &wsm, &wa, &wd, &emn, &emx, &ea, &ed, &nmn, &nmx, &na, &nd);
  double mn, mx, sm, av, dl; vector<long> v;
  for (long i = 0; i < m.nn; i++) v.push_back(m.nw.empty() ? 1 : m.nw[i]);
  mmad(v, mn, mx, sm, av, dl); CMP("vnlomin", wmn, mn); CMP("vnlomax", wmx, mx); CMP("vnlosum", wsm, sm); CMP("vnloavg", wa, av); CMP("vnlodlt", wd, dl);
  v.clear(); for (auto& a : m.en) v.push_back((long)a.size()); mmad(v, mn, mx, sm, av, dl); CMP("edegmin", emn, mn); CMP("edegmax", emx, mx); CMP("edegavg", ea, av); CMP("edegdlt", ed, dl);
  v.clear(); for (auto& a : m.nenum) v.push_back((long)a.size()); mmad(v, mn, mx, sm, av, dl); CMP("ndegmin", nmn, mn); CMP("ndegmax", nmx, mx); CMP("ndegavg", na, av); CMP("ndegdlt", nd, dl);
  Num ne, nn, en; SCOTCH_meshSize(p.me, &ne, &nn, &en); CHECK(ne == m.ne && nn == m.nn && en == m.arcs(), "stat-meshsize", "meshSize %ld %ld %ld", (long)ne, (long)nn, (long)en);
  p.checkUntouched("meshStat"); sig(hashLM(m)); feat("op:meshStat"); H.nontrivial++;
}

static void runCase(long n, Rng& r) {
  setThreads(1);
  int k = (int)r.below(10);
  if (k < 2) { meshStat(r); return; }
  LG g = genGraph(r, r.chance(0.8) ? 40 : 250); if (r.chance(0.7)) addWeights(r, g); if (r.chance(0.1)) addLabels(r, g, 0);
  PG p; randomPG(r, p, g); desc("%s base=%ld", showLG(g).c_str(), (long)p.base);
  if (k < 4) { feat("op:graphStat"); graphStat(r, g, p); p.checkUntouched("graphStat"); H.nontrivial++; }
  else if (k < 8) { feat("op:mapView"); mapView(r, g, p); }
  else { feat("op:ovlView"); ovlView(r, g, p); }
  sig(hashLG(g) + k);
}
