// C09: graph, mesh and geometry files: save / load round trips, and independently written files in every format.
#include "gen.hpp"
#include "mesh.hpp"
struct GH { SCOTCH_Graph* g; GH() { g = (SCOTCH_Graph*)malloc(SCOTCH_graphSizeof()); SCOTCH_graphInit(g); } ~GH() { SCOTCH_graphExit(g); free(g); } GH(const GH&) = delete; };
struct MH { SCOTCH_Mesh* m; MH() { m = (SCOTCH_Mesh*)malloc(SCOTCH_meshSizeof()); SCOTCH_meshInit(m); } ~MH() { SCOTCH_meshExit(m); free(m); } MH(const MH&) = delete; };
struct GeoH { SCOTCH_Geom* g; GeoH() { g = (SCOTCH_Geom*)malloc(SCOTCH_geomSizeof()); SCOTCH_geomInit(g); } ~GeoH() { SCOTCH_geomExit(g); free(g); } GeoH(const GeoH&) = delete; };
static string num(long v) { return std::to_string(v); }
static string ws(Rng& r, int style) { if (style == 0) return " "; if (style == 1) return "\t"; static const char* t[] = {" ", "\t", "  ", " \t", "\r\n", "\n", "   "}; return t[r.below(7)]; }
// same graph: adjacency with loads; `order`: position p of got is vertex order[p] of want
static void sameGraph(const LG& want, const LG& got, const char* what, const vector<long>& pos, bool velo, bool edlo) {
  CHECK(got.n == want.n, "size", "%s: %ld vertices instead of %ld", what, got.n, want.n);
  string w = validLG(got); CHECK(w.empty(), "invalid-graph", "%s: %s", what, w.c_str());
  for (long v = 0; v < want.n; v++) {
    long p = pos.empty() ? v : pos[v];
    vector<pair<int, Num>> a; for (auto& e : want.adj[v]) a.push_back({(int)(pos.empty() ? e.first : pos[e.first]), edlo ? e.second : 1}); std::sort(a.begin(), a.end());
    CHECK(a == got.adj[p], "adjacency", "%s: adjacency of vertex %ld differs", what, v);
    CHECK((velo ? want.vl(v) : 1) == got.vl(p), "vertex-load", "%s: load of vertex %ld is %ld instead of %ld", what, v, (long)got.vl(p), (long)(velo ? want.vl(v) : 1));
  }
}
static void checkTotals(SCOTCH_Graph* gr, const LG& g, bool velo, bool edlo, const char* what) {
  errClear(); mustOk(SCOTCH_graphCheck(gr), "graphCheck of the loaded graph");
  Num mi, ma, su; double av, dl; Num dmi, dma; double dav, ddl; Num emi, ema, esu; double eav, edl; if (g.n == 0) return;
  SCOTCH_graphStat(gr, &mi, &ma, &su, &av, &dl, &dmi, &dma, &dav, &ddl, &emi, &ema, &esu, &eav, &edl);
  CHECK(su == (velo ? g.velosum() : g.n), "load-sum", "%s: vertex load sum %ld", what, (long)su);
  CHECK(dma == g.degmax(), "degree-max", "%s: maximum degree %ld instead of %ld", what, (long)dma, g.degmax());
}
static string writeScotch(Rng& r, const LG& g, Num b, const vector<long>& ord, int style, const LG& lab) {
  bool L = !lab.vlbl.empty(), V = !g.velo.empty(), E = g.edlo; string s = "0" + string(r.chance(0.5) ? "\n" : " ") + num(g.n) + ws(r, style) + num(g.arcs()) + "\n" + num(b) + ws(r, style) + fmt("%d%d%d", L, E, V) + "\n";
  for (long v : ord) { if (L) s += num(lab.vlbl[v]) + ws(r, style); if (V) s += (r.chance(0.1) ? "+" : "") + num(g.velo[v]) + ws(r, style); s += num((long)g.adj[v].size());
    for (auto& e : g.adj[v]) { s += ws(r, style); if (E) s += num(e.second) + ws(r, style); s += num(L ? (long)lab.vlbl[e.first] : (long)e.first + b); } s += "\n"; }
  return s;
}
static Num pickLoadBase(Rng& r) { long t = r.below(4); return t == 0 ? -1 : t == 1 ? 0 : t == 2 ? 1 : (Num)r.range(2, 2000); }
static void caseScot(Rng& r) {
  LG g = genGraph(r, 80); addWeights(r, g); bool lab = r.chance(0.4); Num b = 0; string text; vector<long> ord(g.n); std::iota(ord.begin(), ord.end(), 0); LG t = g;
  bool own = r.chance(0.5);
  if (own) { b = (Num)(r.chance(0.7) ? r.below(2) : r.below(50)); if (lab) { addLabels(r, t, b); r.shuffle(ord); } text = writeScotch(r, g, b, ord, (int)r.below(3), t); feat("scotch:own-file"); }
  else {
    if (lab) addLabels(r, t, 0);
    PG p; randomPG(r, p, t); b = p.base; MemFile f; errClear(); mustOk(SCOTCH_graphSave(p.gr, f.f), "graphSave"); text = f.str(); p.checkUntouched("graphSave"); feat("scotch:saved");
    // the file itself, read independently
    std::vector<long> tok; { const char* c = text.c_str(); char* e; for (;;) { long x = strtol(c, &e, 10); if (e == c) break; tok.push_back(x); c = e; } }
    size_t k = 0; auto nx = [&]() { CHECK(k < tok.size(), "file-short", "saved file too short"); return tok[k++]; };
    CHECK(nx() == 0 && nx() == g.n && nx() == g.arcs() && nx() == b, "file-header", "saved header wrong"); long pr = nx(); CHECK(pr == (lab ? 100 : 0) + (g.edlo ? 10 : 0) + (g.velo.empty() ? 0 : 1), "file-header", "saved flags %ld", pr);
    for (long v = 0; v < g.n; v++) { if (lab) CHECK(nx() == t.vlbl[v], "file-label", "label of %ld", v); if (!g.velo.empty()) CHECK(nx() == g.velo[v], "file-load", "load of %ld", v); CHECK(nx() == (long)g.adj[v].size(), "file-degree", "degree of %ld", v);
      for (auto& e : g.adj[v]) { if (g.edlo) CHECK(nx() == e.second, "file-edge-load", "edge load of %ld", v); CHECK(nx() == (lab ? (long)t.vlbl[e.first] : e.first + (long)b), "file-edge", "edge of %ld", v); } }
    CHECK(k == tok.size(), "file-long", "extra data in saved file");
  }
  Num lb = pickLoadBase(r), fl = (Num)r.below(4); desc("%s base=%ld load(%ld,%ld) %s", showLG(t).c_str(), (long)b, (long)lb, (long)fl, own ? "own" : "saved");
  GH h; FILE* in = memIn(text); errClear(); mustOk(SCOTCH_graphLoad(h.g, in, lb, fl), "graphLoad"); fclose(in);
  Num nb; LG q = readGraph(h.g, &nb); CHECK(nb == (lb == -1 ? b : lb), "base", "base %ld instead of %ld", (long)nb, (long)(lb == -1 ? b : lb));
  bool V = !(fl & 1), E = !(fl & 2); CHECK(g.n == 0 || q.velo.empty() == (g.velo.empty() || !V), "flag", "vertex loads presence wrong"); CHECK(g.arcs() == 0 || q.edlo == (g.edlo && E), "flag", "edge loads presence wrong");
  vector<long> pos(g.n); for (long i = 0; i < g.n; i++) pos[ord[i]] = i; sameGraph(g, q, "graphLoad", pos, V, E); checkTotals(h.g, g, V, E, "graphLoad");
  CHECK(q.vlbl.empty() == !lab, "labels", "labels presence wrong"); for (long v = 0; v < g.n && lab; v++) CHECK(q.vlbl[pos[v]] == t.vlbl[v], "labels", "label of vertex %ld is %ld instead of %ld", v, (long)q.vlbl[pos[v]], (long)t.vlbl[v]);
  // a second generation is identical to the first
  if (r.chance(0.3)) { MemFile f1; errClear(); mustOk(SCOTCH_graphSave(h.g, f1.f), "graphSave"); string s1 = f1.str(); GH h2; FILE* i2 = memIn(s1); mustOk(SCOTCH_graphLoad(h2.g, i2, -1, 0), "graphLoad"); fclose(i2); MemFile f2; mustOk(SCOTCH_graphSave(h2.g, f2.f), "graphSave"); CHECK(s1 == f2.str(), "generation", "saving what was loaded differs"); }
  if (g.arcs()) H.nontrivial++; feat(fmt("scotch:%d%d%d", lab, g.edlo, !g.velo.empty())); sig(hash64(hashStr(text), hash64(lb, fl)));
}
static void positiveLoads(LG& g) { for (auto& w : g.velo) if (w < 1) w = 1; }
static void caseChaco(Rng& r) {
  LG g = genGraph(r, 60); if (g.n < 1) return; addWeights(r, g); positiveLoads(g); bool lab = r.chance(0.35); LG t = g; vector<long> ord(g.n); std::iota(ord.begin(), ord.end(), 0); string text; bool own = r.chance(0.6); vector<long> labs(g.n); std::iota(labs.begin(), labs.end(), 1); if (lab) r.shuffle(labs);
  if (own) {
    if (lab) r.shuffle(ord); int st = (int)r.below(2); bool cr = r.chance(0.15);
    auto com = [&]() { string c; while (r.chance(0.15)) c += r.chance(0.5) ? "% comment 12 5\n" : r.chance(0.5) ? "%\n" : "%% 3\n"; return c; };
    text = com() + (r.chance(0.2) ? " " : "") + num(g.n) + ws(r, st) + num(g.arcs() / 2); int f = (lab ? 100 : 0) + (g.velo.empty() ? 0 : 10) + (g.edlo ? 1 : 0); if (f || r.chance(0.5)) text += ws(r, st) + (f == 0 ? string("0") : r.chance(0.5) ? num(f) : fmt("%03d", f)); if (r.chance(0.1)) text += " "; text += cr ? "\r\n" : "\n";
    for (long i = 0; i < g.n; i++) { long v = ord[i]; text += com(); string l; auto add = [&](long x) { if (!l.empty() || r.chance(0.1)) l += ws(r, st); l += num(x); }; if (lab) add(labs[v]); if (!g.velo.empty()) add(g.velo[v]); for (auto& e : g.adj[v]) { add(labs[e.first]); if (g.edlo) add(e.second); } if (r.chance(0.1)) l += " "; text += l + (cr ? "\r" : "") + (i + 1 == g.n && !l.empty() && r.chance(0.1) ? "" : "\n"); }
    feat("chaco:own-file");
  } else {
    Num b = pickBase(r); if (lab) { t.vlbl.resize(g.n); for (long v = 0; v < g.n; v++) t.vlbl[v] = (Num)(labs[v] - 1 + b); }
    PG p; p.layout(r, t, b, r.chance(0.6)); p.build(); p.save(); MemFile f; errClear(); mustOk(SCOTCH_graphGeomSaveChac(p.gr, nullptr, f.f, nullptr, nullptr), "graphGeomSaveChac"); text = f.str(); p.checkUntouched("graphGeomSaveChac"); feat("chaco:saved");
  }
  desc("chaco %s %s", showLG(t).c_str(), own ? "own" : "saved");
  GH h; FILE* in = memIn(text); errClear(); mustOk(SCOTCH_graphGeomLoadChac(h.g, nullptr, in, nullptr, nullptr), "graphGeomLoadChac"); fclose(in);
  Num nb; LG q = readGraph(h.g, &nb); CHECK(nb == 1, "base", "Chaco graph has base %ld", (long)nb); vector<long> pos(g.n); for (long i = 0; i < g.n; i++) pos[ord[i]] = i;
  sameGraph(g, q, "graphGeomLoadChac", pos, true, true); checkTotals(h.g, g, true, true, "graphGeomLoadChac"); CHECK(q.vlbl.empty() == !lab, "labels", "labels presence wrong"); for (long v = 0; v < g.n && lab; v++) CHECK(q.vlbl[pos[v]] == labs[v], "labels", "label of %ld", v);
  if (g.arcs()) H.nontrivial++; sig(hash64(hashStr(text), 2));
}
static void caseMmkt(Rng& r) {
  LG g = genGraph(r, 60); if (g.n < 1) return; string text; bool own = r.chance(0.6); Num fb = 1; string par; vector<long> pos;
  if (own) {
    if (r.chance(0.4)) { fb = (Num)r.below(3); par = num(fb); }
    bool sym = r.chance(0.5); const char* ty[] = {"pattern", "real", "integer", "complex"}; int k = (int)r.below(4);
    text = string(r.chance(0.8) ? "%%MatrixMarket matrix coordinate " : "%%MatrixMarket MATRIX Coordinate ") + ty[k] + (sym ? " symmetric" : " general") + "\n"; while (r.chance(0.3)) text += r.chance(0.3) ? "%\n" : "% 12 12 12\n";
    vector<pair<long, long>> ent; for (long v = 0; v < g.n; v++) { if (r.chance(0.4)) ent.push_back({v, v}); for (auto& e : g.adj[v]) { if (sym) { if (e.first < v) ent.push_back({v, e.first}); } else if (e.first < v) { int w = (int)r.below(3); if (w != 1) ent.push_back({v, e.first}); if (w != 0) ent.push_back({e.first, v}); if (r.chance(0.05)) ent.push_back({v, e.first}); } } }
    if (r.chance(0.7)) r.shuffle(ent);
    text += num(g.n) + " " + num(g.n) + " " + num((long)ent.size()) + "\n"; for (auto& e : ent) { text += (r.chance(0.1) ? " " : "") + num(e.first + fb) + (r.chance(0.1) ? "\t" : " ") + num(e.second + fb); if (k == 1) text += fmt(" %.3e", r.unit() - 0.5); else if (k == 2) text += fmt(" %ld", r.range(-9, 9)); else if (k == 3) text += " 1.5 -2.5"; text += "\n"; }
    feat("mmkt:own-file " + par);
  } else {
    LG t = g; if (r.chance(0.5)) addWeights(r, t); Num b = pickBase(r); if (r.chance(0.3)) { pos.resize(g.n); std::iota(pos.begin(), pos.end(), 0); r.shuffle(pos); t.vlbl.resize(g.n); for (long v = 0; v < g.n; v++) t.vlbl[v] = (Num)(pos[v] + b); }
    PG p; p.layout(r, t, b, r.chance(0.6)); p.build(); p.save(); MemFile f; errClear(); mustOk(SCOTCH_graphGeomSaveMmkt(p.gr, nullptr, f.f, nullptr, nullptr), "graphGeomSaveMmkt"); text = f.str(); p.checkUntouched("graphGeomSaveMmkt"); feat("mmkt:saved");
  }
  desc("mmkt %s %s base %ld", showLG(g).c_str(), own ? "own" : "saved", (long)fb);
  GH h; FILE* in = memIn(text); errClear(); mustOk(SCOTCH_graphGeomLoadMmkt(h.g, nullptr, in, nullptr, par.empty() ? (r.chance(0.5) ? "" : nullptr) : par.c_str()), "graphGeomLoadMmkt"); fclose(in);
  Num nb; LG q = readGraph(h.g, &nb); CHECK(nb == fb, "base", "graph has base %ld instead of %ld", (long)nb, (long)fb); sameGraph(g, q, "graphGeomLoadMmkt", pos, false, false); checkTotals(h.g, g, false, false, "graphGeomLoadMmkt"); if (g.arcs()) H.nontrivial++; sig(hash64(hashStr(text), 3));
}
static string card(Rng& r, const vector<long>& v, int per, int len, int skip) { string s; int k = 0; for (size_t i = 0; i < v.size(); i++) { if (k == 0) s += string(skip, ' '); s += fmt("%*ld", len, v[i]); if (++k == per) { if (r.chance(0.1)) s += "  "; s += "\n"; k = 0; } } if (k) s += "\n"; return s; }
static int digits(long v) { int d = 1; while (v >= 10) { v /= 10; d++; } return d; }
static string haboHead(Rng& r, const char* type, long rows, long cols, long nz, long cards[4], const string& f1, const string& f2, bool rhs) {
  long tot = cards[0] + cards[1] + cards[2] + cards[3]; string s = fmt("%-72s%-8s\n", "Title of the matrix", "KEY");
  s += fmt("%14ld%14ld%14ld%14ld%14ld\n", tot, cards[0], cards[1], cards[2], rhs ? cards[3] : 0L); s += fmt("%-14s%14ld%14ld%14ld%14ld\n", type, rows, cols, nz, 0L);
  s += fmt("%-16s%-16s%-20s%-20s\n", f1.c_str(), f2.c_str(), "(5E16.8)", rhs ? "(5E16.8)" : ""); if (rhs) s += fmt("%-14s%14d%14d\n", "F", 1, 0); return s;
}
static void caseHabo(Rng& r) {
  int nm = r.chance(0.25) ? 2 : 1, want = (int)r.below(nm); string text; LG g; string d;
  for (int m = 0; m < nm; m++) {
    LG c = genGraph(r, 50); if (c.n < 1) return; bool sym = r.chance(0.5), rhs = r.chance(0.2); string ty = string(1, "RPC"[r.below(3)]) + (sym ? "S" : "U") + "A"; if (r.chance(0.2)) for (auto& ch : ty) ch = (char)tolower(ch);
    vector<long> col{1}, row; for (long v = 0; v < c.n; v++) { vector<long> x; if (r.chance(0.5)) x.push_back(v); for (auto& e : c.adj[v]) { if (sym) { if (e.first > v) x.push_back(e.first); } else { bool both = ((v * 31 + e.first * 31) % 3) == 0; if (both || e.first > v) x.push_back(e.first); } } std::sort(x.begin(), x.end()); for (long y : x) row.push_back(y + 1); col.push_back((long)row.size() + 1); }
    int l1 = digits(col.back()) + (int)r.below(4), p1 = (int)r.range(1, 79 / l1), l2 = digits(c.n) + (int)r.below(4), p2 = (int)r.range(1, 79 / l2), s1 = 0, s2 = 0; if (p1 > 20) p1 = 20; if (p2 > 20) p2 = 20;
    string f1 = fmt("(%d%c%d)", p1, r.chance(0.8) ? 'I' : 'i', l1), f2 = fmt("(%dI%d)", p2, l2); if (r.chance(0.15)) { s1 = (int)r.range(1, 2); p1 = std::min(p1, 8); f1 = fmt("(%dX,%dI%d)", s1, p1, l1); } if (r.chance(0.15)) { s2 = (int)r.range(1, 2); p2 = std::min(p2, 8); f2 = fmt("(%dX,%dI%d)", s2, p2, l2); }
    if (f1.size() > 16 || f2.size() > 16) return;
    string a = card(r, col, p1, l1, s1), b = card(r, row, p2, l2, s2); vector<string> vals; string cc; bool num_ = toupper(ty[0]) != 'P'; if (num_ && r.chance(0.5)) for (size_t i = 0; i < row.size(); i += 5) cc += " 1.00000000E+00\n"; string dd; if (rhs) dd = " 1.0\n 2.0\n";
    auto lines = [](const string& s) { return (long)std::count(s.begin(), s.end(), '\n'); }; long cards[4] = {lines(a), lines(b), lines(cc), lines(dd)};
    text += haboHead(r, ty.c_str(), c.n, c.n, (long)row.size(), cards, f1, f2, rhs) + a + b + cc + dd; d += fmt("%s %s %s;", ty.c_str(), f1.c_str(), f2.c_str()); if (s1 || s2) feat("habo:skip"); if (rhs) feat("habo:rhs");
    if (m == want) g = c;
  }
  desc("habo %s %s matrix %d of %d", showLG(g).c_str(), d.c_str(), want, nm); GH h; FILE* in = memIn(text); errClear(); string par = num(want); mustOk(SCOTCH_graphGeomLoadHabo(h.g, nullptr, in, nullptr, want == 0 && r.chance(0.5) ? (r.chance(0.5) ? "" : nullptr) : par.c_str()), "graphGeomLoadHabo"); fclose(in);
  Num nb; LG q = readGraph(h.g, &nb); CHECK(nb == 1, "base", "base %ld", (long)nb); sameGraph(g, q, "graphGeomLoadHabo", {}, false, false); checkTotals(h.g, g, false, false, "graphGeomLoadHabo"); if (g.arcs()) H.nontrivial++; feat(fmt("habo:%d", nm)); sig(hash64(hashStr(text), 4));
}
static string coord(Rng& r, double& v, int k) { v = (double)r.range(-4000, 4000) / (k == 0 ? 1.0 : 4.0); return k == 2 ? fmt("%.6e", v) : fmt("%g", v); }
static void caseGeom(Rng& r) {
  bool mesh = r.chance(0.4); int dim = (int)r.range(1, 3), k = (int)r.below(3); LG g; LM m; std::unique_ptr<PG> pg; std::unique_ptr<PM> pm; long n; vector<long> lab; Num b; bool L = r.chance(0.4);
  if (mesh) { m = genMesh(r, 30); n = m.nn; if (n < 1) return; if (L) { m.lbl.resize(m.ne + m.nn); vector<long> x(m.ne + m.nn); std::iota(x.begin(), x.end(), 3); r.shuffle(x); for (size_t i = 0; i < x.size(); i++) m.lbl[i] = (Num)x[i]; } pm.reset(new PM); randomPM(r, *pm, m); b = pm->nbas; for (long v = 0; v < n; v++) lab.push_back(L ? (long)m.lbl[pm->nbas - pm->base + v] : (long)v + b); }
  else { g = genGraph(r, 60); n = g.n; if (n < 1) return; if (L) addLabels(r, g, 0); pg.reset(new PG); randomPG(r, *pg, g); b = pg->base; for (long v = 0; v < n; v++) lab.push_back(L ? (long)g.vlbl[v] : (long)v + b); }
  vector<double> xyz(n * dim); string text = num(dim) + "\n"; vector<long> o(n); std::iota(o.begin(), o.end(), 0); if (r.chance(0.6)) r.shuffle(o); vector<string> lines; for (long v : o) { string l = num(lab[v]); for (int d = 0; d < dim; d++) l += (r.chance(0.2) ? "  " : "\t") + coord(r, xyz[v * dim + d], k); lines.push_back(l); }
  long extra = 0; if (r.chance(0.3)) { long mx = *std::max_element(lab.begin(), lab.end()); extra = r.range(1, 4); for (long i = 0; i < extra; i++) { string l = num(mx + 1 + i); for (int d = 0; d < dim; d++) l += " 9.5"; lines.insert(lines.begin() + r.below((long)lines.size() + 1), l); } }
  text += num((long)lines.size()) + "\n"; for (auto& l : lines) text += l + "\n";
  desc("geometry %s dim=%d extra=%ld base=%ld", mesh ? showLM(m).c_str() : showLG(g).c_str(), dim, extra, (long)b);
  GeoH ge; FILE* in = memIn(text); errClear(); if (r.chance(0.2)) { // a geometry object already holding other data
    string pre = "1\n" + num(n) + "\n"; vector<long> s(lab); for (long x : s) pre += num(x) + " 0.5\n"; FILE* f = memIn(pre); mustOk(mesh ? SCOTCH_meshGeomLoadScot(pm->me, ge.g, nullptr, f, nullptr) : SCOTCH_graphGeomLoadScot(pg->gr, ge.g, nullptr, f, nullptr), "geometry load"); fclose(f); feat("geom:reload"); }
  int rc; bool withsrc = r.chance(0.4); GH h; MH mh;
  if (withsrc) { MemFile f; mustOk(mesh ? SCOTCH_meshSave(pm->me, f.f) : SCOTCH_graphSave(pg->gr, f.f), "save"); string s = f.str(); FILE* fs = memIn(s); rc = mesh ? SCOTCH_meshGeomLoadScot(mh.m, ge.g, fs, in, nullptr) : SCOTCH_graphGeomLoadScot(h.g, ge.g, fs, in, nullptr); fclose(fs); feat("geom:with-source"); }
  else rc = mesh ? SCOTCH_meshGeomLoadScot(pm->me, ge.g, nullptr, in, nullptr) : SCOTCH_graphGeomLoadScot(pg->gr, ge.g, nullptr, in, nullptr);
  fclose(in); mustOk(rc, "geometry load");
  Num dm = 0; double* t = nullptr; SCOTCH_geomData(ge.g, &dm, &t); CHECK(dm == dim, "dimension", "dimension %ld instead of %d", (long)dm, dim); for (long i = 0; i < n * dim; i++) CHECK(t[i] == xyz[i], "coordinate", "coordinate %ld of vertex %ld is %g instead of %g", i % dim, i / dim, t[i], xyz[i]);
  MemFile fg; mustOk(mesh ? SCOTCH_meshGeomSaveScot(pm->me, ge.g, nullptr, fg.f, nullptr) : SCOTCH_graphGeomSaveScot(pg->gr, ge.g, nullptr, fg.f, nullptr), "geometry save"); string out = fg.str();
  { const char* c = out.c_str(); char* e; auto nx = [&]() { double x = strtod(c, &e); CHECK(e != c, "geometry-file", "saved geometry too short"); c = e; return x; }; CHECK(nx() == dim && nx() == n, "geometry-file", "saved geometry header wrong"); for (long v = 0; v < n; v++) { CHECK(nx() == lab[v], "geometry-file", "label of line %ld", v); for (int d = 0; d < dim; d++) CHECK(nx() == xyz[v * dim + d], "geometry-file", "coordinate of line %ld", v); } strtod(c, &e); CHECK(e == c, "geometry-file", "extra data"); }
  GeoH g2; FILE* i2 = memIn(out); mustOk(mesh ? SCOTCH_meshGeomLoadScot(pm->me, g2.g, nullptr, i2, nullptr) : SCOTCH_graphGeomLoadScot(pg->gr, g2.g, nullptr, i2, nullptr), "geometry reload"); fclose(i2); SCOTCH_geomData(g2.g, &dm, &t); CHECK(dm == dim, "dimension", "dimension after reload %ld", (long)dm); for (long i = 0; i < n * dim; i++) CHECK(t[i] == xyz[i], "coordinate", "coordinate %ld after reload", i);
  H.nontrivial++; feat(fmt("geom:%s %dD%s", mesh ? "mesh" : "graph", dim, L ? " labels" : "")); sig(hash64(hashStr(text), 5));
}
static void caseMesh(Rng& r) {
  LM m = genMesh(r, 40); bool L = r.chance(0.3); bool own = r.chance(0.5); Num b, eb, nb; string text; LM t = m; vector<long> eo(m.ne), no(m.nn); std::iota(eo.begin(), eo.end(), 0); std::iota(no.begin(), no.end(), 0); vector<long> el(m.ne), nl(m.nn); std::iota(el.begin(), el.end(), 0); std::iota(nl.begin(), nl.end(), 0);
  if (own) {
    b = (Num)r.below(2); bool ef = r.chance(0.5); eb = ef ? b : b + (Num)m.nn; nb = ef ? b + (Num)m.ne : b; if (L) { r.shuffle(el); r.shuffle(nl); r.shuffle(eo); r.shuffle(no); }
    bool W = !m.ew.empty() || !m.nw.empty(), E = r.chance(0.2); int st = (int)r.below(3); text = "1\n" + num(m.ne) + ws(r, st) + num(m.nn) + ws(r, st) + num(m.arcs()) + "\n" + num(eb) + ws(r, st) + num(nb) + ws(r, st) + fmt("%d%d%d", L, E, W) + "\n";
    for (int ph = 0; ph < 2; ph++) { bool e = (ph == 0) == ef; for (long i = 0; i < (e ? m.ne : m.nn); i++) { long v = e ? eo[i] : no[i]; if (L) text += num((e ? el[v] : nl[v]) + b) + ws(r, st); if (W) text += num(e ? (m.ew.empty() ? 1 : m.ew[v]) : (m.nw.empty() ? 1 : m.nw[v])) + ws(r, st); auto& a = e ? m.en[v] : m.nenum[v]; text += num((long)a.size()); for (int x : a) { text += ws(r, st); if (E) text += num(r.range(1, 9)) + ws(r, st); text += num((e ? nl[x] : el[x]) + b); } text += "\n"; } }
    feat("mesh:own-file");
  } else {
    if (L) { m.lbl.resize(m.ne + m.nn); vector<long> x(m.ne + m.nn); std::iota(x.begin(), x.end(), r.below(5)); r.shuffle(x); for (size_t i = 0; i < x.size(); i++) m.lbl[i] = (Num)x[i]; }
    PM p; randomPM(r, p, m); b = p.base; eb = p.ebas; nb = p.nbas; MemFile f; errClear(); mustOk(SCOTCH_meshSave(p.me, f.f), "meshSave"); text = f.str(); p.checkUntouched("meshSave"); feat("mesh:saved");
  }
  Num lb = (Num)r.range(-1, 1); desc("%s base=%ld load %ld %s", showLM(m).c_str(), (long)b, (long)lb, own ? "own" : "saved"); MH h; FILE* in = memIn(text); errClear(); mustOk(SCOTCH_meshLoad(h.m, in, lb), "meshLoad"); fclose(in); mustOk(SCOTCH_meshCheck(h.m), "meshCheck of the loaded mesh");
  Num e2, n2; LM q = readMesh(h.m, &e2, &n2); Num adj = lb == -1 ? 0 : lb - b; CHECK(e2 == eb + adj && n2 == nb + adj, "base", "bases %ld %ld instead of %ld %ld", (long)e2, (long)n2, (long)(eb + adj), (long)(nb + adj));
  CHECK(q.ne == m.ne && q.nn == m.nn, "size", "sizes differ"); vector<long> np(m.nn); for (long i = 0; i < m.nn; i++) np[no[i]] = i;
  auto w = [](const vector<Num>& a, long i) { return a.empty() ? (Num)1 : a[i]; };
  for (long i = 0; i < m.ne; i++) { long v = eo[i]; vector<int> a; for (int x : m.en[v]) a.push_back((int)np[x]); std::sort(a.begin(), a.end()); CHECK(a == q.en[i], "adjacency", "nodes of element %ld differ", v); CHECK(w(m.ew, v) == w(q.ew, i), "element-load", "load of element %ld is %ld instead of %ld", v, (long)w(q.ew, i), (long)w(m.ew, v)); }
  for (long i = 0; i < m.nn; i++) CHECK(w(m.nw, no[i]) == w(q.nw, i), "node-load", "load of node %ld is %ld instead of %ld", no[i], (long)w(q.nw, i), (long)w(m.nw, no[i]));
  if (!own) { CHECK(q.lbl.empty() == m.lbl.empty(), "labels", "labels presence"); if (lb == -1 || lb == b) CHECK(q.lbl == m.lbl, "labels", "labels differ after reload"); MemFile f2; mustOk(SCOTCH_meshSave(h.m, f2.f), "meshSave"); if (lb == -1) { string t2 = f2.str(); MH h2; FILE* i2 = memIn(t2); mustOk(SCOTCH_meshLoad(h2.m, i2, -1), "meshLoad"); fclose(i2); LM q2 = readMesh(h2.m); CHECK(sameMesh(q, q2), "generation", "second generation differs"); } }
  if (m.arcs()) H.nontrivial++; feat(fmt("mesh:%d%d%d", L, !m.ew.empty(), !m.nw.empty())); sig(hash64(hashStr(text), hash64(lb, 6)));
}
static void caseMeshHabo(Rng& r) {
  LM m; do m = genMesh(r, 30); while (m.arcs() == 0); m.ew.clear(); m.nw.clear(); vector<long> ptr{1}, var; for (auto& e : m.en) { for (int x : e) var.push_back(x + 1); ptr.push_back((long)var.size() + 1); }
  int l1 = digits(ptr.back()) + (int)r.below(4), p1 = (int)std::min(20L, r.range(1, 79 / l1)), l2 = digits(m.nn) + (int)r.below(4), p2 = (int)std::min(20L, r.range(1, 79 / l2)); string f1 = fmt("(%dI%d)", p1, l1), f2 = fmt("(%dI%d)", p2, l2); bool rhs = r.chance(0.2);
  auto cd = [&](const vector<long>& v, int per, int len) { string s; for (size_t i = 0; i < v.size(); i++) { s += fmt("%*ld", len, v[i]); if ((i + 1) % per == 0 || i + 1 == v.size()) s += "\n"; } return s; };
  string a = cd(ptr, p1, l1), b = cd(var, p2, l2); long cards[4] = {(long)std::count(a.begin(), a.end(), '\n'), (long)std::count(b.begin(), b.end(), '\n'), 0, rhs ? 1 : 0};
  string text = haboHead(r, "RSE", m.nn, m.ne, (long)var.size(), cards, f1, f2, rhs) + a + b; desc("mesh habo %s %s %s", showLM(m).c_str(), f1.c_str(), f2.c_str()); MH h; FILE* in = memIn(text); errClear(); mustOk(SCOTCH_meshGeomLoadHabo(h.m, nullptr, in, nullptr, r.chance(0.5) ? "0" : ""), "meshGeomLoadHabo"); fclose(in); mustOk(SCOTCH_meshCheck(h.m), "meshCheck"); LM q = readMesh(h.m); CHECK(sameMesh(m, q), "adjacency", "mesh read from a Harwell-Boeing file differs"); H.nontrivial++; feat("mesh:habo"); sig(hash64(hashStr(text), 7));
}
static void runCase(long n, Rng& r) { switch (n % 12) { case 0: case 1: case 2: caseScot(r); break; case 3: case 4: caseChaco(r); break; case 5: caseMmkt(r); break; case 6: caseHabo(r); break; case 7: case 8: caseGeom(r); break; case 9: case 10: caseMesh(r); break; default: caseMeshHabo(r); } }
