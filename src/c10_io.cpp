// C10: mapping, ordering, column block, tree and architecture files.
#include "genord.hpp"
#include "mesh.hpp"
static string num(long v) { return std::to_string(v); }
static vector<long> tokens(const string& s, const char* what) { vector<long> t; const char* c = s.c_str(); char* e; for (;;) { long x = strtol(c, &e, 10); if (e == c) break; t.push_back(x); c = e; } while (*c == ' ' || *c == '\n' || *c == '\t') c++; CHECK(*c == 0, "file-text", "%s: unexpected text '%.20s'", what, c); return t; }
// file of n pairs: returns second column of each line, in order, after checking the first column
static vector<long> pairsFile(const string& s, long n, const vector<long>& lab, const char* what) {
  vector<long> t = tokens(s, what), o; CHECK((long)t.size() == 1 + 2 * n && t[0] == n, "file-size", "%s: header %ld, %ld numbers for %ld vertices", what, t.empty() ? -1L : t[0], (long)t.size(), n);
  for (long i = 0; i < n; i++) { CHECK(t[1 + 2 * i] == lab[i], "file-label", "%s: line %ld names vertex %ld instead of %ld", what, i, t[1 + 2 * i], lab[i]); o.push_back(t[2 + 2 * i]); }
  return o;
}
static void caseMap(Rng& r) {
  LG g = genGraph(r, 80); if (g.n < 1) return; bool L = r.chance(0.5); if (L) addLabels(r, g, r.below(2)); PG p; randomPG(r, p, g); Num b = p.base; long n = g.n;
  vector<long> lab(n); for (long v = 0; v < n; v++) lab[v] = L ? g.vlbl[v] : v + b;
  Buf part; vector<Num> pv(n); long k = r.range(1, 30); for (auto& x : pv) x = (Num)(r.chance(0.05) ? -1 : r.chance(0.02) ? 2000000000 : r.below(k)); part.set(pv); part.save();
  desc("mapping %s base=%ld", showLG(g).c_str(), (long)b);
  SCOTCH_Arch* arch = SCOTCH_archAlloc(); SCOTCH_archInit(arch); struct AX { SCOTCH_Arch* a; ~AX() { SCOTCH_archExit(a); free(a); } } ax{arch}; mustOk(SCOTCH_archCmplt(arch, (Num)k), "archCmplt");
  struct MX { SCOTCH_Graph* g; SCOTCH_Mapping* m; MX(SCOTCH_Graph* gg, SCOTCH_Arch* a, Num* p) : g(gg), m(SCOTCH_mapAlloc()) { mustOk(SCOTCH_graphMapInit(g, m, a, p), "graphMapInit"); } ~MX() { SCOTCH_graphMapExit(g, m); free(m); } };
  MemFile f; errClear(); if (r.chance(0.5)) { mustOk(SCOTCH_graphTabSave(p.gr, part.p, f.f), "graphTabSave"); feat("map:tabsave"); } else { MX m(p.gr, arch, part.p); mustOk(SCOTCH_graphMapSave(p.gr, m.m, f.f), "graphMapSave"); feat("map:mapsave"); }
  CHECK(part.same(), "part-modified", "saving modified the part array"); p.checkUntouched("mapping save"); string text = f.str(); vector<long> q = pairsFile(text, n, lab, "mapping file"); for (long v = 0; v < n; v++) CHECK(q[v] == pv[v], "file-part", "vertex %ld saved in part %ld instead of %ld", v, q[v], (long)pv[v]);
  // lines reordered, some lacking, some about vertices of another graph
  vector<long> want(pv.begin(), pv.end()); vector<string> ln; double lack = r.chance(0.4) ? r.unit() * 0.6 : 0; set<long> ls(lab.begin(), lab.end());
  for (long v = 0; v < n; v++) { if (r.chance(lack)) { want[v] = -1; continue; } ln.push_back(num(lab[v]) + (r.chance(0.5) ? "\t" : "  ") + num(pv[v])); }
  if (r.chance(0.4)) { set<long> ex; for (long i = r.range(1, 6); i > 0; i--) ex.insert(r.range(0, *ls.rbegin() + 5)); if (r.chance(0.3)) ex.insert(-1 - r.below(5)); for (long x : ex) if (!ls.count(x)) ln.push_back(num(x) + " " + num(r.below(k))); feat("map:other-vertices"); }
  if (ln.empty()) return; bool sh = r.chance(0.6); if (sh) r.shuffle(ln); if (lack > 0) feat("map:lacking"); string in = num((long)ln.size()) + "\n"; for (auto& l : ln) in += l + (r.chance(0.05) ? "\n\n" : "\n");
  FILE* fi = memIn(in); Buf back; back.alloc(n); int mode = (int)r.below(3); vector<Num> got; errClear();
  if (mode == 0) { mustOk(SCOTCH_graphTabLoad(p.gr, back.p, fi), "graphTabLoad"); got = back.vec(); }
  else { MX m(p.gr, arch, mode == 1 ? back.p : nullptr); mustOk(SCOTCH_graphMapLoad(p.gr, m.m, fi), "graphMapLoad"); if (mode == 1) got = back.vec(); else { MemFile f2; mustOk(SCOTCH_graphMapSave(p.gr, m.m, f2.f), "graphMapSave"); for (long x : pairsFile(f2.str(), n, lab, "mapping file")) got.push_back((Num)x); } }
  fclose(fi); for (long v = 0; v < n; v++) CHECK(got[v] == want[v], "part", "vertex %ld (label %ld) loaded in part %ld instead of %ld", v, lab[v], (long)got[v], want[v]);
  p.checkUntouched("mapping load"); H.nontrivial++; feat(fmt("map:load%d%s%s", mode, L ? " labels" : "", sh ? " shuffled" : "")); sig(hashStr(in));
}
static void checkBlocks(const vector<long>& mp, const vector<long>& tr, long n, Num b, const Num* perm, Num cblk, const Num* rang, const Num* tree) {
  vector<long> blk(n); for (long c = 0; c < cblk; c++) for (Num i = rang[c]; i < rang[c + 1]; i++) blk[i - b] = c;
  for (long v = 0; v < n; v++) { long c = blk[perm[v] - b]; CHECK(mp.empty() || mp[v] == c, "file-block", "vertex %ld saved in block %ld instead of %ld", v, mp[v], c); CHECK(tr.empty() || tr[v] == tree[c], "file-tree", "father of the block of vertex %ld saved as %ld instead of %ld", v, tr[v], (long)tree[c]); }
}
static void caseOrder(Rng& r) {
  LG g = genGraph(r, 120); if (g.n < 1) return; bool L = r.chance(0.35); if (L) addLabels(r, g, 0); PG p; randomPG(r, p, g); Num b = p.base; long n = g.n; vector<long> lab(n); for (long v = 0; v < n; v++) lab[v] = L ? g.vlbl[v] : v + b;
  StratH st; genOrdStratH(r, st); desc("ordering %s base=%ld strat %s", showLG(g).c_str(), (long)b, st.txt.c_str());
  struct OX { SCOTCH_Graph* g; SCOTCH_Ordering* o; OX(SCOTCH_Graph* gg, Num* a, Num* b, Num* c, Num* d, Num* e) : g(gg), o(SCOTCH_orderAlloc()) { mustOk(SCOTCH_graphOrderInit(g, o, a, b, c, d, e), "graphOrderInit"); } ~OX() { SCOTCH_graphOrderExit(g, o); free(o); } };
  Buf perm, peri, rang, tree; Num cblk = 0; perm.alloc(n); peri.alloc(n); rang.alloc(n + 1); tree.alloc(n); OX o(p.gr, perm.p, r.chance(0.5) ? peri.p : nullptr, &cblk, rang.p, tree.p); errClear(); mustOk(SCOTCH_graphOrderCompute(p.gr, o.o, st.s), "graphOrderCompute"); checkOrdering(n, b, perm.p, nullptr, cblk, rang.p, tree.p);
  MemFile f, fm, ft; mustOk(SCOTCH_graphOrderSave(p.gr, o.o, f.f), "graphOrderSave"); mustOk(SCOTCH_graphOrderSaveMap(p.gr, o.o, fm.f), "graphOrderSaveMap"); mustOk(SCOTCH_graphOrderSaveTree(p.gr, o.o, ft.f), "graphOrderSaveTree");
  vector<long> q = pairsFile(f.str(), n, lab, "ordering file"); for (long v = 0; v < n; v++) CHECK(q[v] == perm[v] || (L && q[v] == g.vlbl[perm[v] - b]), "file-rank", "vertex %ld saved with rank %ld instead of %ld", v, q[v], (long)perm[v]);
  checkBlocks(pairsFile(fm.str(), n, lab, "block file"), pairsFile(ft.str(), n, lab, "tree file"), n, b, perm.p, cblk, rang.p, tree.p); if (cblk > 1) feat("order:blocks");
  if (!L) {                                              // loading of orderings supports unlabelled graphs only
    vector<Num> rk = perm.vec(); if (r.chance(0.4)) r.shuffle(rk); vector<string> ln; for (long v = 0; v < n; v++) ln.push_back(num(v + b) + (r.chance(0.5) ? "\t" : " ") + num(rk[v])); bool sh = r.chance(0.5); if (sh) r.shuffle(ln); string in = num(n) + "\n"; for (auto& l : ln) in += l + "\n";
    Buf pm, pi; pm.alloc(n); pi.alloc(n); bool hm = r.chance(0.7), hi = r.chance(0.7); OX l(p.gr, hm ? pm.p : nullptr, hi ? pi.p : nullptr, nullptr, nullptr, nullptr); FILE* fi = memIn(in); errClear(); mustOk(SCOTCH_graphOrderLoad(p.gr, l.o, fi), "graphOrderLoad"); fclose(fi); mustOk(SCOTCH_graphOrderCheck(p.gr, l.o), "graphOrderCheck");
    for (long v = 0; v < n; v++) { if (hm) CHECK(pm[v] == rk[v], "rank", "vertex %ld loaded with rank %ld instead of %ld", v, (long)pm[v], (long)rk[v]); if (hi) CHECK(pi[rk[v] - b] == v + b, "rank-inverse", "rank %ld is that of vertex %ld instead of %ld", (long)rk[v], (long)pi[rk[v] - b], v); }
    MemFile f2; mustOk(SCOTCH_graphOrderSave(p.gr, l.o, f2.f), "graphOrderSave"); vector<long> q2 = pairsFile(f2.str(), n, lab, "ordering file"); for (long v = 0; v < n; v++) CHECK(q2[v] == rk[v], "file-rank", "vertex %ld saved again with rank %ld instead of %ld", v, q2[v], (long)rk[v]); feat(sh ? "order:load-shuffled" : "order:load");
  }
  p.checkUntouched("ordering files"); H.nontrivial++; feat(L ? "order:labels" : "order:plain"); sig(hash64(hashLG(g), hashStr(st.txt)));
}
static void caseMeshOrder(Rng& r) {
  LM m = genMesh(r, 50); if (m.nn < 1 || m.arcs() == 0) return; bool L = r.chance(0.3); if (L) { m.lbl.resize(m.ne + m.nn); vector<long> x(m.ne + m.nn); std::iota(x.begin(), x.end(), r.below(9)); r.shuffle(x); for (size_t i = 0; i < x.size(); i++) m.lbl[i] = (Num)x[i]; }
  PM p; randomPM(r, p, m); long n = m.nn; Num b = p.base; vector<long> lab(n); for (long v = 0; v < n; v++) lab[v] = L ? (long)m.lbl[p.nbas - b + v] : (long)v + b; desc("mesh ordering %s base=%ld", showLM(m).c_str(), (long)b);
  Buf perm, peri, rang, tree; Num cblk = 0; perm.alloc(n); peri.alloc(n); rang.alloc(n + 1); tree.alloc(n); struct OX { SCOTCH_Mesh* g; SCOTCH_Ordering* o; ~OX() { SCOTCH_meshOrderExit(g, o); free(o); } } o{p.me, SCOTCH_orderAlloc()}; mustOk(SCOTCH_meshOrderInit(p.me, o.o, perm.p, peri.p, &cblk, rang.p, tree.p), "meshOrderInit"); StratH st; mustOk(SCOTCH_meshOrderCompute(p.me, o.o, st.s), "meshOrderCompute"); checkOrdering(n, b, perm.p, peri.p, cblk, rang.p, tree.p);
  MemFile f, fm, ft; mustOk(SCOTCH_meshOrderSave(p.me, o.o, f.f), "meshOrderSave"); mustOk(SCOTCH_meshOrderSaveMap(p.me, o.o, fm.f), "meshOrderSaveMap"); mustOk(SCOTCH_meshOrderSaveTree(p.me, o.o, ft.f), "meshOrderSaveTree");
  vector<long> q = pairsFile(f.str(), n, lab, "ordering file"); for (long v = 0; v < n; v++) CHECK(q[v] == perm[v] || (L && q[v] == lab[perm[v] - b]), "file-rank", "node %ld saved with rank %ld instead of %ld", v, q[v], (long)perm[v]); checkBlocks(pairsFile(fm.str(), n, lab, "block file"), pairsFile(ft.str(), n, lab, "tree file"), n, b, perm.p, cblk, rang.p, tree.p);
  p.checkUntouched("mesh ordering files"); H.nontrivial++; feat(fmt("meshorder%s%s", L ? ":labels" : "", p.ebas < p.nbas ? ":elements-first" : "")); sig(hash64(hashLM(m), 9));
}
struct DX { SCOTCH_ArchDom d; DX() { memset(&d, 0x5a, sizeof d); } };
static void same(SCOTCH_Arch* a, SCOTCH_Arch* c, const DX& da, const DX& dc, vector<pair<DX, DX>>& all, long lim) {
  if ((long)all.size() > lim) return; all.push_back({da, dc}); CHECK(SCOTCH_archDomSize(a, &da.d) == SCOTCH_archDomSize(c, &dc.d), "domain-size", "size of a domain differs after reload"); CHECK(SCOTCH_archDomWght(a, &da.d) == SCOTCH_archDomWght(c, &dc.d), "domain-weight", "weight of a domain differs after reload: %ld and %ld", (long)SCOTCH_archDomWght(a, &da.d), (long)SCOTCH_archDomWght(c, &dc.d)); CHECK(SCOTCH_archDomNum(a, &da.d) == SCOTCH_archDomNum(c, &dc.d), "domain-number", "number of a domain differs after reload");
  DX a0, a1, c0, c1; int ra = SCOTCH_archDomBipart(a, &da.d, &a0.d, &a1.d), rc = SCOTCH_archDomBipart(c, &dc.d, &c0.d, &c1.d); CHECK(ra == rc && (ra < 2 || SCOTCH_archVar(a)), "domain-bipart", "bipartition of a domain returns %d and %d", ra, rc); if (ra == 0) { same(a, c, a0, c0, all, lim); same(a, c, a1, c1, all, lim); }
}
static void caseArch(Rng& r) {
  bool own = r.chance(0.15); errClear();
  if (own) {                                             // decomposition file written from the documented format
    long n = 1; vector<long> t{1}; long want = r.range(1, 14); while (n < want) { size_t i = r.below((long)t.size()); if (t[i] >= 64) { bool ok = false; for (long x : t) if (x < 64) ok = true; if (!ok) break; continue; } long x = t[i]; t[i] = 2 * x; t.push_back(2 * x + 1); n++; }
    r.shuffle(t); vector<long> lb(n), w(n); std::iota(lb.begin(), lb.end(), r.below(3)); if (r.chance(0.5)) r.shuffle(lb); for (auto& x : w) x = r.range(1, 9); string s = "deco 0\n" + num(n) + "\t" + num(*std::max_element(t.begin(), t.end())) + "\n"; for (long i = 0; i < n; i++) s += num(lb[i]) + "\t" + num(w[i]) + " " + num(t[i]) + "\n"; vector<vector<long>> d(n, vector<long>(n, 0)); for (long i = 1; i < n; i++) { for (long j = 0; j < i; j++) { d[i][j] = d[j][i] = r.range(1, 99); s += num(d[i][j]) + (r.chance(0.5) ? " " : "\n"); } s += "\n"; }
    desc("own decomposition file of %ld terminals", n); ArchH h; archFromText(h, s); CHECK(SCOTCH_archSize(h.a) == n && !strcmp(SCOTCH_archName(h.a), "deco"), "deco", "size %ld of %s", (long)SCOTCH_archSize(h.a), SCOTCH_archName(h.a)); vector<DX> dom(n);
    for (long i = 0; i < n; i++) { CHECK(SCOTCH_archDomTerm(h.a, &dom[i].d, (Num)lb[i]) == 0, "deco", "no domain for terminal %ld", lb[i]); CHECK(SCOTCH_archDomNum(h.a, &dom[i].d) == lb[i] && SCOTCH_archDomWght(h.a, &dom[i].d) == w[i] && SCOTCH_archDomSize(h.a, &dom[i].d) == 1, "deco", "terminal %ld has weight %ld instead of %ld", lb[i], (long)SCOTCH_archDomWght(h.a, &dom[i].d), w[i]); }
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) CHECK(SCOTCH_archDomDist(h.a, &dom[i].d, &dom[j].d) == d[i][j], "deco-distance", "distance %ld-%ld is %ld instead of %ld", lb[i], lb[j], (long)SCOTCH_archDomDist(h.a, &dom[i].d, &dom[j].d), d[i][j]);
    // the decomposition tree is the one of the file
    std::function<void(const DX&, long)> walk = [&](const DX& x, long k) { vector<long> in; for (long i = 0; i < n; i++) { long y = t[i]; while (y > k) y /= 2; if (y == k) in.push_back(i); } CHECK(SCOTCH_archDomSize(h.a, &x.d) == (Num)in.size(), "deco-tree", "domain %ld has size %ld instead of %ld", k, (long)SCOTCH_archDomSize(h.a, &x.d), (long)in.size()); long sw = 0, ml = LONG_MAX; for (long i : in) { sw += w[i]; ml = std::min(ml, lb[i]); } CHECK(SCOTCH_archDomWght(h.a, &x.d) == sw, "deco-tree", "domain %ld has weight %ld instead of %ld", k, (long)SCOTCH_archDomWght(h.a, &x.d), sw); DX a, b; int rc = SCOTCH_archDomBipart(h.a, &x.d, &a.d, &b.d); CHECK(rc == (in.size() == 1 ? 1 : 0), "deco-tree", "bipartition of domain %ld returns %d", k, rc); if (rc == 0) { walk(a, 2 * k); walk(b, 2 * k + 1); } };
    DX root; mustOk(SCOTCH_archDomFrst(h.a, &root.d), "archDomFrst"); walk(root, 1); MemFile f; mustOk(SCOTCH_archSave(h.a, f.f), "archSave"); ArchH c; archFromText(c, f.str()); DX r2; mustOk(SCOTCH_archDomFrst(c.a, &r2.d), "archDomFrst"); vector<pair<DX, DX>> all; same(h.a, c.a, root, r2, all, 500); for (auto& x : all) for (auto& y : all) CHECK(SCOTCH_archDomDist(h.a, &x.first.d, &y.first.d) == SCOTCH_archDomDist(c.a, &x.second.d, &y.second.d), "distance", "distances differ after reload");
    H.nontrivial++; feat("arch:own-deco"); sig(hashStr(s)); return;
  }
  auto h = genArch(r, r.chance(0.8) ? 24 : 90, true); desc("architecture %s", h->name.c_str()); MemFile f; errClear(); mustOk(SCOTCH_archSave(h->a, f.f), "archSave"); string s = f.str(); s += r.chance(0.5) ? "" : "\n12 7 trailing\n";
  ArchH c; archFromText(c, s); CHECK(!strcmp(SCOTCH_archName(h->a), SCOTCH_archName(c.a)), "name", "name %s became %s", SCOTCH_archName(h->a), SCOTCH_archName(c.a)); CHECK(SCOTCH_archVar(h->a) == SCOTCH_archVar(c.a), "var", "variable-size flag differs"); CHECK(SCOTCH_archSize(h->a) == SCOTCH_archSize(c.a), "size", "size %ld became %ld", (long)SCOTCH_archSize(h->a), (long)SCOTCH_archSize(c.a));
  MemFile f2; mustOk(SCOTCH_archSave(c.a, f2.f), "archSave"); { string u = f.str(), v = f2.str(); size_t k = 0; while (k < u.size() && k < v.size() && u[k] == v[k]) k++; if (k < u.size() && h->name.substr(0, 5) == "deco2") { ArchH c2; archFromText(c2, v); MemFile f3; mustOk(SCOTCH_archSave(c2.a, f3.f), "archSave"); u = f3.str(); } /* coarse graphs without edges lose their edge load flag */ CHECK(u == v, "generation", "saving what was loaded differs from byte %zu of %zu/%zu: %.60s / %.60s", k, u.size(), v.size(), u.c_str() + (k > 20 ? k - 20 : 0), v.c_str() + (k > 20 ? k - 20 : 0)); }
  DX ra, rc; mustOk(SCOTCH_archDomFrst(h->a, &ra.d), "archDomFrst"); mustOk(SCOTCH_archDomFrst(c.a, &rc.d), "archDomFrst"); vector<pair<DX, DX>> all; same(h->a, c.a, ra, rc, all, h->var ? 60 : 400);
  for (int k = 0; k < 3000; k++) { auto &x = all[r.below((long)all.size())], &y = all[r.below((long)all.size())]; long d = SCOTCH_archDomDist(h->a, &x.first.d, &y.first.d), e = SCOTCH_archDomDist(c.a, &x.second.d, &y.second.d); CHECK(d == e, "distance", "distance %ld became %ld", d, e); }
  for (long t = 0; t < h->size; t++) { if (h->name.substr(0, 4) == "deco" ) break; DX a, b; CHECK(SCOTCH_archDomTerm(h->a, &a.d, (Num)t) == 0 && SCOTCH_archDomTerm(c.a, &b.d, (Num)t) == 0, "terminal", "terminal %ld lost", t); long u = r.below(h->size); DX a2, b2; SCOTCH_archDomTerm(h->a, &a2.d, (Num)u); SCOTCH_archDomTerm(c.a, &b2.d, (Num)u); CHECK(SCOTCH_archDomDist(h->a, &a.d, &a2.d) == SCOTCH_archDomDist(c.a, &b.d, &b2.d), "distance", "distance of terminals %ld and %ld differs", t, u); if (h->dist) CHECK(SCOTCH_archDomDist(c.a, &b.d, &b2.d) == h->dist(t, u), "distance", "distance of terminals %ld and %ld", t, u); CHECK(SCOTCH_archDomWght(c.a, &b.d) == h->w(t), "weight", "weight of terminal %ld", t); }
  if (all.size() > 1) H.nontrivial++; sig(hashStr(s));
}
static void runCase(long n, Rng& r) { switch (n % 6) { case 0: case 1: caseMap(r); break; case 2: caseOrder(r); break; case 3: caseMeshOrder(r); break; default: caseArch(r); } }
