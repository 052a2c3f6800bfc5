// C11: files damaged at random are given to every loader: a clean refusal, or a structure which the checkers can judge; no crash, overrun, hang or leak.
#include "gen.hpp"
#include "mesh.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static string num(long v) { return std::to_string(v); }
static bool isnum(const string& t) { size_t i = (t[0] == '-' || t[0] == '+') ? 1 : 0; if (i >= t.size()) return false; for (; i < t.size(); i++) if (!isdigit((unsigned char)t[i])) return false; return true; }
// ---- damages: to words, lines, or bytes
static string damage(Rng& r, const string& s0, string& how) {
  string s = s0; int k = (int)r.range(1, r.chance(0.7) ? 1 : 4);
  while (k-- > 0) {
    vector<pair<size_t, size_t>> w; for (size_t i = 0; i < s.size();) { if (isspace((unsigned char)s[i])) { i++; continue; } size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j])) j++; w.push_back({i, j - i}); i = j; }
    if (w.empty()) { s += "0 "; continue; }
    size_t x = r.chance(0.4) ? r.below(std::min<size_t>(w.size(), 8)) : r.below(w.size()); string t = s.substr(w[x].first, w[x].second);
    switch (r.below(12)) {
      case 0: case 1: case 2: case 3: {                   // a number becomes another one
        long v = isnum(t) ? atol(t.c_str()) : 0; if (v > 4000000000L || v < -4000000000L) v = 7; static const char* q[] = {"-1", "0", "1", "2", "-2147483648", "2147483647", "2147483646", "4294967296", "99999999999999999999", "1000000", "-5", "3", "111", "1000", "65536", "50000000"};
        string n = r.chance(0.5) ? q[r.below(16)] : num(r.chance(0.5) ? v + r.range(-2, 2) : r.chance(0.5) ? -v : v * r.range(2, 50)); s.replace(w[x].first, w[x].second, n); how += fmt(" word %zu:%s->%s", x, t.c_str(), n.c_str()); break; }
      case 4: s.erase(w[x].first, w[x].second); how += fmt(" del %zu", x); break;
      case 5: s.insert(w[x].first, t + " "); how += fmt(" dup %zu", x); break;
      case 6: { size_t y = r.below(w.size()); string u = s.substr(w[y].first, w[y].second); if (w[x].first > w[y].first) { std::swap(x, y); std::swap(t, u); } if (x == y) break; s.replace(w[y].first, w[y].second, t); s.replace(w[x].first, w[x].second, u); how += fmt(" swap %zu,%zu", x, y); break; }
      case 7: { size_t p = r.below(s.size() + 1); s.resize(p); how += fmt(" cut at %zu", p); break; }
      case 8: { size_t p = r.below(s.size()); char c = (char)(r.chance(0.5) ? r.range(32, 126) : r.range(0, 255)); s[p] = c; how += fmt(" byte %zu=%d", p, (int)(unsigned char)c); break; }
      case 9: { static const char* q[] = {"x", "-", "+", ".", "%", "1.5", "1e9", "nan", "\n", " - 1", "--1", "0x10", "(", ")", "{", "\xff"}; const char* z = q[r.below(16)]; s.insert(w[x].first, z); how += fmt(" ins %zu %s", x, z); break; }
      case 10: { vector<size_t> l{0}; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\n') l.push_back(i + 1); size_t a = r.below(l.size()), e = a + 1 < l.size() ? l[a + 1] : s.size(); string y = s.substr(l[a], e - l[a]); if (r.chance(0.5)) s.erase(l[a], y.size()); else s.insert(l[a], y); how += fmt(" line %zu", a); break; }
      default: s += r.chance(0.5) ? " 1 2 3\n" : "zz"; how += " tail"; break;
    }
  }
  return s;
}
static char iobuf[1 << 16];
struct In { FILE* f; string s; In(const string& t) : s(t) { if (s.empty()) s = "\n"; f = memIn(s); setvbuf(f, iobuf, _IOFBF, sizeof iobuf); int c = getc(f); if (c != EOF) ungetc(c, f); } ~In() { fclose(f); } };
template <class F> static void balanced(const char* what, F fn) { g_err.reserve(1 << 17); errClear(); size_t a = __sanitizer_get_current_allocated_bytes(); fn(); size_t b = __sanitizer_get_current_allocated_bytes(); __atomic_fetch_add(&H.monitored, 1, __ATOMIC_RELAXED); if (b > a) throw std::make_pair(string(what), (long)(b - a)); }
#ifdef NODEBUG
static const bool DBG = false;
#else
static const bool DBG = true;
#endif
template <class T> static T* obj(size_t n) { return (T*)malloc(n); }
struct G { SCOTCH_Graph* g; G() { g = obj<SCOTCH_Graph>(SCOTCH_graphSizeof()); SCOTCH_graphInit(g); } ~G() { SCOTCH_graphExit(g); free(g); } };
static string goodGraph(Rng& r, LG& g) { g = genGraph(r, 40); addWeights(r, g); Num b = (Num)r.below(2); if (r.chance(0.4)) addLabels(r, g, b); PG p; p.layout(r, g, b, true); p.build(); MemFile f; mustOk(SCOTCH_graphSave(p.gr, f.f), "graphSave"); return f.str(); }
static void result(const char* what, int rc) { feat(fmt("%s:%s", what, rc ? "refused" : "accepted")); if (rc) H.nontrivial++; }
static void caseGraph(Rng& r) {
  LG g; string how, t = damage(r, goodGraph(r, g), how); Num b = r.chance(0.5) ? -1 : (Num)r.below(2), fl = (Num)r.below(4); desc("graph n=%ld base=%ld flags=%ld:%s", g.n, (long)b, (long)fl, how.c_str()); In in(t); int rc = 0, ck = 0;
  balanced("leak-graph", [&] { G h; rc = SCOTCH_graphLoad(h.g, in.f, b, fl); if (rc == 0) ck = SCOTCH_graphCheck(h.g); });
  CHECK(!DBG || rc != 0 || ck == 0, "accepted-invalid", "graphLoad accepts a graph which graphCheck refuses"); result("graph", rc); sig(hashStr(t));
}
static void caseMesh(Rng& r) {
  LM m = genMesh(r, 30); PM p; randomPM(r, p, m); MemFile f; mustOk(SCOTCH_meshSave(p.me, f.f), "meshSave"); string how, t = damage(r, f.str(), how); Num b = r.chance(0.5) ? -1 : (Num)r.below(2); desc("%s base=%ld:%s", showLM(m).c_str(), (long)b, how.c_str()); In in(t); int rc = 0, ck = 0;
  balanced("leak-mesh", [&] { SCOTCH_Mesh* me = obj<SCOTCH_Mesh>(SCOTCH_meshSizeof()); SCOTCH_meshInit(me); rc = SCOTCH_meshLoad(me, in.f, b); if (rc == 0) ck = SCOTCH_meshCheck(me); SCOTCH_meshExit(me); free(me); });
  CHECK(!DBG || rc != 0 || ck == 0, "accepted-invalid", "meshLoad accepts a mesh which meshCheck refuses"); result("mesh", rc); sig(hashStr(t));
}
static void caseArch(Rng& r) {
  string nm, how, t; { std::unique_ptr<ArchH> a = genArch(r, 20, true); MemFile m; mustOk(SCOTCH_archSave(a->a, m.f), "archSave"); t = m.str(); } t = damage(r, t, how); desc("architecture %.40s:%s", t.c_str(), how.c_str()); In in(t); int rc = 0;
  balanced("leak-arch", [&] { SCOTCH_Arch* a = obj<SCOTCH_Arch>(SCOTCH_archSizeof()); SCOTCH_archInit(a); rc = SCOTCH_archLoad(a, in.f); if (rc == 0) { Num n = SCOTCH_archSize(a); (void)n; SCOTCH_archName(a); } SCOTCH_archExit(a); free(a); });
  result("arch", rc); sig(hashStr(t));
}
static void caseMap(Rng& r) {
  LG g = genGraph(r, 40); if (g.n < 1) return; Num b = (Num)r.below(2); if (r.chance(0.5)) addLabels(r, g, b); PG p; p.layout(r, g, b, r.chance(0.5)); p.build(); string t = num(g.n) + "\n"; for (long v = 0; v < g.n; v++) t += num(g.vlbl.empty() ? v + b : (long)g.vlbl[v]) + "\t" + num(r.below(5)) + "\n"; string how; t = damage(r, t, how);
  bool tab = r.chance(0.4); desc("%s %s:%s", tab ? "partition" : "mapping", showLG(g).c_str(), how.c_str()); In in(t); int rc = 0; Buf part; vector<Num> z(g.n, 0); part.set(z); SCOTCH_Arch* a = obj<SCOTCH_Arch>(SCOTCH_archSizeof()); SCOTCH_archInit(a); SCOTCH_archCmplt(a, 5);
  balanced("leak-map", [&] { if (tab) rc = SCOTCH_graphTabLoad(p.gr, part.p, in.f); else { SCOTCH_Mapping* m = obj<SCOTCH_Mapping>(SCOTCH_mapSizeof()); SCOTCH_graphMapInit(p.gr, m, a, part.p); rc = SCOTCH_graphMapLoad(p.gr, m, in.f); SCOTCH_graphMapExit(p.gr, m); free(m); } });
  SCOTCH_archExit(a); free(a); result(tab ? "tab" : "map", rc); sig(hashStr(t));
}
static void caseOrder(Rng& r) {
  LG g = genGraph(r, 40); if (g.n < 1) return; Num b = (Num)r.below(2); PG p; p.layout(r, g, b, r.chance(0.5)); p.build(); vector<long> q(g.n); std::iota(q.begin(), q.end(), 0); r.shuffle(q); string t = num(g.n) + "\n"; for (long v = 0; v < g.n; v++) t += num(v + b) + "\t" + num(q[v] + b) + "\n"; string how; t = damage(r, t, how); desc("ordering %s:%s", showLG(g).c_str(), how.c_str()); In in(t); int rc = 0, ck = 0; Buf pe; pe.set(vector<Num>(g.n, 0)); bool inv = r.chance(0.5); Buf iv; iv.set(vector<Num>(g.n, 0));
  balanced("leak-order", [&] { SCOTCH_Ordering* o = obj<SCOTCH_Ordering>(SCOTCH_orderSizeof()); SCOTCH_graphOrderInit(p.gr, o, pe.p, inv ? iv.p : nullptr, nullptr, nullptr, nullptr); rc = SCOTCH_graphOrderLoad(p.gr, o, in.f); if (rc == 0) ck = SCOTCH_graphOrderCheck(p.gr, o); SCOTCH_graphOrderExit(p.gr, o); free(o); });
  CHECK(rc != 0 || ck == 0, "accepted-invalid", "graphOrderLoad accepts an ordering which graphOrderCheck refuses"); result("order", rc); sig(hashStr(t));
}
static void caseGeom(Rng& r) {
  LG g = genGraph(r, 30); if (g.n < 1) return; Num b = (Num)r.below(2); if (r.chance(0.3)) addLabels(r, g, b); PG p; p.layout(r, g, b, r.chance(0.5)); p.build(); int d = (int)r.range(1, 3); string gt; { MemFile f; mustOk(SCOTCH_graphSave(p.gr, f.f), "graphSave"); gt = f.str(); }
  string t = num(d) + "\n" + num(g.n) + "\n"; for (long v = 0; v < g.n; v++) { t += num(g.vlbl.empty() ? v + b : (long)g.vlbl[v]); for (int i = 0; i < d; i++) t += fmt("\t%g", (double)r.range(-99, 99) / 4); t += "\n"; } string how; if (r.chance(0.9)) t = damage(r, t, how); if (r.chance(0.1)) gt = damage(r, gt, how); desc("geometry %s:%s", showLG(g).c_str(), how.c_str()); In ig(gt); FILE* tf = memIn(t); static char b2[1 << 16]; setvbuf(tf, b2, _IOFBF, sizeof b2); int c = getc(tf); if (c != EOF) ungetc(c, tf); int rc = 0;
  balanced("leak-geom", [&] { G h; SCOTCH_Geom* ge = obj<SCOTCH_Geom>(SCOTCH_geomSizeof()); SCOTCH_geomInit(ge); rc = SCOTCH_graphGeomLoadScot(h.g, ge, ig.f, tf, nullptr); SCOTCH_geomExit(ge); free(ge); }); fclose(tf);
  result("geom", rc); sig(hashStr(t));
}
static void caseForeign(Rng& r, int k) {
  LG g = genGraph(r, 30); if (g.n < 1) return; string t; const char* nm; bool w = r.chance(0.3);
  if (k == 0) { nm = "chaco"; t = num(g.n) + " " + num(g.arcs() / 2) + (w ? " 11" : "") + "\n"; for (long v = 0; v < g.n; v++) { if (w) t += num(r.range(1, 9)); for (auto& e : g.adj[v]) t += " " + num(e.first + 1) + (w ? " 3" : ""); t += "\n"; } }
  else { nm = "mmkt"; t = "%%MatrixMarket matrix coordinate pattern symmetric\n% comment\n" + num(g.n) + " " + num(g.n) + " " + num(g.arcs() / 2) + "\n"; for (long v = 0; v < g.n; v++) for (auto& e : g.adj[v]) if (e.first < v) t += num(v + 1) + " " + num(e.first + 1) + "\n"; }
  string how; t = damage(r, t, how); desc("%s %s:%s", nm, showLG(g).c_str(), how.c_str()); In in(t); int rc = 0, ck = 0;
  balanced("leak-foreign", [&] { G h; rc = k == 0 ? SCOTCH_graphGeomLoadChac(h.g, nullptr, in.f, nullptr, nullptr) : SCOTCH_graphGeomLoadMmkt(h.g, nullptr, in.f, nullptr, nullptr); if (rc == 0) ck = SCOTCH_graphCheck(h.g); });
  CHECK(!DBG || rc != 0 || ck == 0, "accepted-invalid", "%s loader accepts a graph which graphCheck refuses", nm); result(nm, rc); sig(hashStr(t));
}
static void runCase(long n, Rng& r) {
  try { switch (n % 10) { case 0: case 1: case 2: caseGraph(r); break; case 3: case 4: caseMesh(r); break; case 5: caseArch(r); break; case 6: caseMap(r); break; case 7: caseOrder(r); break; case 8: caseGeom(r); break; default: caseForeign(r, (int)(n / 10 % 2)); } }
  catch (std::pair<string, long>& e) { CHECK(false, e.first.c_str(), "%ld bytes not returned", e.second); }
}
