// C24: the command-line programs, run as processes on files; exit statuses, output files and figures compared with independent recomputation.
#include "genord.hpp"
#include "mesh.hpp"
#include <spawn.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <time.h>
#include <dirent.h>

static string S, BIN;                                    // scratch directory, programs
static string num(long v) { return std::to_string(v); }
static void spit(const string& f, const string& t) { FILE* o = fopen(f.c_str(), "w"); if (!o) abort(); fwrite(t.data(), 1, t.size(), o); fclose(o); }
static string readF(const string& f) { FILE* i = fopen(f.c_str(), "r"); if (!i) return "\x01missing"; string s = slurp(i); fclose(i); return s; }
static bool have(const string& f) { struct stat s; return stat(f.c_str(), &s) == 0; }
extern char** environ;
static int run(const vector<string>& a, const string& in = "/dev/null", bool tool = true) {     // exit status of a program; its streams go to S/out and S/err
  vector<char*> av; string x = tool ? BIN + "/" + a[0] : a[0]; for (auto& s : a) av.push_back((char*)s.c_str()); av.push_back(nullptr);
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 0, in.c_str(), O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, (S + "/out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); posix_spawn_file_actions_addopen(&fa, 2, (S + "/err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  pid_t p; int e = posix_spawnp(&p, x.c_str(), &fa, nullptr, av.data(), environ); posix_spawn_file_actions_destroy(&fa); if (e) { fprintf(stderr, "cannot start %s\n", x.c_str()); abort(); }
  int st = 0; time_t t0 = time(nullptr); while (waitpid(p, &st, WNOHANG) == 0) { usleep(500); if (time(nullptr) - t0 > 60) { kill(p, SIGKILL); waitpid(p, &st, 0); string c; for (auto& s : a) c += s + " "; viol("hang", "%s does not end within 60 s", c.c_str()); } }
  string er = readF(S + "/err"); string c; for (auto& s : a) c += s + " "; desc("%s", c.c_str());
  if (tool) { CHECK(WIFEXITED(st) && er.find("Sanitizer") == string::npos && er.find("runtime error") == string::npos, "crash", "%s died: status 0x%x, %s", c.c_str(), st, er.substr(0, 900).c_str()); feat("run:" + a[0]); }
  return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
static void ok(const vector<string>& a, const string& in = "/dev/null") { int rc = run(a, in); CHECK(rc == 0, "exit-status", "%s fails on valid input with status %d: %s", a[0].c_str(), rc, readF(S + "/err").substr(0, 400).c_str()); }
static void bad(const vector<string>& a, const char* why, const string& in = "/dev/null") { int rc = run(a, in); CHECK(rc != 0, "exit-status", "%s ends with success, %s", a[0].c_str(), why); CHECK(!readF(S + "/err").empty(), "no-message", "%s fails without any message, %s", a[0].c_str(), why); }
// Input and output files, now and then compressed, or passed through the standard streams.
struct In { string name, in = "/dev/null"; };
static In input(Rng& r, const string& nm, const string& t, bool std1 = true) {
  In f; f.name = S + "/" + nm; int k = (int)r.below(12);
  if (k == 0 && std1) { f.in = f.name; spit(f.in, t); f.name = "-"; feat("stream:stdin"); return f; }
  spit(f.name, t); if (k < 4 && k > 0) { static const char* z[] = {"gzip", "bzip2", "xz"}; static const char* e[] = {".gz", ".bz2", ".xz"}; int q = k - 1; if (run({z[q], "-f", f.name}, "/dev/null", false) != 0) abort(); f.name += e[q]; feat(string("compressed-input") + e[q]); }
  return f;
}
static string outName(Rng& r, const string& nm) { int k = (int)r.below(12); static const char* e[] = {".gz", ".bz2", ".xz", ".lzma"}; if (k == 0) return "-"; return S + "/" + nm + (k < 5 ? e[k - 1] : ""); }
static string outText(const string& f) {                 // contents of an output file, decompressed if need be by the usual tools
  if (f == "-") { feat("stream:stdout"); return readF(S + "/out"); }
  size_t p = f.rfind('.'); string e = p == string::npos ? "" : f.substr(p); const char* z = e == ".gz" ? "gzip" : e == ".bz2" ? "bzip2" : e == ".xz" || e == ".lzma" ? "xz" : nullptr;
  CHECK(have(f), "no-output", "output file %s was not written", f.c_str()); if (!z) return readF(f);
  feat("compressed-output" + e); int rc = run({z, "-dc", f}, "/dev/null", false); CHECK(rc == 0, "compressed-output", "output file %s cannot be read by %s", f.c_str(), z); return readF(S + "/out");
}
static vector<long> ints(const string& s, const char* what) { vector<long> t; const char* c = s.c_str(); char* e; for (;;) { long x = strtol(c, &e, 10); if (e == c) break; t.push_back(x); c = e; } while (*c == ' ' || *c == '\n' || *c == '\t' || *c == '\r') c++; CHECK(*c == 0, "output-format", "%s holds unexpected text: %.40s", what, c); return t; }
static string graphText(const LG& g, Num b, bool L = true) {
  L = L && !g.vlbl.empty(); bool V = !g.velo.empty(), E = g.edlo; string s = "0\n" + num(g.n) + "\t" + num(g.arcs()) + "\n" + num(b) + "\t" + fmt("%d%d%d", L, E, V) + "\n";
  for (long v = 0; v < g.n; v++) { if (L) s += num(g.vlbl[v]) + "\t"; if (V) s += num(g.velo[v]) + "\t"; s += num((long)g.adj[v].size()); for (auto& e : g.adj[v]) { if (E) s += "\t" + num(e.second); s += "\t" + num(L ? (long)g.vlbl[e.first] : (long)e.first + b); } s += "\n"; }
  return s;
}
static LG parseGraph(const string& s, Num* base, const char* what) {     // strict reader of graph files
  auto t = ints(s, what); size_t p = 0; auto nx = [&]() { CHECK(p < t.size(), "output-format", "%s is truncated", what); return t[p++]; }; LG g; CHECK(nx() == 0, "output-format", "%s: version", what); g.n = nx(); long arcs = nx(), b = nx(), fl = nx(); if (base) *base = (Num)b;
  bool L = fl / 100 % 10, E = fl / 10 % 10, V = fl % 10; g.edlo = E; g.adj.resize(g.n); map<long, int> ix; vector<vector<long>> nb(g.n);
  for (long v = 0; v < g.n; v++) { long l = L ? nx() : v + b; ix[l] = (int)v; if (L) g.vlbl.push_back((Num)l); if (V) g.velo.push_back((Num)nx()); long d = nx(); for (long i = 0; i < d; i++) { Num w = E ? (Num)nx() : 1; nb[v].push_back(nx()); g.adj[v].push_back({0, w}); } }
  for (long v = 0; v < g.n; v++) for (size_t i = 0; i < nb[v].size(); i++) { auto it = ix.find(nb[v][i]); CHECK(it != ix.end(), "output-format", "%s: edge end %ld is no vertex", what, nb[v][i]); g.adj[v][i].first = it->second; }
  CHECK(p == t.size() && g.arcs() == arcs, "output-format", "%s: %ld arcs announced, %ld found, %ld numbers left", what, arcs, g.arcs(), (long)(t.size() - p)); sortAdj(g); string e = validLG(g); CHECK(e.empty(), "output-graph", "%s: %s", what, e.c_str()); return g;
}
static void sameG(LG a, LG b, const char* what, bool w = true) { sortAdj(a); sortAdj(b); CHECK(a.n == b.n, "output-graph", "%s has %ld vertices instead of %ld", what, b.n, a.n); for (long v = 0; v < a.n; v++) { CHECK(a.adj[v].size() == b.adj[v].size(), "output-graph", "%s: vertex %ld has %zu neighbours instead of %zu", what, v, b.adj[v].size(), a.adj[v].size()); for (size_t i = 0; i < a.adj[v].size(); i++) CHECK(a.adj[v][i].first == b.adj[v][i].first && (!w || a.adj[v][i].second == b.adj[v][i].second), "output-graph", "%s: arcs of vertex %ld differ", what, v); if (w) CHECK(a.vl(v) == b.vl(v), "output-graph", "%s: load of vertex %ld differs", what, v); } }
static vector<double> figures(const string& t, const string& head, const char* what) {      // the numbers following the tab-separated header of a line
  size_t p = t.find(head); CHECK(p != string::npos && (p == 0 || t[p - 1] == '\n'), "figures", "%s: no line '%s' in %.300s", what, head.c_str(), t.c_str()); string l = t.substr(p + head.size(), t.find('\n', p) - p - head.size()); vector<double> v; const char* c = l.c_str(); while (*c) { char* e; if ((isdigit((unsigned char)*c) || (*c == '-' && isdigit((unsigned char)c[1])))) { v.push_back(strtod(c, &e)); c = e; } else c++; } return v;
}
static void eq(double got, double want, const char* what, double tol = 2e-5) { CHECK(std::fabs(got - want) <= tol * std::max(1.0, std::fabs(want)), "figures", "%s: %g displayed, %g computed", what, got, want); }
struct Stat { double mn, mx, sum, avg, dlt; };
static Stat statOf(const vector<double>& v) { Stat s{1e300, -1e300, 0, 0, 0}; for (double x : v) { s.mn = std::min(s.mn, x); s.mx = std::max(s.mx, x); s.sum += x; } if (v.empty()) return Stat{0, 0, 0, 0, 0}; s.avg = s.sum / v.size(); for (double x : v) s.dlt += std::fabs(x - s.avg); s.dlt /= v.size(); return s; }
static void eqStat(const vector<double>& f, const Stat& s, const char* what) { CHECK(f.size() == 5, "figures", "%s: five figures expected", what); eq(f[0], s.mn, what); eq(f[1], s.mx, what); eq(f[2], s.sum, what); eq(f[3], s.avg, what); eq(f[4], s.dlt, what); }
static LG someGraph(Rng& r, long nmax, bool weights = true) { LG g = genGraph(r, nmax); while (g.n < 2) g = genGraph(r, nmax); if (weights && r.chance(0.5)) { addWeights(r, g, false, 50); } return g; }

// ---- gtst, gbase, and refusals
static string damage(Rng& r, const LG& g, Num b, string& why) {
  LG h = g; h.vlbl.clear(); int k = (int)r.below(6); string t = graphText(h, b, false); long v = r.below(h.n); for (int i = 0; i < 200 && h.adj[v].empty(); i++) v = r.below(h.n); if (h.adj[v].empty()) k = 4; size_t i = h.adj[v].empty() ? 0 : (size_t)r.below((long)h.adj[v].size());
  switch (k) {
    case 0: h.adj[v][i].first = (int)(h.n + r.below(3)); why = "an edge end is out of range"; t = graphText(h, b, false); break;
    case 1: h.adj[v][i].first = (int)v; why = "there is a loop"; t = graphText(h, b, false); break;
    case 2: h.adj[v].erase(h.adj[v].begin() + i); why = "an arc has no reverse arc"; t = graphText(h, b, false); break;
    case 3: { string x = "0\n" + num(g.n) + "\t" + num(g.arcs() + 1 + r.below(3)) + "\n"; t = x + t.substr(t.find('\n', 2) + 1); why = "the number of arcs is wrong"; break; }
    case 4: { t = t.substr(0, t.size() - 1); size_t p = t.find_last_of("\t\n"); t = t.substr(0, p); p = t.find_last_of("\t\n"); if (p != string::npos && r.chance(0.7)) t = t.substr(0, p); why = "the file is truncated"; break; }
    default: t = (r.chance(0.5) ? "3\n" : "x\n") + t.substr(2); why = "the version number is wrong"; break;
  }
  return t;
}
static void caseGtst(Rng& r) {
  LG g = someGraph(r, 80); Num b = (Num)r.below(2);
  if (r.chance(0.35)) { string why, t = damage(r, g, b, why); In f = input(r, "g.grf", t); string p = r.chance(0.6) ? "gtst" : r.chance(0.5) ? "gord" : "gpart"; vector<string> a = p == "gtst" ? vector<string>{p, f.name, S + "/o"} : p == "gord" ? vector<string>{p, f.name, S + "/o", S + "/l"} : vector<string>{p, "3", f.name, S + "/o", S + "/l"}; if (p != "gtst" && why[0] != 't') a = {p = "gtst", f.name, S + "/o"}; bad(a, why.c_str(), f.in); feat("damaged"); H.nontrivial++; return; }
  if (r.chance(0.3)) addLabels(r, g, b);
  In f = input(r, "g.grf", graphText(g, b)); string o = outName(r, "o");
  if (r.chance(0.4)) { long nb = r.below(3); ok({"gbase", num(nb), f.name, o}, f.in); Num gb; LG q = parseGraph(outText(o), &gb, "gbase output"); CHECK(gb == nb, "output-graph", "base %ld instead of %ld", (long)gb, nb); sameG(g, q, "gbase output"); H.nontrivial++; return; }
  ok({"gtst", f.name, o}, f.in); string t = outText(o); eq(figures(t, "S\tVertex\tnbr=", "gtst")[0], (double)g.n, "vertices"); eq(figures(t, "S\tEdge\tnbr=", "gtst")[0], g.arcs() / 2.0, "edges");
  vector<double> vl, dg, el; for (long v = 0; v < g.n; v++) { vl.push_back(g.vl(v)); dg.push_back((double)g.adj[v].size()); for (auto& e : g.adj[v]) el.push_back(e.second); }
  eqStat(figures(t, "S\tVertex load\t", "gtst"), statOf(vl), "vertex load"); eqStat(figures(t, "S\tVertex degree\t", "gtst"), statOf(dg), "vertex degree");
  auto f5 = figures(t, "S\tEdge load\t", "gtst"); Stat s = statOf(el); if (!el.empty()) { if (f5.size() == 5 && f5[2] * 2 == s.sum) s.sum /= 2; eqStat(f5, s, "edge load"); }
  H.nontrivial++; sig(hashLG(g));
}
// ---- gpart, gmap, gmtst
static vector<long> parts(const string& t, const LG& g, Num b, const char* what) {
  auto v = ints(t, what); CHECK(!v.empty() && v[0] == g.n && (long)v.size() == 1 + 2 * g.n, "output-format", "%s: %zu numbers for %ld vertices", what, v.size(), g.n); map<long, long> m; for (size_t i = 1; i < v.size(); i += 2) CHECK(m.emplace(v[i], v[i + 1]).second, "output-mapping", "%s: vertex %ld twice", what, v[i]);
  vector<long> p(g.n); for (long i = 0; i < g.n; i++) { auto it = m.find(g.vlbl.empty() ? i + b : (long)g.vlbl[i]); CHECK(it != m.end(), "output-mapping", "%s: vertex %ld missing", what, i); p[i] = it->second; } return p;
}
static void checkView(const string& t, const LG& g, const vector<long>& p, long k, const char* what) {
  if (g.arcs() == 0) return;
  auto f = figures(t, "M\tProcessors ", what); set<long> u(p.begin(), p.end()); CHECK(f.size() >= 2, "figures", "%s", what); eq(f[0], (double)u.size(), "parts used"); eq(f[1], (double)k, "parts");
  vector<double> ld(k, 0); for (long v = 0; v < g.n; v++) ld[p[v]] += g.vl(v); double cut = 0; for (long v = 0; v < g.n; v++) for (auto& e : g.adj[v]) if (p[v] != p[e.first]) cut += e.second; cut /= 2;
  auto c = figures(t, "M\tCommCutSz=", what); CHECK(c.size() >= 2, "figures", "%s: cut", what); eq(c[1], cut, "cut load"); auto l = figures(t, "M\tTarget min=", what); CHECK(l.size() >= 3, "figures", "%s: target", what); double mn = 1e300; for (long i : u) mn = std::min(mn, ld[i]); eq(l[0], mn, "smallest load"); eq(l[1], *std::max_element(ld.begin(), ld.end()), "largest load");
}
static void caseMap(Rng& r) {
  LG g = someGraph(r, 120); Num b = (Num)r.below(2); if (r.chance(0.3)) addLabels(r, g, b); In f = input(r, "g.grf", graphText(g, b)); string o = outName(r, "o"), lg = S + "/log"; int mode = (int)r.below(10); long k = r.range(1, 9); vector<string> ex; auto lab = [&](long v) { return g.vlbl.empty() ? v + b : (long)g.vlbl[v]; };
  if (r.chance(0.3)) ex.push_back(fmt("-b%.2f", 0.01 + r.unit() * 0.4)); if (r.chance(0.3)) { static const char* c[] = {"-cb", "-cq", "-cr", "-cs", "-ct", "-cbq", "-cqr", "-cst"}; ex.push_back(c[r.below(8)]); } if (r.chance(0.2)) ex.push_back(r.chance(0.5) ? "-Cd" : "-Cu");
  bool se = r.chance(0.15), sv = r.chance(0.15); if (se) ex.push_back("-se"); if (sv) ex.push_back("-sv"); LG q = g; if (se) { for (auto& a : q.adj) for (auto& e : a) e.second = 1; } if (sv) q.velo.clear();
  if (ex.empty() && r.chance(0.3)) ex.push_back("-mr{sep=h{pass=10}f{bal=0.05}}"); ex.push_back("-vms");
  auto go = [&](vector<string> a) { size_t at = a.size(); for (auto& e : ex) a.insert(a.begin() + (r.chance(0.5) ? 1 : (long)at), e); ok(a, f.in); };
  if (mode == 0) {                                        // overlap
    while (!ex.empty() && ex[0][0] == '-' && ex[0][1] == 'm') ex.erase(ex.begin()); ex.push_back("-o"); go({"gpart", num(k), f.name, o, lg}); auto p = parts(outText(o), g, b, "overlap partition"); vector<double> ld(k, 0); for (long v = 0; v < g.n; v++) { CHECK(p[v] >= -1 && p[v] < k, "output-mapping", "part %ld", p[v]); for (auto& e : g.adj[v]) CHECK(p[v] < 0 || p[e.first] < 0 || p[v] == p[e.first], "output-mapping", "edge %ld-%d joins parts %ld and %ld", v, e.first, p[v], p[e.first]); }
    feat("overlap"); H.nontrivial++; return;
  }
  if (mode == 1) {                                        // clustering: parts of bounded load
    LG h = q; long sum = (long)q.velosum(), lim = std::max(1L, sum / r.range(2, 9)); long mx = 1; for (long v = 0; v < g.n; v++) mx = std::max(mx, (long)q.vl(v)); for (size_t i = 0; i < ex.size();) if (ex[i][1] == 'm') ex.erase(ex.begin() + i); else i++; bool hasStrat = false; for (auto& e : ex) if (e[1] == 'c' || e[1] == 'b') hasStrat = true; if (!hasStrat) ex.push_back("-cq");
    if (r.chance(0.5)) { spit(S + "/t", "varcmplt\n"); ex.push_back("-q" + num(lim)); go({"gmap", f.name, S + "/t", o, lg}); } else { ex.push_back("-q"); go({"gpart", num(lim), f.name, o, lg}); }
    auto p = parts(outText(o), g, b, "clustering"); for (long v = 0; v < g.n; v++) CHECK(p[v] >= 1, "output-mapping", "domain label %ld", p[v]);
    feat("cluster"); H.nontrivial++; return;
  }
  vector<long> fx(g.n, -1); bool fixed = r.chance(0.3); string tg, tname; std::unique_ptr<ArchH> a;
  bool part = r.chance(0.5); if (!part) { static const int ks[] = {0, 3, 4, 5, 7, 10}; do a = genArch(r, 12, false, ks[r.below(6)], false); while (a->size < 1); k = a->size; MemFile m; mustOk(SCOTCH_archSave(a->a, m.f), "archSave"); fflush(m.f); tg = slurp(m.f); tname = input(r, "t.tgt", tg, false).name; }
  if (fixed) { string t; long c = 0; for (long v = 0; v < g.n; v++) if (r.chance(0.3) || (v == g.n - 1 && c == 0)) { fx[v] = r.below(k); t += num(lab(v)) + "\t" + num(fx[v]) + "\n"; c++; } ex.push_back("-f" + input(r, "fix", num(c) + "\n" + t, false).name); feat("fixed"); }
  bool remap = r.chance(0.3); for (auto& e : ex) if (e.compare(0, 2, "-m") == 0) remap = false; if (remap) { string t = num(g.n) + "\n"; for (long v = 0; v < g.n; v++) t += num(lab(v)) + "\t" + num(r.below(k)) + "\n"; ex.push_back("-ro" + input(r, "old", t, false).name); if (r.chance(0.5)) ex.push_back(fmt("-rr%.2f", 0.2 + r.unit() * 3)); if (r.chance(0.4)) { string c = num(g.n) + "\n"; for (long v = 0; v < g.n; v++) c += num(lab(v)) + "\t" + num(r.range(1, 9)) + "\n"; ex.push_back("-rv" + input(r, "cost", c, false).name); } feat("remap"); }
  if (part) go({"gpart", num(k), f.name, o, lg}); else go({"gmap", f.name, tname, o, lg});
  string mt = outText(o); auto p = parts(mt, g, b, "mapping"); for (long v = 0; v < g.n; v++) { CHECK(p[v] >= 0 && p[v] < k, "output-mapping", "part %ld of %ld", p[v], k); if (fx[v] >= 0) CHECK(p[v] == fx[v], "output-mapping", "fixed vertex %ld moved from %ld to %ld", v, fx[v], p[v]); }
  bool weighted = a && !a->wght.empty(); string l = readF(lg); CHECK(l.find("S\tStrat=") != string::npos, "output-format", "no strategy in the log"); if (!weighted) checkView(l, q, p, k, "gmap log");
  if (r.chance(0.7)) { In f2 = input(r, "g2.grf", graphText(g, b)); if (part) { tname = S + "/t2"; spit(tname, "cmplt " + num(k) + "\n"); } string mp = input(r, "m.map", mt, false).name, d = outName(r, "d"); ok({"gmtst", f2.name, tname, mp, d}, f2.in); if (!weighted) checkView(outText(d), g, p, k, "gmtst output"); feat("gmtst"); }
  if (k > 1) H.nontrivial++; sig(hash64(hashLG(g), k));
}
// ---- gord, gotst, gout
static void caseOrd(Rng& r) {
  LG g = someGraph(r, 150); Num b = (Num)r.below(2); if (r.chance(0.3)) addLabels(r, g, b); In f = input(r, "g.grf", graphText(g, b)); string o = outName(r, "o"), tr = S + "/tree" + (r.chance(0.3) ? ".gz" : ""), mp = S + "/map" + (r.chance(0.3) ? ".bz2" : ""); vector<string> a{"gord", f.name, o, S + "/log"};
  if (r.chance(0.5)) { static const char* c[] = {"-cb", "-cq", "-cs", "-ct", "-cbqt"}; a.insert(a.begin() + 1, c[r.below(5)]); } else if (r.chance(0.5)) { a.push_back("-o" + genOrd(r, 2)); } if (r.chance(0.2)) a.push_back("-vs"); a.push_back("-t" + tr); a.insert(a.begin() + 1, "-m" + mp);
  ok(a, f.in); string ot = outText(o); auto p = parts(ot, g, b, "ordering"); vector<char> s(g.n);
  if (!g.vlbl.empty()) { set<long> q(p.begin(), p.end()); if (!((long)q.size() == g.n && *q.begin() == b && *q.rbegin() == b + g.n - 1)) { map<long, long> ix; for (long v = 0; v < g.n; v++) ix[g.vlbl[v]] = v; for (auto& x : p) { auto it = ix.find(x); CHECK(it != ix.end(), "output-ordering", "rank %ld is neither a number nor a label", x); x = it->second + b; } } } for (long v = 0; v < g.n; v++) { CHECK(p[v] >= b && p[v] < g.n + b && !s[p[v] - b], "output-ordering", "rank %ld of vertex %ld", p[v], v); s[p[v] - b] = 1; }
  { auto cb = parts(outText(mp), g, b, "block mapping"); auto t = parts(outText(tr), g, b, "separator tree"); map<long, long> fa; vector<long> inv(g.n); for (long v = 0; v < g.n; v++) inv[p[v] - b] = v; for (long v = 0; v < g.n; v++) { auto it = fa.emplace(cb[v], t[v]); CHECK(it.first->second == t[v], "output-ordering", "vertices of block %ld have fathers %ld and %ld", cb[v], it.first->second, t[v]); } auto follows = [&](const vector<long>& iv, long& at) { for (at = 1; at < g.n; at++) if (cb[iv[at]] != cb[iv[at - 1]] && cb[iv[at]] != cb[iv[at - 1]] + 1) return false; return true; }; long at = 0; bool good = follows(inv, at); long x0 = good ? 0 : cb[inv[at - 1]], x1 = good ? 0 : cb[inv[at]];
    if (!good && !g.vlbl.empty()) {                       // labels which are a permutation of the numbers: the file may hold labels of ranks
      map<long, long> ix; for (long v = 0; v < g.n; v++) ix[g.vlbl[v]] = v; bool all = true; vector<long> iv(g.n); for (long v = 0; v < g.n; v++) { auto it = ix.find(p[v]); if (it == ix.end()) { all = false; break; } iv[it->second] = v; } long z; if (all) good = follows(iv, z); }
    CHECK(good, "output-ordering", "blocks %ld and %ld follow one another", x0, x1); }
  vector<long> rk(g.n); for (long v = 0; v < g.n; v++) rk[v] = p[v] - b;
  if (g.vlbl.empty()) { bool nov = r.chance(0.5); In f2 = input(r, "g2.grf", graphText(g, b)); string om = input(r, "o.ord", ot, false).name, d = outName(r, "d"); vector<string> c{"gotst", f2.name, om, d}; if (nov) c.push_back("-v"); ok(c, f2.in); string t = outText(d);
    // elimination tree, column structures
    long n = g.n; vector<set<long>> st(n); vector<long> par(n, -1), inv(n); for (long v = 0; v < n; v++) inv[rk[v]] = v; auto w = [&](long i) { return nov ? 1.0 : (double)g.vl(inv[i]); }; double nnz = 0, opc = 0;
    for (long i = 0; i < n; i++) { for (auto& e : g.adj[inv[i]]) if (rk[e.first] > i) st[i].insert(rk[e.first]); if (!st[i].empty()) { par[i] = *st[i].begin(); } double s2 = w(i); for (long x : st[i]) s2 += w(x); nnz += w(i) * s2; opc += w(i) * s2 * s2; if (par[i] >= 0) for (long x : st[i]) if (x > par[i]) st[par[i]].insert(x); st[i].clear(); }
    vector<long> lev(n), sons(n, 0); for (long i = n - 1; i >= 0; i--) { lev[i] = par[i] < 0 ? 1 : lev[par[i]] + 1; if (par[i] >= 0) sons[par[i]]++; } vector<double> h; for (long i = 0; i < n; i++) if (!sons[i]) h.push_back((double)lev[i]); Stat hs = statOf(h);
    eq(figures(t, "O\tLeaf=", "gotst")[0], (double)h.size(), "leaves"); auto fh = figures(t, "O\tHeight min=", "gotst"); CHECK(fh.size() >= 4, "figures", "gotst height"); eq(fh[0], hs.mn, "smallest height"); eq(fh[1], hs.mx, "largest height"); eq(fh[2], hs.avg, "average height"); eq(fh[3], hs.dlt, "height delta"); eq(figures(t, "O\tNNZ=", "gotst")[0], nnz, "factor size"); eq(figures(t, "O\tOPC=", "gotst")[0], opc, "operation count");
    if (r.chance(0.3) && n > 2) { auto x = ints(ot, "ordering"); long i = 2 * r.below(n), j = 2 * r.below(n); if (i != j) { x[2 + i] = x[2 + j]; string q = num(n) + "\n"; for (size_t k = 1; k < x.size(); k += 2) q += num(x[k]) + "\t" + num(x[k + 1]) + "\n"; spit(S + "/bad", q); bad({"gotst", f2.name, S + "/bad", S + "/d2"}, "the ordering holds a rank twice", f2.in); feat("damaged"); } }
  }
  H.nontrivial++; sig(hashLG(g));
}
// ---- graph generators
static void caseGmk(Rng& r) {
  int k = (int)r.below(6); string o = outName(r, "o"), geo = S + "/geo"; Num bb;
  if (k == 0) { long d = r.range(1, 8); ok({"gmk_hy", num(d), o}); LGB B(1L << d); for (long v = 0; v < B.n; v++) for (int i = 0; i < d; i++) B.e(v, v ^ (1L << i)); sameG(finish(B, "h", r, false), parseGraph(outText(o), &bb, "gmk_hy"), "gmk_hy output"); }
  else if (k == 1) { long d = r.range(1, 9); ok({"gmk_ub2", num(d), o}); long n = 1L << d; LGB B(n); for (long v = 0; v < n; v++) { B.e(v, (v << 1) & (n - 1)); B.e(v, ((v << 1) & (n - 1)) | 1); } sameG(finish(B, "u", r, false), parseGraph(outText(o), &bb, "gmk_ub2"), "gmk_ub2 output"); }
  else {
    int dim = k <= 3 ? 2 : 3; long d[3] = {r.range(1, 9), r.range(1, 9), dim == 3 ? r.range(1, 6) : 1}; bool tor = r.chance(0.5), el = dim == 2 && r.chance(0.5), ge = r.chance(0.6), iy = r.chance(0.4); long b = r.below(2); vector<string> a{dim == 2 ? "gmk_m2" : "gmk_m3"}; for (int i = 0; i < dim; i++) a.push_back(num(d[i])); a.push_back(o); if (tor) a.insert(a.begin() + 1, "-t"); if (el) a.push_back("-e"); if (ge) a.push_back("-g" + geo); if (iy) a.push_back("-y"); if (b || r.chance(0.5)) a.push_back("-b" + num(b));
    if (el && tor && (d[0] < 3 || d[1] < 3)) { feat("skip:small-8-torus"); H.nontrivial++; return; }
    ok(a); long n = d[0] * d[1] * d[2]; LGB B(n); auto id = [&](long x, long y, long z) -> long { long c[3] = {x, y, z}; for (int i = 0; i < 3; i++) { if (c[i] < 0 || c[i] >= d[i]) { if (!tor) return -1; c[i] = (c[i] + d[i]) % d[i]; } } return (c[2] * d[1] + c[1]) * d[0] + c[0]; };
    for (long z = 0; z < d[2]; z++) for (long y = 0; y < d[1]; y++) for (long x = 0; x < d[0]; x++) { long v = id(x, y, z); auto e = [&](long w) { if (w >= 0) B.e(v, w); }; e(id(x + 1, y, z)); e(id(x, y + 1, z)); e(id(x, y, z + 1)); if (el) { e(id(x + 1, y + 1, z)); e(id(x + 1, y - 1, z)); } }
    sameG(finish(B, "m", r, false), parseGraph(outText(o), &bb, "gmk_m"), "grid output"); CHECK(bb == b, "output-graph", "base %ld instead of %ld", (long)bb, b);
    if (ge) { auto t = ints(readF(geo), "geometry"); CHECK((long)t.size() == 2 + n * (dim + 1) && t[0] == dim && t[1] == n, "output-geometry", "geometry header %ld %ld, %zu numbers", t[0], t[1], t.size()); for (long v = 0; v < n; v++) { long* q = &t[2 + v * (dim + 1)]; long x = q[1], y = iy ? d[1] - 1 - q[2] : q[2], z = dim == 3 ? q[3] : 0; CHECK(q[0] == v + b && (z * d[1] + y) * d[0] + x == v, "output-geometry", "vertex %ld at %ld %ld %ld", q[0], x, y, z); } feat("geometry"); }
  }
  H.nontrivial++;
}
// ---- architectures
static vector<vector<long>> archDists(const string& t, long n, const char* what) {       // distances between terminal numbers, through the library's own loader
  SCOTCH_Arch* a = (SCOTCH_Arch*)malloc(SCOTCH_archSizeof()); SCOTCH_archInit(a); FILE* f = memIn(t); int rc = SCOTCH_archLoad(a, f); fclose(f); CHECK(rc == 0, "output-arch", "%s cannot be loaded: %s", what, g_err.c_str()); long sz = SCOTCH_archSize(a); vector<vector<long>> d(n, vector<long>(n, -1)); vector<SCOTCH_ArchDom> dm(n); bool okk = sz == n; map<long, SCOTCH_ArchDom> tm;
  if (okk) { vector<SCOTCH_ArchDom> st(1); SCOTCH_archDomFrst(a, &st[0]); set<long> seen; while (!st.empty()) { SCOTCH_ArchDom q = st.back(), x, y; st.pop_back(); if (SCOTCH_archDomSize(a, &q) == 1) { long m = SCOTCH_archDomNum(a, &q); seen.insert(m); tm[m] = q; continue; } if (SCOTCH_archDomBipart(a, &q, &x, &y) != 0) break; st.push_back(x); st.push_back(y); } if ((long)seen.size() != n) okk = false; }
  if (okk) { long i = 0; for (auto& x : tm) dm[i++] = x.second; for (i = 0; i < n; i++) for (long j = 0; j < n; j++) d[i][j] = SCOTCH_archDomDist(a, &dm[i], &dm[j]); }
  SCOTCH_archExit(a); free(a); CHECK(okk, "output-arch", "%s has %ld terminals instead of %ld, or its terminals cannot be reached", what, sz, n); return d;
}
static vector<vector<long>> bfs(const LG& g) { vector<vector<long>> d(g.n, vector<long>(g.n, -1)); for (long s = 0; s < g.n; s++) { vector<int> q{(int)s}; d[s][s] = 0; for (size_t i = 0; i < q.size(); i++) for (auto& e : g.adj[q[i]]) if (d[s][e.first] < 0) { d[s][e.first] = d[s][q[i]] + 1; q.push_back(e.first); } } return d; }
static void sameD(const vector<vector<long>>& a, const vector<vector<long>>& b, const char* what) { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) CHECK(a[i][j] == b[i][j], "output-arch", "%s: distance between %zu and %zu is %ld instead of %ld", what, i, j, b[i][j], a[i][j]); }
static void caseAmk(Rng& r) {
  int k = (int)r.below(7); string o = outName(r, "o"), t; vector<vector<long>> d; long n = 0;
  auto lg = [&](LGB& B) { LG g = finish(B, "a", r, false); n = g.n; return bfs(g); };
  if (k == 0) { long m = r.range(1, 6); ok({"amk_hy", num(m), o}); LGB B(1L << m); for (long v = 0; v < B.n; v++) for (int i = 0; i < m; i++) B.e(v, v ^ (1L << i)); d = lg(B); }
  else if (k == 1) { long m = r.range(1, 4); ok({"amk_ccc", num(m), o}); LGB B(m << m); auto id = [&](long l, long p) { return (l << m) | p; }; for (long l = 0; l < m; l++) for (long p = 0; p < 1L << m; p++) { B.e(id(l, p), id(l, p ^ (1L << l))); B.e(id(l, p), id((l + 1) % m, p)); } d = lg(B); }
  else if (k == 2) { long m = r.range(1, 4); ok({"amk_fft2", num(m), o}); LGB B((m + 1) << m); auto id = [&](long l, long p) { return (l << m) | p; }; for (long l = 0; l < m; l++) for (long p = 0; p < 1L << m; p++) { B.e(id(l, p), id(l + 1, p)); B.e(id(l, p), id(l + 1, p ^ (1L << l))); } d = lg(B); }
  else if (k == 3) { long x = r.range(1, 8), y = r.range(1, 8); vector<string> a{"amk_m2", num(x), num(y), o}; if (r.chance(0.6)) a.push_back(r.chance(0.5) ? "-mo" : "-mn"); ok(a); LGB B(x * y); for (long j = 0; j < y; j++) for (long i = 0; i < x; i++) { if (i + 1 < x) B.e(j * x + i, j * x + i + 1); if (j + 1 < y) B.e(j * x + i, j * x + i + x); } d = lg(B); }
  else if (k == 4) { long a = r.range(1, 40), c = r.range(1, 40); ok({"amk_p2", num(a), num(c), o}); t = outText(o); SCOTCH_Arch* q = (SCOTCH_Arch*)malloc(SCOTCH_archSizeof()); SCOTCH_archInit(q); FILE* f = memIn(t); int rc = SCOTCH_archLoad(q, f); fclose(f); bool g2 = rc == 0 && SCOTCH_archSize(q) == 2; SCOTCH_ArchDom x; long w[2] = {0, 0}; if (g2) for (int i = 0; i < 2; i++) { SCOTCH_archDomTerm(q, &x, i); w[i] = SCOTCH_archDomWght(q, &x); } SCOTCH_archExit(q); free(q); CHECK(g2 && w[0] * c == w[1] * a && w[0] > 0, "output-arch", "amk_p2 %ld %ld gives weights %ld and %ld", a, c, w[0], w[1]); H.nontrivial++; return; }
  else {                                                  // connected graph turned into a decomposition
    LG g = genGraph(r, 24); auto dd = bfs(g); while (g.n < 2 || std::count(dd[0].begin(), dd[0].end(), -1)) { g = genGraph(r, 24); dd = bfs(g); } bool deco2 = r.chance(0.3); Num b = deco2 ? 0 : (Num)r.below(2); if (r.chance(0.4)) addLabels(r, g, b); In f = input(r, "g.grf", graphText(g, b)); vector<string> a{"amk_grf", f.name, o}; vector<long> li; bool lst = r.chance(0.5);
    if (lst) { for (long v = 0; v < g.n; v++) if (r.chance(0.5)) li.push_back(v); if (li.empty()) li.push_back(r.below(g.n)); vector<long> x; for (long v : li) x.push_back(g.vlbl.empty() ? v + b : (long)g.vlbl[v]); auto y = x; r.shuffle(y); string s = num((long)y.size()) + "\n"; for (long v : y) s += num(v) + "\n"; a.push_back("-l" + input(r, "list", s, false).name); feat("vertex-list"); } else { li.resize(g.n); std::iota(li.begin(), li.end(), 0); }
    if (deco2) a.push_back("-2"); ok(a, f.in); t = outText(o); CHECK(t.compare(0, deco2 ? 6 : 4, deco2 ? "deco\t2" : "deco") == 0 || t.compare(0, 4, "deco") == 0, "output-arch", "amk_grf writes %.20s", t.c_str());
    n = (long)li.size(); auto q = archDists(t, n, "amk_grf output"); feat(deco2 ? "deco2" : "deco0"); H.nontrivial++;
    if (!deco2) {                                         // terminals in the order of the list; distances are lengths of shortest paths
      // which terminal is which is told by the file: terminal labels
      bool sorted = !g.vlbl.empty(); vector<long> or2 = li; if (sorted) std::sort(or2.begin(), or2.end(), [&](long x, long y) { return g.vlbl[x] < g.vlbl[y]; });
      bool m1 = true, m2 = true; auto ed = dd; for (long i = 0; i < g.n; i++) (void)i;
      // weighted shortest paths if the graph has edge loads
      if (g.edlo) return; for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { if (q[i][j] != dd[li[i]][li[j]]) m1 = false; if (q[i][j] != dd[or2[i]][or2[j]]) m2 = false; }
      CHECK(m1 || m2, "output-arch", "amk_grf: distances are not those of the graph");
    }
    return;
  }
  t = outText(o); sameD(d, archDists(t, n, "decomposition"), "decomposition"); H.nontrivial++;
  string nm = input(r, "a.tgt", t, false).name;
  if (r.chance(0.5)) { string c = outName(r, "c"); ok({"acpl", nm, c}); string ct = outText(c); CHECK(ct.compare(0, 6, "deco\n1") == 0 || ct.compare(0, 6, "deco\t1") == 0 || ct.compare(0, 6, "deco 1") == 0, "output-arch", "acpl does not write a compiled decomposition: %.20s", ct.c_str()); sameD(d, archDists(ct, n, "compiled decomposition"), "compiled decomposition"); feat("acpl"); }
  if (r.chance(0.6)) { string q = outName(r, "q"); ok({"atst", nm, q}); string at = outText(q); eq(figures(at, "A\tTerminals\tnbr=", "atst")[0], (double)n, "terminals"); auto f = figures(at, "A\tDistance\t", "atst"); vector<double> all; for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) all.push_back((double)d[i][j]); Stat s = statOf(all); CHECK(f.size() == 4, "figures", "atst: four figures expected in %s", at.c_str()); if (n > 1) { eq(f[0], s.mn, "smallest distance"); eq(f[1], s.mx, "largest distance"); eq(f[2], s.avg, "average distance"); eq(f[3], s.dlt, "distance delta"); } else { eq(f[0], 0, "smallest distance"); eq(f[1], 0, "largest distance"); } feat("atst"); }
}
// ---- formats
static void caseGcv(Rng& r) {
  LG g = someGraph(r, 60); g.velo.clear(); g.vlbl.clear(); for (auto& a : g.adj) for (auto& e : a) e.second = 1; g.edlo = false; Num b = (Num)r.below(2); int k = (int)r.below(3); string o = outName(r, "o");
  if (k == 0) {                                           // Scotch to Chaco and back
    if (r.chance(0.5)) { addWeights(r, g, false, 30); } In f = input(r, "g.grf", graphText(g, b)); ok({"gcv", "-is", "-oc", f.name, o}, f.in); string t = outText(o); string nm = input(r, "c.gra", t, false).name; auto v = t; vector<string> ln; size_t p = 0; while (p < v.size()) { size_t q = v.find('\n', p); if (q == string::npos) q = v.size(); ln.push_back(v.substr(p, q - p)); p = q + 1; } CHECK((long)ln.size() >= g.n + 1, "output-format", "Chaco file has %zu lines for %ld vertices", ln.size(), g.n);
    auto hd = ints(ln[0], "Chaco header"); CHECK(hd.size() >= 2 && hd[0] == g.n && hd[1] == g.arcs() / 2, "output-format", "Chaco header %s", ln[0].c_str()); long fl = hd.size() > 2 ? hd[2] : 0; for (long i = 0; i < g.n; i++) { auto x = ints(ln[i + 1], "Chaco line"); size_t q = 0; if (fl / 100 % 10) q++; if (fl / 10 % 10) { CHECK(x.size() > q && x[q] == g.vl(i), "output-graph", "Chaco load of vertex %ld", i); q++; } map<long, long> nb; for (; q < x.size(); q++) { long w = x[q], l = 1; if (fl % 10) { q++; CHECK(q < x.size(), "output-format", "Chaco line %ld", i); l = x[q]; } nb[w - 1] = l; } CHECK(nb.size() == g.adj[i].size(), "output-graph", "Chaco vertex %ld has %zu neighbours", i, nb.size()); for (auto& e : g.adj[i]) CHECK(nb.count(e.first) && nb[e.first] == e.second, "output-graph", "Chaco vertex %ld misses neighbour %d", i, e.first); }
    string o2 = outName(r, "o2"); ok({"gcv", "-ic", "-os", nm, o2}); Num gb; sameG(g, parseGraph(outText(o2), &gb, "graph back from Chaco"), "graph back from Chaco"); feat("chaco");
  } else if (k == 1) {                                    // Matrix Market
    In f = input(r, "g.grf", graphText(g, b)); ok({"gcv", f.name, o, "-om", "-is"}, f.in); string t = outText(o); CHECK(t.compare(0, 14, "%%MatrixMarket") == 0, "output-format", "no Matrix Market banner: %.40s", t.c_str()); size_t p = 0; while (t[p] == '%') p = t.find('\n', p) + 1; auto x = ints(t.substr(p), "Matrix Market file"); CHECK(x.size() >= 3 && x[0] == g.n && x[1] == g.n && x.size() == 3 + 2 * (size_t)x[2], "output-format", "Matrix Market sizes"); set<pair<long, long>> es; for (size_t i = 3; i + 1 < x.size(); i += 2) if (x[i] != x[i + 1]) es.insert({std::max(x[i], x[i + 1]) - 1, std::min(x[i], x[i + 1]) - 1}); CHECK((long)es.size() * 2 == g.arcs(), "output-graph", "%zu edges instead of %ld", es.size(), g.arcs() / 2); for (long v = 0; v < g.n; v++) for (auto& e : g.adj[v]) CHECK(es.count({std::max(v, (long)e.first), std::min(v, (long)e.first)}), "output-graph", "edge %ld-%d missing", v, e.first);
    string nm = input(r, "m.mtx", t, false).name, o2 = outName(r, "o2"); ok({"gcv", "-im", "-os", nm, o2}); Num gb; sameG(g, parseGraph(outText(o2), &gb, "graph back from Matrix Market"), "graph back from Matrix Market"); feat("mmkt");
  } else {                                                // fragments
    if (r.chance(0.5)) addWeights(r, g, false, 30); long np = r.range(1, 6); In f = input(r, "g.grf", graphText(g, b)); ok({"gscat", num(np), f.name, S + "/d%p-%r"}, f.in); string body; long tot = 0, arcs = 0, edg = 0; for (long p = 0; p < np; p++) { string n2 = S + fmt("/d%ld-%ld", np, p); CHECK(have(n2), "no-output", "fragment %ld missing", p); string t = readF(n2); auto x = ints(t, "fragment"); CHECK(x.size() >= 9 && x[0] == 2 && x[1] == np && x[2] == p && x[3] == g.n && x[4] == g.arcs() && x[7] == b, "output-format", "fragment header of %ld", p); tot += x[5]; edg += x[6]; CHECK(std::labs(x[5] * np - g.n) < np, "output-graph", "fragment %ld has %ld vertices of %ld", p, x[5], g.n); arcs += x[6]; size_t q = 0; for (int i = 0; i < 5; i++) q = t.find('\n', q) + 1; body += t.substr(q); unlink(n2.c_str()); }
    CHECK(tot == g.n && edg == g.arcs(), "output-graph", "fragments hold %ld vertices and %ld arcs", tot, edg); LG w = g; string hd = "0\n" + num(g.n) + "\t" + num(g.arcs()) + "\n" + num(b) + "\t" + fmt("0%d%d", (int)g.edlo, (int)!g.velo.empty()) + "\n"; sameG(g, parseGraph(hd + body, nullptr, "joined fragments"), "joined fragments"); feat("gscat");
  }
  H.nontrivial++; sig(hashLG(g));
}
// ---- meshes
static string meshText(const LM& m) {                    // elements first, both parts numbered from 0
  bool V = !m.ew.empty() || !m.nw.empty(); string s = "1\n" + num(m.ne) + "\t" + num(m.nn) + "\t" + num(m.arcs()) + "\n0\t" + num(m.ne) + "\t" + fmt("00%d", (int)V) + "\n"; for (long e = 0; e < m.ne; e++) { if (V) s += num(m.ew.empty() ? 1 : m.ew[e]) + "\t"; s += num((long)m.en[e].size()); for (int n : m.en[e]) s += "\t" + num(n); s += "\n"; } for (long n = 0; n < m.nn; n++) { if (V) s += num(m.nw.empty() ? 1 : m.nw[n]) + "\t"; s += num((long)m.nenum[n].size()); for (int e : m.nenum[n]) s += "\t" + num(e); s += "\n"; } return s;
}
static void caseMesh(Rng& r) {
  int k = (int)r.below(4); string o = outName(r, "o");
  if (k == 0) {                                           // generators
    int dim = r.chance(0.5) ? 2 : 3; long d[3] = {r.range(1, 6), r.range(1, 6), dim == 3 ? r.range(1, 5) : 1}; vector<string> a{dim == 2 ? "mmk_m2" : "mmk_m3"}; for (int i = 0; i < dim; i++) a.push_back(num(d[i])); a.push_back(o); bool ge = r.chance(0.5); if (ge) a.push_back("-g" + S + "/geo"); ok(a); string t = outText(o); auto x = ints(t, "mesh"); long n0 = d[0] + 1, n1 = d[1] + 1, n2 = dim == 3 ? d[2] + 1 : 1, ne = d[0] * d[1] * d[2], nn = n0 * n1 * n2; CHECK(x.size() > 7 && x[0] == 1 && x[1] == ne && x[2] == nn, "output-mesh", "mesh of %ld elements and %ld nodes instead of %ld and %ld", x[1], x[2], ne, nn); long eb = x[4], nb = x[5]; size_t p = 7; vector<set<long>> en(ne), nu(nn); for (long e = 0; e < ne + nn; e++) { CHECK(p < x.size(), "output-format", "mesh truncated"); long dg = x[p++]; for (long i = 0; i < dg; i++) { CHECK(p < x.size(), "output-format", "mesh truncated"); long v = x[p++]; if (e < ne) en[e].insert(v); else nu[e - ne].insert(v); } } CHECK(p == x.size(), "output-format", "mesh file too long"); (void)eb;
    long arcs = 0; for (long z = 0; z < d[2]; z++) for (long y = 0; y < d[1]; y++) for (long w = 0; w < d[0]; w++) { set<long> q; for (int c = 0; c < (dim == 3 ? 8 : 4); c++) q.insert(((z + (c >> 2)) * n1 + y + (c >> 1 & 1)) * n0 + w + (c & 1)); long e = (z * d[1] + y) * d[0] + w; arcs += 2 * (long)q.size(); set<long> g0 = en[e], g1; for (long v : g0) g1.insert(v - nb); CHECK(g0 == q || g1 == q, "output-mesh", "nodes of element %ld", e); for (long v : q) CHECK(nu[v].count(e) || nu[v].count(e + eb), "output-mesh", "node %ld does not list element %ld", v, e); } CHECK(arcs == x[3], "output-mesh", "%ld arcs announced, %ld found", x[3], arcs); long c2 = 0; for (auto& s : nu) c2 += (long)s.size(); CHECK(c2 * 2 == arcs, "output-mesh", "nodes list %ld elements instead of %ld", c2, arcs / 2);
    string nm = input(r, "m.msh", t, false).name; ok({"mtst", nm, S + "/st"}); feat("mmk");
    if (ge) { string gt = readF(S + "/geo"); vector<double> g; const char* c = gt.c_str(); char* e; for (;;) { double v = strtod(c, &e); if (e == c) break; g.push_back(v); c = e; } CHECK((long)g.size() == 2 + (ne + nn) * (dim + 1) && g[0] == dim && g[1] == ne + nn, "output-geometry", "mesh geometry of %zu numbers for %ld elements and %ld nodes in %d dimensions", g.size(), ne, nn, dim); for (long e2 = 0; e2 < ne; e2++) { for (int ax = 0; ax < dim; ax++) { double s = 0; long q = 0; for (long v : en[e2]) { s += g[2 + (ne + (nu.size() == (size_t)nn ? v : v)) * (dim + 1) + 1 + ax]; q++; } eq(g[2 + e2 * (dim + 1) + 1 + ax], s / q, "element coordinate, as the centre of its nodes"); } CHECK(g[2 + e2 * (dim + 1)] == e2, "output-geometry", "label"); } feat("mesh-geometry"); }
    H.nontrivial++; return;
  }
  LM m = genMesh(r, 30); for (long v = 0; v < m.nn; v++) (void)v; In f = input(r, "m.msh", meshText(m)); sig(hashLM(m));
  if (k == 1) { ok({"mtst", f.name, o}, f.in); string t = outText(o); eq(figures(t, "S\tElements\tnbr=", "mtst")[0], (double)m.ne, "elements"); eq(figures(t, "S\tNodes\tnbr=", "mtst")[0], (double)m.nn, "nodes"); eq(figures(t, "S\tEdge\tnbr=", "mtst")[0], m.arcs() / 2.0, "edges"); vector<double> nl, ed, nd; for (long v = 0; v < m.nn; v++) { nl.push_back(m.nw.empty() ? 1 : m.nw[v]); nd.push_back((double)m.nenum[v].size()); } for (auto& e : m.en) ed.push_back((double)e.size()); if (m.nn) eqStat(figures(t, "S\tNode load\t", "mtst"), statOf(nl), "node load"); if (m.ne) eqStat(figures(t, "S\tElement degree\t", "mtst"), statOf(ed), "element degree"); if (m.nn) eqStat(figures(t, "S\tNode degree\t", "mtst"), statOf(nd), "node degree"); }
  else if (k == 2) { long nc = r.below(4); vector<string> a{"gmk_msh", f.name, o}; if (nc) a.insert(a.begin() + 1, "-d" + num(nc)); ok(a, f.in); LG g = parseGraph(outText(o), nullptr, "graph of mesh"); auto& A = nc ? m.en : m.nenum; auto& Bm = nc ? m.nenum : m.en; long n = nc ? m.ne : m.nn; CHECK(g.n == n, "output-graph", "%ld vertices instead of %ld", g.n, n); vector<map<int, int>> sh(n); for (long i = 0; i < n; i++) for (int x : A[i]) for (int y : Bm[x]) if (y != i) sh[i][y]++; for (long i = 0; i < n; i++) { for (auto& q : sh[i]) { bool h = false; for (auto& e : g.adj[i]) if (e.first == q.first) h = true; long need = nc ? std::min({nc, (long)A[i].size() - 1, (long)A[q.first].size() - 1}) : 1; bool must = q.second >= need, may = q.second >= need; CHECK(!must || h, "output-graph", "%ld and %d share %d but are not joined", i, q.first, q.second); CHECK(!h || may, "output-graph", "%ld and %d share %d only", i, q.first, q.second); } for (auto& e : g.adj[i]) CHECK(sh[i].count(e.first), "output-graph", "%ld and %d share nothing", i, e.first); } feat(nc ? "dual" : "primal"); }
  else { if (m.nn < 1) return; vector<string> a{"mord", f.name, o, S + "/log"}; if (r.chance(0.5)) { static const char* c[] = {"-cb", "-cq", "-cs", "-ct"}; a.push_back(c[r.below(4)]); } a.push_back("-t" + S + "/tree"); a.push_back("-m" + S + "/map"); ok(a, f.in); auto x = ints(outText(o), "mesh ordering"); CHECK((long)x.size() == 1 + 2 * m.nn && x[0] == m.nn, "output-format", "mesh ordering of %zu numbers for %ld nodes", x.size(), m.nn); set<long> l, q; for (size_t i = 1; i < x.size(); i += 2) { l.insert(x[i]); q.insert(x[i + 1]); } CHECK((long)l.size() == m.nn && (long)q.size() == m.nn && *l.rbegin() - *l.begin() == m.nn - 1 && *q.rbegin() - *q.begin() == m.nn - 1, "output-ordering", "mesh ordering is no permutation"); CHECK(have(S + "/tree") && have(S + "/map"), "no-output", "mord files"); feat("mord"); }
  H.nontrivial++;
}
// ---- pictures
static void caseGout(Rng& r) {
  long x = r.range(1, 7), y = r.range(1, 7); LGB B(x * y); string ge; for (long j = 0; j < y; j++) for (long i = 0; i < x; i++) { if (i + 1 < x) B.e(j * x + i, j * x + i + 1); if (j + 1 < y) B.e(j * x + i, j * x + i + x); } LG g = finish(B, "g", r, false); Num b = (Num)r.below(2); ge = "2\n" + num(g.n) + "\n"; string mp = num(g.n) + "\n"; vector<long> p(g.n); for (long v = 0; v < g.n; v++) { ge += num(v + b) + "\t" + num(v % x) + "\t" + num(v / x) + "\n"; p[v] = r.below(4); mp += num(v + b) + "\t" + num(p[v]) + "\n"; }
  In f = input(r, "g.grf", graphText(g, b)); string gn = input(r, "g.xyz", ge, false).name, mn = input(r, "g.map", mp, false).name, o = outName(r, "pic"); static const char* op[] = {"-Oi", "-Oi{c}", "-Oi{g,r}", "-Om", "-Om{e}", "-Om{f}", "-Op", "-Op{c,e}", "-Op{g,f,l}", "-Op{s,a}", "-Op{d,r}", "-Ot", "-Ot{c}", "-Ot{b,r}", "-Ov", "-Ov{r}", "-Ov{v}"}; string q = op[r.below(17)]; vector<string> a{"gout", f.name, gn, mn, o, q}; bool nomap = r.chance(0.2) || q.compare(0, 3, "-Om") == 0; if (nomap) a.push_back("-mn"); if (r.chance(0.2)) a.push_back(r.chance(0.5) ? "-gr" : "-gp");
  ok(a, f.in); string t = outText(o); CHECK(t.size() > 40, "output-format", "picture of %zu bytes", t.size()); feat("gout:" + q.substr(0, 3)); H.nontrivial++;
  if (q.compare(0, 3, "-Ov") == 0) {                      // a picture without edges is empty; otherwise all vertices and all wanted edges
    long e = 0; for (long v = 0; v < g.n; v++) for (auto& k : g.adj[v]) if (v < k.first && (q != "-Ov{r}" || nomap || p[v] == p[k.first])) e++;
    size_t s = t.find("POINTS "); CHECK(e == 0 || (s != string::npos && strtol(t.c_str() + s + 7, nullptr, 10) == g.n), "output-format", "VTK file: POINTS");
    s = t.find("CELLS "); if (e > 0) { CHECK(s != string::npos, "output-format", "VTK file: CELLS"); long pn = 0, in = 0; sscanf(t.c_str() + s + 6, "%ld %ld", &pn, &in); CHECK(in - 2 * pn == e, "output-format", "VTK file: %ld edges in paths instead of %ld", in - 2 * pn, e); }
  }
}
static void caseUsage(Rng& r) {
  static const char* pr[] = {"acpl", "amk_ccc", "amk_fft2", "amk_grf", "amk_hy", "amk_m2", "amk_p2", "atst", "gbase", "gcv", "gmap", "gmk_hy", "gmk_m2", "gmk_m3", "gmk_msh", "gmk_ub2", "gmtst", "gord", "gotst", "gscat", "gtst", "mcv", "mmk_m2", "mmk_m3", "mord", "mtst", "gout", "gpart"}; string p = pr[r.below(28)];
  switch (r.below(4)) {
    case 0: ok({p, r.chance(0.5) ? "-h" : "-H"}); CHECK(readF(S + "/out").size() > 40, "no-message", "no help"); break;
    case 1: ok({p, "-V"}); CHECK(readF(S + "/err").find("version") != string::npos, "no-message", "no version"); break;
    case 2: { string z = r.chance(0.5) ? "-z" : "-Zzz"; bad({p, z}, "an option is unknown"); break; }
    default: { set<string> one{"amk_ccc", "amk_fft2", "amk_hy", "gmk_hy", "gmk_ub2"}; if (one.count(p) || p == "amk_p2" || p == "amk_m2" || p == "gmk_m2" || p == "gmk_m3" || p == "mmk_m2" || p == "mmk_m3") { bad({p, r.chance(0.5) ? "0" : "-1x"}, "a size is not positive"); } else if (p == "gpart") bad({p, "0", S + "/none", S + "/o"}, "there are no parts"); else if (p == "gscat") bad({p, "2", S + "/none", S + "/x%p%r"}, "the input file does not exist"); else if (p == "gbase") bad({p, "0", S + "/none", S + "/o"}, "the input file does not exist"); else bad({p, S + "/none", S + "/o"}, "the input file does not exist"); }
  }
  feat("usage"); H.nontrivial++; sig(hashStr(p));
}
static void runCase(long n, Rng& r) {
  if (S.empty()) { S = H.tmp + fmt("/c24.%d", (int)getpid()); char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); b[k] = 0; string e = b; BIN = e.substr(0, e.rfind("/h/")) + "/bin"; }
  mkdir(S.c_str(), 0700); setThreads(r.chance(0.8) ? 1 : (int)r.range(2, 4));
  struct Clean { ~Clean() { if (DIR* d = opendir(S.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((S + "/" + e->d_name).c_str()); closedir(d); } rmdir(S.c_str()); } } c;
  switch (n % 12) { case 0: case 1: caseGtst(r); break; case 2: case 3: case 4: caseMap(r); break; case 5: case 6: caseOrd(r); break; case 7: caseGmk(r); break; case 8: caseAmk(r); break; case 9: caseGcv(r); break; case 10: caseMesh(r); break; default: if (r.chance(0.5)) caseGout(r); else caseUsage(r); }
}
