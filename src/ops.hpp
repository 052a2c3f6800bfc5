// Random public computations whose inputs are frozen, so that they can be run several times; results are checked for validity and returned as text.
#pragma once
#include "genmord.hpp"

struct Op { string name; std::function<string(SCOTCH_Context*)> run; bool ctxOk = true; };
static string join(const vector<Num>& v) { string s; s.reserve(v.size() * 3); for (Num x : v) { s += fmt("%ld,", (long)x); } return s; }
static void inRange(const vector<Num>& t, long lo, long hi) { for (Num x : t) CHECK(x >= lo && x < hi, "valid-range", "value %ld out of range", (long)x); }
struct Bound { SCOTCH_Graph* g; bool own; Bound(SCOTCH_Context* c, SCOTCH_Graph* o) { own = c != nullptr; if (own) { g = (SCOTCH_Graph*)malloc(SCOTCH_graphSizeof()); SCOTCH_graphInit(g); mustOk(SCOTCH_contextBindGraph(c, o, g), "contextBindGraph"); } else g = o; } ~Bound() { if (own) { SCOTCH_graphExit(g); free(g); } } };

// One random computation; its inputs are fixed here, so that running it several times must give the same text.
static Op genOp(Rng& r, long nmax) {
  Op o; auto g = std::make_shared<LG>(genGraph(r, nmax)); while (g->n < 1) *g = genGraph(r, nmax);
  if (r.chance(0.5)) addWeights(r, *g, false);
  auto p = std::make_shared<PG>(); randomPG(r, *p, *g); auto s = std::make_shared<StratH>(); long n = g->n; string d = showLG(*g);
  switch (r.below(12)) {
    case 0: { long k = r.range(1, 12); genMapStratH(r, *s, k, false, false, false); o.name = fmt("part %ld %s %s", k, d.c_str(), s->txt.c_str()); o.run = [=](SCOTCH_Context* c) { (void)g; Bound b(c, p->gr); vector<Num> t(n, -7); mustOk(SCOTCH_graphPart(b.g, (Num)k, s->s, t.data()), "graphPart"); inRange(t, 0, k); return join(t); }; break; }
    case 1: { std::shared_ptr<ArchH> a = genArch(r, 20, false, -1, true, false); genMapStratH(r, *s, a->size, false, false, false); o.name = "map " + a->name + " " + d + " " + s->txt; o.run = [=](SCOTCH_Context* c) { (void)g; Bound b(c, p->gr); vector<Num> t(n, -7); mustOk(SCOTCH_graphMap(b.g, a->a, s->s, t.data()), "graphMap"); inRange(t, 0, a->size); return join(t); }; break; }
    case 2: { std::shared_ptr<ArchH> a = genArch(r, 12, false, -1, true, false); genMapStratH(r, *s, a->size, false, false, true); vector<Num> fx(n, -1); for (auto& x : fx) if (r.chance(0.3)) x = (Num)r.below(a->size); o.name = "mapfixed " + a->name + " " + d + " " + s->txt;
        o.run = [=](SCOTCH_Context* c) { (void)g; Bound b(c, p->gr); vector<Num> t = fx; mustOk(SCOTCH_graphMapFixed(b.g, a->a, s->s, t.data()), "graphMapFixed"); inRange(t, 0, a->size); for (long v = 0; v < n; v++) CHECK(fx[v] < 0 || t[v] == fx[v], "valid-fixed", "fixed vertex moved"); return join(t); }; break; }
    case 3: { std::shared_ptr<ArchH> a = genArch(r, 12, false, -1, true, false); genMapStratH(r, *s, a->size, false, false, true); vector<Num> ol(n); for (auto& x : ol) x = (Num)r.below(a->size); vector<Num> vm; if (r.chance(0.5)) { vm.resize(n); for (auto& x : vm) x = (Num)r.range(0, 5); } double em = r.unit() * 5; o.name = "remap " + a->name + " " + d + " " + s->txt;
        o.run = [=](SCOTCH_Context* c) { (void)g; Bound b(c, p->gr); vector<Num> t(n, -7), q = ol, w = vm; mustOk(SCOTCH_graphRemap(b.g, a->a, q.data(), em, w.empty() ? nullptr : w.data(), s->s, t.data()), "graphRemap"); inRange(t, 0, a->size); return join(t); }; break; }
    case 4: { long k = r.range(2, 8); if (r.chance(0.5)) mustOk(SCOTCH_stratGraphPartOvlBuild(s->s, 0, (Num)k, 0.05), "stratGraphPartOvlBuild"); o.name = fmt("partovl %ld ", k) + d; o.run = [=](SCOTCH_Context* c) { (void)g; Bound b(c, p->gr); vector<Num> t(n, -7); mustOk(SCOTCH_graphPartOvl(b.g, (Num)k, s->s, t.data()), "graphPartOvl"); inRange(t, -1, k); for (long v = 0; v < n; v++) for (auto& e : g->adj[v]) CHECK(t[v] < 0 || t[e.first] < 0 || t[v] == t[e.first], "valid-ovl", "adjacent vertices in different parts"); return join(t); }; break; }
    case 5: case 6: { genOrdStratH(r, *s); o.name = "order " + d + " " + s->txt; o.run = [=](SCOTCH_Context* c) { (void)g; Bound b(c, p->gr); vector<Num> pe(n, -7), pi(n, -7), rg(n + 1, -7), tr(n, -7); Num cb; mustOk(SCOTCH_graphOrder(b.g, s->s, pe.data(), pi.data(), &cb, rg.data(), tr.data()), "graphOrder"); checkOrdering(n, p->base, pe.data(), pi.data(), cb, rg.data(), tr.data()); rg.resize(cb + 1); tr.resize(cb); return join(pe) + join(pi) + join(rg) + join(tr); }; break; }
    case 7: { double rat = 0.5 + r.unit() * 0.5; long mn = r.range(1, std::max(1L, n)); long fl = r.chance(0.5) ? SCOTCH_COARSENNOMERGE : 0; if (fl) rat = 0.5 + r.unit() * 0.3; o.name = fmt("coarsen %ld %.2f ", mn, rat) + d;
        o.run = [=](SCOTCH_Context* c) { (void)g; Bound b(c, p->gr); SCOTCH_Graph* cg = (SCOTCH_Graph*)malloc(SCOTCH_graphSizeof()); SCOTCH_graphInit(cg); vector<Num> mt(2 * n, -7); int rc = SCOTCH_graphCoarsen(b.g, (Num)mn, rat, (Num)fl, cg, mt.data()); string t = fmt("%d:", rc); if (rc == 0) { Num ba; LG q = readGraph(cg, &ba); CHECK(q.velosum() == g->velosum(), "valid-coarse", "load of coarse graph differs"); for (long v = 0; v < q.n; v++) { for (auto& e : q.adj[v]) t += fmt("%d.%ld ", e.first, (long)e.second); t += fmt("w%ld;", q.velo.empty() ? 1L : (long)q.velo[v]); } mt.resize(2 * q.n); t += join(mt); } else CHECK(rc == 1, "coarsen-error", "graphCoarsen returned %d", rc); SCOTCH_graphExit(cg); free(cg); return t; }; break; }
    case 8: { o.name = "color " + d; o.run = [=](SCOTCH_Context* c) { (void)g; Bound b(c, p->gr); vector<Num> t(n, -7); Num cn; mustOk(SCOTCH_graphColor(b.g, t.data(), &cn, 0), "graphColor"); inRange(t, 0, cn); for (long v = 0; v < n; v++) for (auto& e : g->adj[v]) CHECK(t[v] != t[e.first], "valid-color", "adjacent vertices of same color"); return fmt("%ld:", (long)cn) + join(t); }; break; }
    case 9: { auto m = std::make_shared<LM>(genMesh(r, nmax / 3 + 1)); auto q = std::make_shared<PM>(); randomPM(r, *q, *m); if (r.chance(0.6)) { s->txt = genMOrd(r, 2); mustOk(SCOTCH_stratMeshOrder(s->s, s->txt.c_str()), "stratMeshOrder"); } o.name = fmt("meshorder %s ne=%ld nn=%ld ", m->kind.c_str(), m->ne, m->nn) + s->txt; o.ctxOk = false; long nn = m->nn;
        o.run = [=](SCOTCH_Context*) { (void)m; vector<Num> pe(nn, -7), pi(nn, -7), rg(nn + 1, -7), tr(nn, -7); Num cb; mustOk(SCOTCH_meshOrder(q->me, s->s, pe.data(), pi.data(), &cb, rg.data(), tr.data()), "meshOrder"); rg.resize(cb + 1); tr.resize(cb); return join(pe) + join(pi) + join(rg) + join(tr); }; break; }
    case 10: {                                           // many domains around every vertex: k-way refinement with much bookkeeping
        long m = r.range(20, 90); LG q; q.n = m; q.adj.resize(m); for (long i = 0; i < m; i++) for (long j = i + 1; j < m; j++) if (r.chance(std::min(1.0, 14.0 / m))) { Num w = (Num)1; q.adj[i].push_back({(int)j, w}); q.adj[j].push_back({(int)i, w}); }
        q.kind = "dense"; if (r.chance(0.5)) addWeights(r, q, false); *g = q; p = std::make_shared<PG>(); randomPG(r, *p, *g); n = m; std::shared_ptr<ArchH> a = genArch(r, 48, false, -1, true, false); if (r.chance(0.7)) { s->txt = fmt("r{job=%c,map=%c,poli=%c,sep=%s}f{pass=%ld,move=%ld}", "tu"[r.below(2)], 't', "rlsLS"[r.below(5)], r.chance(0.5) ? "gf" : "h", r.range(1, 10), r.range(10, 200)); mustOk(SCOTCH_stratGraphMap(s->s, s->txt.c_str()), "stratGraphMap"); }
        o.name = "densemap " + a->name + " " + showLG(*g) + " " + s->txt; o.run = [=](SCOTCH_Context* c) { (void)g; Bound b(c, p->gr); vector<Num> t(n, -7); mustOk(SCOTCH_graphMap(b.g, a->a, s->s, t.data()), "graphMap"); inRange(t, 0, a->size); return join(t); }; break; }
    default: { o.name = "archbuild " + d; o.ctxOk = false; o.run = [=](SCOTCH_Context*) { (void)g; SCOTCH_Arch* a = (SCOTCH_Arch*)malloc(SCOTCH_archSizeof()); SCOTCH_archInit(a); mustOk(SCOTCH_archBuild0(a, p->gr, 0, nullptr, s->s), "archBuild0"); MemFile f; mustOk(SCOTCH_archSave(a, f.f), "archSave"); SCOTCH_archExit(a); free(a); return f.str(); }; 
        // decomposition-defined architectures are built on connected graphs
        vector<int> st{0}, seen(n); seen[0] = 1; long c = 1; while (!st.empty()) { int v = st.back(); st.pop_back(); for (auto& e : g->adj[v]) if (!seen[e.first]) { seen[e.first] = 1; c++; st.push_back(e.first); } } if (c < n || n > 60 || !g->velo.empty()) return genOp(r, nmax); }
  }
  feat("op:" + o.name.substr(0, o.name.find(' ')));
  return o;
}
