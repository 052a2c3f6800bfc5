// Generators of target architectures and strategies, with reference distance functions where documented.
#pragma once
#include "common.hpp"
#include <memory>

struct ArchH {
  SCOTCH_Arch* a; string name; long size = 0; bool var = false;
  vector<Num> wght;                                      // terminal weights (empty = 1 each)
  std::function<long(long, long)> dist;                  // reference terminal distance (empty = unknown)
  std::unique_ptr<ArchH> org; vector<Num> keep;          // sub-architecture origin
  std::unique_ptr<PG> gph; std::unique_ptr<LG> lg; std::unique_ptr<StratH> strat;
  ArchH() { a = (SCOTCH_Arch*)malloc(SCOTCH_archSizeof()); mustOk(SCOTCH_archInit(a), "archInit"); }
  ~ArchH() { SCOTCH_archExit(a); free(a); }
  ArchH(const ArchH&) = delete;
  Num w(long i) const { return wght.empty() ? 1 : wght[i]; }
};

static void archFromText(ArchH& h, const string& t) {
  FILE* f = memIn(t); int rc = SCOTCH_archLoad(h.a, f); fclose(f); mustOk(rc, ("archLoad " + t).c_str());
}
static std::function<long(long, long)> meshDist(vector<Num> d, bool torus) {
  return [d, torus](long a, long b) { long s = 0; for (Num x : d) { long pa = a % x, pb = b % x; a /= x; b /= x; long q = std::labs(pa - pb); if (torus) q = std::min(q, (long)x - q); s += q; } return s; };
}
// BFS / Dijkstra hop distances are not documented for deco; only symmetry and positivity are checked there.

static std::unique_ptr<ArchH> genArch(Rng& r, long maxsize, bool allowVar, int force = -1, bool allowSub = true, bool allowDeco2 = true) {
  std::unique_ptr<ArchH> hp(new ArchH); ArchH& h = *hp;
  int k = force >= 0 ? force : (int)r.below(allowVar ? 19 : 17);
  if (k == 14 && !allowDeco2) k = 13;
  bool viaFile = r.chance(0.3);
  auto dims = [&](int nd) { vector<Num> d(nd); for (;;) { long p = 1; for (auto& x : d) { x = (Num)r.range(1, std::max(1L, (long)std::pow((double)maxsize, 1.0 / nd) + 2)); p *= x; } if (p <= maxsize) return d; } };
  auto prod = [](const vector<Num>& d) { long p = 1; for (Num x : d) p *= x; return p; };
  auto dstr = [](const vector<Num>& d) { string s; for (Num x : d) s += fmt(" %ld", (long)x); return s; };
  switch (k) {
    case 0: case 1: { h.size = r.range(1, maxsize); h.name = fmt("cmplt %ld", h.size); if (viaFile) archFromText(h, h.name + "\n"); else mustOk(SCOTCH_archCmplt(h.a, (Num)h.size), "archCmplt"); h.dist = [](long a, long b) { return a != b ? 1L : 0L; }; break; }
    case 2: { h.size = r.range(1, maxsize); h.wght.resize(h.size); for (auto& w : h.wght) w = (Num)r.range(1, 9); h.name = fmt("cmpltw %ld", h.size) + dstr(h.wght); if (viaFile) archFromText(h, h.name + "\n"); else mustOk(SCOTCH_archCmpltw(h.a, (Num)h.size, h.wght.data()), "archCmpltw"); h.dist = [](long a, long b) { return a != b ? 1L : 0L; }; break; }
    case 3: { long d = 0; while ((1L << (d + 1)) <= maxsize) d++; d = r.range(viaFile ? std::min(1L, d) : 0, d); if (d == 0) viaFile = false; h.size = 1L << d; h.name = fmt("hcub %ld", d); if (viaFile) archFromText(h, h.name + "\n"); else mustOk(SCOTCH_archHcub(h.a, (Num)d), "archHcub"); h.dist = [](long a, long b) { return (long)__builtin_popcountl(a ^ b); }; break; }
    case 4: { auto d = dims(2); h.size = prod(d); h.name = "mesh2D" + dstr(d); if (viaFile) archFromText(h, h.name + "\n"); else mustOk(SCOTCH_archMesh2(h.a, d[0], d[1]), "archMesh2"); h.dist = meshDist(d, false); break; }
    case 5: { auto d = dims(3); h.size = prod(d); h.name = "mesh3D" + dstr(d); if (viaFile) archFromText(h, h.name + "\n"); else mustOk(SCOTCH_archMesh3(h.a, d[0], d[1], d[2]), "archMesh3"); h.dist = meshDist(d, false); break; }
    case 6: { int nd = (int)r.range(1, 5); auto d = dims(nd); h.size = prod(d); h.name = fmt("meshXD %d", nd) + dstr(d); if (viaFile) archFromText(h, h.name + "\n"); else mustOk(SCOTCH_archMeshX(h.a, nd, d.data()), "archMeshX"); h.dist = meshDist(d, false); break; }
    case 7: { auto d = dims(2); h.size = prod(d); h.name = "torus2D" + dstr(d); if (viaFile) archFromText(h, h.name + "\n"); else mustOk(SCOTCH_archTorus2(h.a, d[0], d[1]), "archTorus2"); h.dist = meshDist(d, true); break; }
    case 8: { auto d = dims(3); h.size = prod(d); h.name = "torus3D" + dstr(d); if (viaFile) archFromText(h, h.name + "\n"); else mustOk(SCOTCH_archTorus3(h.a, d[0], d[1], d[2]), "archTorus3"); h.dist = meshDist(d, true); break; }
    case 9: { int nd = (int)r.range(1, 5); auto d = dims(nd); h.size = prod(d); h.name = fmt("torusXD %d", nd) + dstr(d); if (viaFile) archFromText(h, h.name + "\n"); else mustOk(SCOTCH_archTorusX(h.a, nd, d.data()), "archTorusX"); h.dist = meshDist(d, true); break; }
    case 10: case 11: case 12: {                         // tleaf / ltleaf
      int lv; vector<Num> sz, lk; for (;;) { lv = (int)r.range(1, 4); sz.assign(lv, 0); lk.assign(lv, 0); long p = 1; for (int i = 0; i < lv; i++) { sz[i] = (Num)r.range(2, 5); p *= sz[i]; } if (p <= std::max(maxsize, 5L)) { h.size = p; break; } }
      Num c = 1; for (int i = lv - 1; i >= 0; i--) { lk[i] = c; c += (Num)r.range(0, 9); }
      string t; for (int i = 0; i < lv; i++) t += fmt(" %ld %ld", (long)sz[i], (long)lk[i]);
      auto td = [sz, lk](long a, long b) { long s = 0; for (int i = (int)sz.size() - 1; i >= 0 && a != b; i--) { s += lk[i]; a /= sz[i]; b /= sz[i]; } return s; };  // traversal costs up to the lowest common ancestor
      if (k == 12) {                                     // ltleaf: file only
        long pn = 1; int l = (int)r.range(0, lv); for (int i = lv - l; i < lv; i++) pn *= sz[i];
        vector<Num> pm(pn); std::iota(pm.begin(), pm.end(), 0); r.shuffle(pm);
        h.name = fmt("ltleaf %d", lv) + t + fmt(" %ld", pn) + dstr(pm); archFromText(h, h.name + "\n");
        // physical core j of a block carries label perm[j]?  documented: labels listed core by core
        vector<long> inv(pn); for (long i = 0; i < pn; i++) inv[pm[i]] = i;
        h.dist = [td, inv, pn](long a, long b) { long pa = a / pn * pn + inv[a % pn], pb = b / pn * pn + inv[b % pn]; return td(pa, pb); };
      } else {
        h.name = fmt("tleaf %d", lv) + t; if (viaFile) archFromText(h, h.name + "\n"); else mustOk(SCOTCH_archTleaf(h.a, lv, sz.data(), lk.data()), "archTleaf"); h.dist = td;
      }
      break; }
    case 13: case 14: {                                  // decomposition-defined, types 0 and 2
      h.lg.reset(new LG); for (;;) { *h.lg = genGraph(r, std::max(2L, std::min(maxsize, 30L))); if (h.lg->n > maxsize) continue; vector<int> st{0}, seen(h.lg->n); seen[0] = 1; long c = 1; while (!st.empty()) { int v = st.back(); st.pop_back(); for (auto& e : h.lg->adj[v]) if (!seen[e.first]) { seen[e.first] = 1; c++; st.push_back(e.first); } } if (c == h.lg->n) break; }
      if (r.chance(0.4)) addWeights(r, *h.lg, false, 20);
      if (k == 14) { h.lg->edlo = false; for (auto& a : h.lg->adj) for (auto& e : a) e.second = 1; }  // weighted type-2 distances are direction-dependent approximations
      h.gph.reset(new PG); bool cmp = k != 13 || r.chance(0.6); h.gph->layout(r, *h.lg, 0, cmp); h.gph->build(); h.gph->save();
      h.size = h.lg->n;
      if (k == 13) { h.strat.reset(new StratH); h.name = "deco0 " + showLG(*h.lg); mustOk(SCOTCH_archBuild0(h.a, h.gph->gr, 0, nullptr, h.strat->s), "archBuild0"); }
      else { h.name = "deco2 " + showLG(*h.lg); mustOk(SCOTCH_archBuild2(h.a, h.gph->gr, 0, nullptr), "archBuild2"); }
      if (!h.lg->velo.empty()) h.wght = h.lg->velo;
      break; }
    case 15: case 16: {                                  // sub-architecture
      if (!allowSub) return genArch(r, maxsize, allowVar, 0);
      int f; do f = (int)r.below(15); while (f == 13 || f == 14);
      h.org = genArch(r, maxsize + 6, false, f, false);
      long m = r.range(1, std::min(maxsize, h.org->size)); vector<Num> v(h.org->size); std::iota(v.begin(), v.end(), 0); r.shuffle(v); v.resize(m); if (r.chance(0.4)) std::sort(v.begin(), v.end());
      h.keep = v; h.size = m; h.name = fmt("sub %ld", m) + dstr(v) + " of " + h.org->name;
      desc("%s", h.name.c_str()); mustOk(SCOTCH_archSub(h.a, h.org->a, (Num)m, h.keep.data()), "archSub");
      if (!h.org->wght.empty()) { h.wght.resize(m); for (long i = 0; i < m; i++) h.wght[i] = h.org->wght[v[i]]; }
      if (h.org->dist) { auto d = h.org->dist; h.dist = [d, v](long a, long b) { return d(v[a], v[b]); }; }
      break; }
    case 17: h.name = "varcmplt"; h.var = true; if (viaFile) archFromText(h, "varcmplt\n"); else mustOk(SCOTCH_archVcmplt(h.a), "archVcmplt"); break;
    default: h.name = "varhcub"; h.var = true; if (viaFile) archFromText(h, "varhcub\n"); else mustOk(SCOTCH_archVhcub(h.a), "archVhcub"); break;
  }
  feat("arch:" + h.name.substr(0, h.name.find(' ')));
  return hp;
}

// ---------------------------------------------------------------- strategy text
static string fbal(Rng& r) { static const char* t[] = {"0.001", "0.01", "0.05", "0.1", "0.3", "1.0"}; return t[r.below(6)]; }
static string genBipart(Rng& r, int depth) {
  auto leaf = [&]() -> string {
    switch (r.below(6)) {
      case 0: return fmt("h{pass=%ld}", r.range(1, 8));
      case 1: return fmt("g{pass=%ld}", r.range(1, 8));
      case 2: return "z";
      case 3: return fmt("h{pass=%ld}f{move=%ld,pass=%s,bal=%s,type=%c}", r.range(1, 5), r.range(1, 100), r.chance(0.5) ? "-1" : fmt("%ld", r.range(1, 6)).c_str(), fbal(r).c_str(), "ab"[r.below(2)]);
      case 4: return "hx";
      default: return fmt("gf{bal=%s}", fbal(r).c_str());
    } };
  if (depth <= 0) return leaf();
  switch (r.below(6)) {
    case 0: return leaf();
    case 1: case 2: return fmt("m{vert=%ld,rat=%s,low=%s,asc=%s}", r.range(2, 120), r.chance(0.5) ? "0.8" : fmt("%.2f", 0.5 + r.unit() * 0.4).c_str(), genBipart(r, depth - 1).c_str(), r.chance(0.5) ? fmt("f{bal=%s,move=%ld}", fbal(r).c_str(), r.range(1, 120)).c_str() : fmt("b{width=%ld,bnd=%sf{bal=%s},org=f{bal=%s}}", r.range(1, 5), r.chance(0.5) ? fmt("d{pass=%ld,type=%c}", r.range(1, 40), "bk"[r.below(2)]).c_str() : "", fbal(r).c_str(), fbal(r).c_str()).c_str());
    case 3: return "(" + genBipart(r, depth - 1) + "|" + genBipart(r, depth - 1) + ")";
    case 4: return fmt("/(vert>%ld)?%s:%s;", r.range(1, 60), genBipart(r, depth - 1).c_str(), leaf().c_str());
    default: return leaf() + "x";
  }
}
static string genMapStrat(Rng& r, int depth, bool remap) {
  auto rb = [&]() { return fmt("r{job=%c,map=t,poli=%c,bal=%s,sep=%s}", "tu"[r.below(2)], "rlsLS"[r.below(5)], fbal(r).c_str(), genBipart(r, depth).c_str()); };
  auto ref = [&]() -> string {
    switch (r.below(5)) {
      case 0: return fmt("f{bal=%s,move=%ld,pass=%s}", fbal(r).c_str(), r.range(1, 100), r.chance(0.5) ? "-1" : "3");
      case 1: return fmt("b{width=%ld,bnd=d{pass=%ld,dif=1,rem=0}f{bal=%s},org=f{bal=%s}}", r.range(1, 4), r.range(1, 30), fbal(r).c_str(), fbal(r).c_str());
      case 2: return fmt("x{bal=%s}", fbal(r).c_str());
      case 3: return fmt("b{width=%ld,bnd=f{bal=%s},org=}", r.range(1, 4), fbal(r).c_str());
      default: return "";
    } };
  switch (r.below(remap ? 5 : 4)) {
    case 0: return rb();
    case 1: case 2: return fmt("m{vert=%ld,rat=0.8,type=h,low=%s,asc=%s}%s", r.range(2, 100), rb().c_str(), ref().c_str(), r.chance(0.4) ? "x{bal=0.05}" : "");
    case 3: return rb() + fmt("%s", r.chance(0.5) ? fmt("f{bal=%s,move=%ld,pass=%s}", fbal(r).c_str(), r.range(1, 100), r.chance(0.5) ? "-1" : "3").c_str() : fmt("x{bal=%s}", fbal(r).c_str()).c_str());
    default: return string("c") + ref();
  }
}
static const char* flagNames(long f) { static string s; s = fmt("0x%lx", f); return s.c_str(); }
// Fill a mapping strategy; leaves it empty (library default) sometimes.
static void genMapStratH(Rng& r, StratH& s, long size, bool remap, bool var, bool plain = false) {
  int t = (int)r.below(plain ? 6 : 10);
  if (t < 2 && !var) { s.txt = "default"; feat("mapstrat:default"); return; }
  if (t < 6) {
    static const long fl[] = {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATSCALABILITY, SCOTCH_STRATRECURSIVE, SCOTCH_STRATREMAP};
    long f = 0; for (long x : fl) if (r.chance(0.25)) f |= x;
    double bal = r.chance(0.5) ? 0.05 : r.unit() * 0.5 + 0.001;
    if (var || r.chance(0.12)) { Num pw = (Num)r.range(1, 50); s.txt = fmt("clusterbuild(%s,%ld)", flagNames(f), (long)pw); mustOk(SCOTCH_stratGraphClusterBuild(s.s, (Num)f, pw, r.unit(), bal), s.txt.c_str()); feat("mapstrat:cluster"); return; }
    s.txt = fmt("mapbuild(%s,%ld,%.3f)", flagNames(f), size, bal); mustOk(SCOTCH_stratGraphMapBuild(s.s, (Num)f, (Num)std::max(1L, size), bal), s.txt.c_str()); feat("mapstrat:build"); return;
  }
  s.txt = var ? fmt("r{job=u,map=t,poli=L,sep=/(load>%ld)?%s:;}", r.range(1, 60), genBipart(r, 2).c_str()) : genMapStrat(r, 2, remap); mustOk(SCOTCH_stratGraphMap(s.s, s.txt.c_str()), s.txt.c_str()); feat("mapstrat:random");
}
