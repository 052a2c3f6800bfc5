// C13: domain trees and distances of every target architecture, walked exhaustively.
#include "gen.hpp"
extern "C" int _SCOTCHarchDomIncl(const void*, const void*, const void*) __attribute__((weak));

struct Dom { SCOTCH_ArchDom* d; Dom() { d = (SCOTCH_ArchDom*)malloc(SCOTCH_archDomSizeof()); memset(d, 0x5a, SCOTCH_archDomSizeof()); } ~Dom() { free(d); } Dom(const Dom&) = delete; };
typedef std::unique_ptr<Dom> DomP;
struct Node { DomP d; int l = -1, r = -1, up = -1; vector<long> leaves; };
static vector<Node> T;
static int incl(ArchH& h, Dom& a, Dom& b) { return _SCOTCHarchDomIncl ? _SCOTCHarchDomIncl(h.a, a.d, b.d) : -1; }

static int walk(ArchH& h, DomP d, int up, int depth) {
  CHECK(depth < 400, "tree-depth", "bipartition tree deeper than 400");
  CHECK((long)T.size() <= 4 * h.size + 4, "tree-size", "bipartition tree larger than expected");
  int id = (int)T.size(); T.emplace_back(); T[id].d = std::move(d); T[id].up = up;
  DomP a(new Dom), b(new Dom);
  int rc = SCOTCH_archDomBipart(h.a, T[id].d->d, a->d, b->d);
  CHECK(rc == 0 || rc == 1, "bipart-error", "archDomBipart returned %d err=%s", rc, g_err.c_str());
  long sz = SCOTCH_archDomSize(h.a, T[id].d->d);
  if (rc == 1) {
    CHECK(sz == 1, "terminal-size", "domain of size %ld cannot be split", sz);
    T[id].leaves.push_back(SCOTCH_archDomNum(h.a, T[id].d->d));
  } else {
    CHECK(sz >= 2, "split-size", "domain of size %ld was split", sz);
    int l = walk(h, std::move(a), id, depth + 1), r = walk(h, std::move(b), id, depth + 1);
    T[id].l = l; T[id].r = r;
    T[id].leaves = T[l].leaves; T[id].leaves.insert(T[id].leaves.end(), T[r].leaves.begin(), T[r].leaves.end());
  }
  CHECK(sz == (long)T[id].leaves.size(), "size-sum", "domain size %ld but %ld terminals below it", sz, (long)T[id].leaves.size());
  return id;
}

static void checkVar(Rng& r, ArchH& h) {
  bool hc = h.name == "varhcub";
  CHECK(SCOTCH_archVar(h.a) != 0, "var-flag", "variable-sized architecture not reported as such");
  auto go = [&](u64& lab, int& lvl) { DomP d(new Dom); mustOk(SCOTCH_archDomFrst(h.a, d->d), "archDomFrst"); lab = 1; lvl = 0; int n = (int)r.range(0, 25);
    for (int i = 0; i < n; i++) { DomP a(new Dom), b(new Dom); mustOk(SCOTCH_archDomBipart(h.a, d->d, a->d, b->d), "archDomBipart");
      CHECK((u64)SCOTCH_archDomNum(h.a, a->d) == 2 * lab && (u64)SCOTCH_archDomNum(h.a, b->d) == 2 * lab + 1, "var-label", "children of %lu are labelled %ld %ld", (unsigned long)lab, (long)SCOTCH_archDomNum(h.a, a->d), (long)SCOTCH_archDomNum(h.a, b->d));
      if (incl(h, *d, *a) >= 0) CHECK(incl(h, *d, *a) == 1 && incl(h, *d, *b) == 1 && incl(h, *a, *b) == 0 && incl(h, *a, *d) == 0, "incl", "inclusion of children of %lu", (unsigned long)lab);
      bool t = r.chance(0.5); lab = 2 * lab + t; lvl++; d = std::move(t ? b : a);
      DomP q(new Dom); CHECK(SCOTCH_archDomTerm(h.a, q->d, (Num)lab) == 0 && (u64)SCOTCH_archDomNum(h.a, q->d) == lab && SCOTCH_archDomDist(h.a, q->d, d->d) == 0 && SCOTCH_archDomSize(h.a, q->d) == 1 && SCOTCH_archDomWght(h.a, q->d) == 1, "var-term", "domain of label %lu", (unsigned long)lab); }
    return d; };
  for (int k = 0; k < 20; k++) {
    u64 l0, l1; int v0, v1; DomP a = go(l0, v0), b = go(l1, v1);
    long d = SCOTCH_archDomDist(h.a, a->d, b->d), e = SCOTCH_archDomDist(h.a, b->d, a->d), ref;
    if (hc) { int m = std::min(v0, v1); ref = (std::max(v0, v1) - m) / 2 + __builtin_popcountll((l0 >> (v0 - m)) ^ (l1 >> (v1 - m))); } else ref = l0 != l1;
    CHECK(d == ref && e == ref, "distance", "variable-sized distance %lu-%lu: %ld %ld, expected %ld", (unsigned long)l0, (unsigned long)l1, d, e, ref);
  }
}

static void runCase(long n, Rng& r) {
  setThreads(1); T.clear();
  int kind = (int)(n % 20);
  std::unique_ptr<ArchH> hp; vector<long> num;           // expected terminal numbers
  if (kind == 19) {                                      // restricted decomposition-defined architecture, unweighted edges: hop distances
    hp.reset(new ArchH); ArchH& h = *hp; h.lg.reset(new LG);
    for (;;) { *h.lg = genGraph(r, 30); vector<int> st{0}, seen(h.lg->n); seen[0] = 1; long c = 1; while (!st.empty()) { int v = st.back(); st.pop_back(); for (auto& e : h.lg->adj[v]) if (!seen[e.first]) { seen[e.first] = 1; c++; st.push_back(e.first); } } if (c == h.lg->n) break; }
    if (r.chance(0.4)) { h.lg->velo.resize(h.lg->n); for (auto& w : h.lg->velo) w = (Num)r.range(1, 9); }
    h.gph.reset(new PG); Num base = (Num)r.below(3); h.gph->layout(r, *h.lg, base, r.chance(0.5)); h.gph->build(); h.gph->save();
    long N = h.lg->n; vector<Num> lst(N); std::iota(lst.begin(), lst.end(), 0);
    bool part = r.chance(0.6); if (part) { r.shuffle(lst); lst.resize(r.range(1, N)); }
    h.size = (long)lst.size(); vector<Num> based = lst; for (auto& x : based) x += base;
    h.strat.reset(new StratH);
    h.name = fmt("deco0 base=%ld list=%ld ", (long)base, part ? h.size : 0L) + showLG(*h.lg); desc("%s", h.name.c_str()); feat("arch:deco0list");
    h.keep = based;
    mustOk(SCOTCH_archBuild0(h.a, h.gph->gr, part ? (Num)h.size : 0, part ? h.keep.data() : nullptr, h.strat->s), "archBuild0");
    h.gph->checkUntouched("archBuild0");
    auto D = std::make_shared<map<pair<long, long>, long>>();
    for (Num s : lst) { vector<long> d(N, -1); vector<int> q{(int)s}; d[s] = 0; for (size_t i = 0; i < q.size(); i++) for (auto& e : h.lg->adj[q[i]]) if (d[e.first] < 0) { d[e.first] = d[q[i]] + 1; q.push_back(e.first); } for (Num t : lst) (*D)[{s + base, t + base}] = d[t]; }
    h.dist = [D](long a, long b) { return (*D)[{a, b}]; };
    for (Num x : based) num.push_back(x);
    if (!h.lg->velo.empty()) { h.wght.assign(base + N, 0); for (long i = 0; i < N; i++) h.wght[i + base] = h.lg->velo[i]; }
  } else {
    hp = genArch(r, r.chance(0.7) ? 24 : 130, true, kind < 17 ? kind : kind == 17 ? 17 : 18);
    desc("arch %s", hp->name.c_str());
    for (long i = 0; i < hp->size; i++) num.push_back(i);
  }
  ArchH& h = *hp;
  if (h.var) { checkVar(r, h); H.nontrivial++; sig(hash64(n, 77)); return; }
  CHECK(SCOTCH_archVar(h.a) == 0, "var-flag", "fixed architecture reported as variable-sized");
  CHECK(SCOTCH_archSize(h.a) == h.size, "arch-size", "archSize %ld, expected %ld", (long)SCOTCH_archSize(h.a), h.size);
  DomP root(new Dom); mustOk(SCOTCH_archDomFrst(h.a, root->d), "archDomFrst");
  walk(h, std::move(root), -1, 0);
  vector<long> lv = T[0].leaves, nn = num; std::sort(lv.begin(), lv.end()); std::sort(nn.begin(), nn.end());
  CHECK(lv == nn, "terminal-set", "terminals reached by bipartition are not each terminal once (%ld of %ld)", (long)set<long>(lv.begin(), lv.end()).size(), h.size);
  map<long, int> leafOf; for (size_t i = 0; i < T.size(); i++) if (T[i].l < 0) leafOf[T[i].leaves[0]] = (int)i;
  vector<DomP> term;
  for (long t : num) {
    DomP d(new Dom); int rc = SCOTCH_archDomTerm(h.a, d->d, (Num)t);
    CHECK(rc == 0, "dom-term", "archDomTerm(%ld) returned %d", t, rc);
    CHECK(SCOTCH_archDomNum(h.a, d->d) == t, "term-num", "archDomNum(archDomTerm(%ld)) = %ld", t, (long)SCOTCH_archDomNum(h.a, d->d));
    CHECK(SCOTCH_archDomSize(h.a, d->d) == 1, "term-size", "terminal %ld has size %ld", t, (long)SCOTCH_archDomSize(h.a, d->d));
    CHECK(SCOTCH_archDomWght(h.a, d->d) == h.w(t), "term-weight", "terminal %ld has weight %ld, expected %ld", t, (long)SCOTCH_archDomWght(h.a, d->d), (long)h.w(t));
    CHECK(SCOTCH_archDomDist(h.a, d->d, T[leafOf[t]].d->d) == 0, "term-leaf", "terminal %ld is not the leaf of the same number", t);
    DomP a(new Dom), b(new Dom); CHECK(SCOTCH_archDomBipart(h.a, d->d, a->d, b->d) == 1, "term-split", "terminal %ld can be split", t);
    term.push_back(std::move(d));
  }
  bool decolist = kind == 19;
  if (!decolist) for (long t : {h.size, h.size + 1, h.size + 1000}) { DomP d(new Dom); int rc = SCOTCH_archDomTerm(h.a, d->d, (Num)t); CHECK(rc == 1, "dom-term-invalid", "archDomTerm(%ld) returned %d for a target of size %ld", t, rc, h.size); }
  // weights and inclusion
  vector<set<long>> ls(T.size());
  long maxd = 0;
  for (size_t i = 0; i < T.size(); i++) {
    ls[i].insert(T[i].leaves.begin(), T[i].leaves.end());
    long long w = 0; for (long t : T[i].leaves) w += h.w(t);
    CHECK(SCOTCH_archDomWght(h.a, T[i].d->d) == w, "weight-sum", "domain weight %ld, its terminals weigh %lld", (long)SCOTCH_archDomWght(h.a, T[i].d->d), w);
    long dn = SCOTCH_archDomNum(h.a, T[i].d->d);
    if (!decolist && kind != 13 && kind != 14) CHECK(ls[i].count(dn), "dom-num", "archDomNum %ld is not a terminal of the domain", dn);
  }
  if (_SCOTCHarchDomIncl) for (int k = 0; k < 4000; k++) {
    size_t i = r.below((long)T.size()), j = r.below((long)T.size()); bool ref = false; for (int a = (int)j; a >= 0; a = T[a].up) if (a == (int)i) ref = true;
    int v = incl(h, *T[i].d, *T[j].d);
    CHECK(v == (ref ? 1 : 0), "incl", "archDomIncl=%d, expected %d (domains of %ld and %ld terminals)", v, (int)ref, (long)ls[i].size(), (long)ls[j].size());
    long t = r.below((long)term.size()); v = incl(h, *T[i].d, *term[t]); ref = ls[i].count(num[t]);
    CHECK(v == (ref ? 1 : 0), "incl-term", "archDomIncl of terminal %ld =%d, expected %d", num[t], v, (int)ref);
  }
  // distances between terminals
  map<pair<long, long>, long> td;
  for (size_t i = 0; i < term.size(); i++) for (size_t j = 0; j < term.size(); j++) {
    long d = SCOTCH_archDomDist(h.a, term[i]->d, term[j]->d); td[{num[i], num[j]}] = d; maxd = std::max(maxd, d);
    if (i == j) CHECK(d == 0, "distance-zero", "distance of terminal %ld to itself is %ld", num[i], d);
    else CHECK(d > 0, "distance-positive", "distance of terminals %ld and %ld is %ld", num[i], num[j], d);
    if (h.dist) CHECK(d == h.dist(num[i], num[j]), "distance", "distance %ld-%ld is %ld, expected %ld", num[i], num[j], d, h.dist(num[i], num[j]));
    if (j < i && kind != 14) CHECK((td[{num[j], num[i]}] == d), "distance-symmetric", "distance %ld-%ld is %ld one way, %ld the other", num[i], num[j], d, td[{num[j], num[i]}]);
  }
  // distances between disjoint domains lie between the extreme terminal distances
  if (kind != 14) for (int k = 0; k < 300 && T.size() > 2; k++) {
    size_t i = r.below((long)T.size()), j = r.below((long)T.size());
    bool nest = false; for (int a = (int)j; a >= 0; a = T[a].up) if (a == (int)i) nest = true; for (int a = (int)i; a >= 0; a = T[a].up) if (a == (int)j) nest = true;
    long d = SCOTCH_archDomDist(h.a, T[i].d->d, T[j].d->d), e = SCOTCH_archDomDist(h.a, T[j].d->d, T[i].d->d);
    bool tl = h.name.find("tleaf") != string::npos; if (!(tl && nest)) CHECK(d == e, "domain-distance-symmetric", "distance of domains is %ld one way and %ld the other", d, e);
    if (i == j) { if (T[i].l < 0) CHECK(d == 0, "domain-distance", "distance of a terminal to itself is %ld", d); continue; }
    if (nest) { CHECK(d >= 0 && d <= maxd, "domain-distance", "distance of nested domains is %ld", d); continue; }
    long mn = LONG_MAX, mx = 0; for (long a : ls[i]) for (long b : ls[j]) { long t = td[{a, b}]; mn = std::min(mn, t); mx = std::max(mx, t); }
    if (h.name.find("torus") != string::npos) CHECK(d >= 0 && d <= maxd + 3, "domain-distance", "distance of disjoint torus domains is %ld, diameter %ld", d, maxd);  // distance of centres, rounded per dimension
    else CHECK((tl || d >= mn) && d <= mx, "domain-distance", "distance of disjoint domains is %ld, their terminals are %ld to %ld apart", d, mn, mx);
  }
  if (h.size > 1) H.nontrivial++;
  sig(hashStr(h.name));
}
