// Distributed harnesses: every process runs the same cases with the same generator, hence knows the whole
// logical graph; library results are gathered and compared with brute force over it. MPI calls made by the
// library pass through wrappers that inject delays and count objects (requests, communicators, types).
#pragma once
#define NO_MAIN
#include "common.hpp"
#include <mpi.h>
extern "C" {
#include "ptscotch.h"
}
#include <sched.h>
#include <time.h>

static int g_np = 1, g_me = 0;
static MPI_Comm g_comm = MPI_COMM_WORLD;                   // communicator that the helpers below work on
#define NUM_MPI (sizeof (Num) == 8 ? MPI_LONG_LONG : MPI_INT)

// ---------------------------------------------------------------- MPI interposition
static u64 g_dlyst = 1; static int g_dlymode = 0;         // 0: none, 1: rare short sleeps, 2: frequent yields, 3: a slow process
static long g_mpicalls, g_mpidelays, g_mpichoices;
static map<MPI_Request, int> g_reqs;                      // pending requests created by the library
static set<MPI_Comm> g_comms; static long g_types, g_ops;
static inline void mpiDelay() {
  __sync_fetch_and_add(&g_mpicalls, 1);
  if (!g_dlymode) return;
  g_dlyst = g_dlyst * 6364136223846793005ULL + 1442695040888963407ULL;
  unsigned x = (unsigned)(g_dlyst >> 40);
  if (g_dlymode == 1 && x % 13 == 0) { g_mpidelays++; usleep(x % 300); }
  else if (g_dlymode == 2 && x % 2 == 0) { g_mpidelays++; sched_yield(); }
  else if (g_dlymode == 3 && x % 5 == 0) { g_mpidelays++; usleep(200); }
}
static pthread_mutex_t g_mpimtx = PTHREAD_MUTEX_INITIALIZER; // folding with duplication communicates from two threads
struct MpiLk { MpiLk() { pthread_mutex_lock(&g_mpimtx); } ~MpiLk() { pthread_mutex_unlock(&g_mpimtx); } };
#define RQADD(q) do { MpiLk l; if (*(q) != MPI_REQUEST_NULL) g_reqs[*(q)]++; } while (0)
static inline void rqDel(MPI_Request q) { MpiLk l; auto it = g_reqs.find(q); if (it != g_reqs.end() && --it->second == 0) g_reqs.erase(it); }
extern "C" {
int MPI_Isend(const void* b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request* q) { mpiDelay(); int o = PMPI_Isend(b, c, t, d, g, m, q); RQADD(q); return o; }
int MPI_Irecv(void* b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request* q) { mpiDelay(); int o = PMPI_Irecv(b, c, t, d, g, m, q); RQADD(q); return o; }
int MPI_Send(const void* b, int c, MPI_Datatype t, int d, int g, MPI_Comm m) { mpiDelay(); return PMPI_Send(b, c, t, d, g, m); }
int MPI_Recv(void* b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Status* s) { mpiDelay(); return PMPI_Recv(b, c, t, d, g, m, s); }
int MPI_Allreduce(const void* a, void* b, int c, MPI_Datatype t, MPI_Op o, MPI_Comm m) { mpiDelay(); return PMPI_Allreduce(a, b, c, t, o, m); }
int MPI_Alltoall(const void* a, int c, MPI_Datatype t, void* b, int d, MPI_Datatype u, MPI_Comm m) { mpiDelay(); return PMPI_Alltoall(a, c, t, b, d, u, m); }
int MPI_Alltoallv(const void* a, const int* c, const int* x, MPI_Datatype t, void* b, const int* d, const int* y, MPI_Datatype u, MPI_Comm m) { mpiDelay(); return PMPI_Alltoallv(a, c, x, t, b, d, y, u, m); }
int MPI_Allgather(const void* a, int c, MPI_Datatype t, void* b, int d, MPI_Datatype u, MPI_Comm m) { mpiDelay(); return PMPI_Allgather(a, c, t, b, d, u, m); }
int MPI_Ialltoallv(const void* a, const int* c, const int* x, MPI_Datatype t, void* b, const int* d, const int* y, MPI_Datatype u, MPI_Comm m, MPI_Request* q) { mpiDelay(); int o = PMPI_Ialltoallv(a, c, x, t, b, d, y, u, m, q); RQADD(q); return o; }
int MPI_Wait(MPI_Request* q, MPI_Status* s) { mpiDelay(); MPI_Request r = *q; int o = PMPI_Wait(q, s); if (*q == MPI_REQUEST_NULL) rqDel(r); return o; }
int MPI_Test(MPI_Request* q, int* f, MPI_Status* s) { mpiDelay(); MPI_Request r = *q; int o = PMPI_Test(q, f, s); if (*q == MPI_REQUEST_NULL) rqDel(r); return o; }
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* s) { mpiDelay(); vector<MPI_Request> r(q, q + n); int o = PMPI_Waitall(n, q, s); for (int i = 0; i < n; i++) if (q[i] == MPI_REQUEST_NULL) rqDel(r[i]); return o; }
int MPI_Waitany(int n, MPI_Request* q, int* x, MPI_Status* s) {
  mpiDelay(); vector<MPI_Request> r(q, q + n);
  if (g_dlymode) {                                          // let several requests complete, then pick any of them (inactive persistent requests have an empty status)
    vector<int> dn; unsigned z = (unsigned)(__sync_add_and_fetch(&g_dlyst, 0x9E3779B97F4A7C15ULL) >> 33);
    for (int k = 0; k < (int)(z % 40); k++) { int t; MPI_Status u; dn.clear(); bool pend = false; for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) { PMPI_Request_get_status(q[i], &t, &u); if (!t) pend = true; else if (u.MPI_SOURCE != MPI_ANY_SOURCE) dn.push_back(i); } if (!pend) break; usleep(10); }
    if (dn.size() > 1) __sync_fetch_and_add(&g_mpichoices, 1);
    if (!dn.empty()) { *x = dn[(z >> 8) % dn.size()]; int o = PMPI_Wait(&q[*x], s); if (q[*x] == MPI_REQUEST_NULL) rqDel(r[*x]); return o; }
  }
  int o = PMPI_Waitany(n, q, x, s); for (int i = 0; i < n; i++) if (q[i] == MPI_REQUEST_NULL) rqDel(r[i]); return o; }
int MPI_Testany(int n, MPI_Request* q, int* x, int* f, MPI_Status* s) { mpiDelay(); vector<MPI_Request> r(q, q + n); int o = PMPI_Testany(n, q, x, f, s); for (int i = 0; i < n; i++) if (q[i] == MPI_REQUEST_NULL) rqDel(r[i]); return o; }
int MPI_Waitsome(int n, MPI_Request* q, int* k, int* x, MPI_Status* s) { mpiDelay(); vector<MPI_Request> r(q, q + n); int o = PMPI_Waitsome(n, q, k, x, s); for (int i = 0; i < n; i++) if (q[i] == MPI_REQUEST_NULL) rqDel(r[i]); return o; }
int MPI_Request_free(MPI_Request* q) { MPI_Request r = *q; int o = PMPI_Request_free(q); rqDel(r); return o; }
int MPI_Comm_dup(MPI_Comm a, MPI_Comm* b) { mpiDelay(); int o = PMPI_Comm_dup(a, b); if (*b != MPI_COMM_NULL) { MpiLk l; g_comms.insert(*b); } return o; }
int MPI_Comm_split(MPI_Comm a, int c, int k, MPI_Comm* b) { mpiDelay(); int o = PMPI_Comm_split(a, c, k, b); if (*b != MPI_COMM_NULL) { MpiLk l; g_comms.insert(*b); } return o; }
int MPI_Comm_free(MPI_Comm* b) { mpiDelay(); { MpiLk l; g_comms.erase(*b); } return PMPI_Comm_free(b); }
int MPI_Type_commit(MPI_Datatype* t) { __sync_fetch_and_add(&g_types, 1); return PMPI_Type_commit(t); }
int MPI_Type_free(MPI_Datatype* t) { __sync_fetch_and_add(&g_types, -1); return PMPI_Type_free(t); }
int MPI_Op_create(MPI_User_function* f, int c, MPI_Op* o) { __sync_fetch_and_add(&g_ops, 1); return PMPI_Op_create(f, c, o); }
int MPI_Op_free(MPI_Op* o) { __sync_fetch_and_add(&g_ops, -1); return PMPI_Op_free(o); }
}
// At the end of a case: no request, communicator, type or operator left, and no message left unreceived.
static void mpiQuiet() {
  PMPI_Barrier(MPI_COMM_WORLD);
  CHECK(g_reqs.empty(), "mpi-request-leak", "%zu requests were never completed", g_reqs.size());
  CHECK(g_comms.empty(), "mpi-comm-leak", "%zu communicators were never freed", g_comms.size());
  CHECK(g_types == 0 && g_ops == 0, "mpi-object-leak", "%ld types and %ld operators were never freed", g_types, g_ops);
  int f = 0; MPI_Status s; PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &f, &s);
  CHECK(!f, "mpi-message-left", "a message from process %d with tag %d was never received", f ? s.MPI_SOURCE : -1, f ? s.MPI_TAG : -1);
  PMPI_Barrier(MPI_COMM_WORLD);
}

// ---------------------------------------------------------------- communication helpers of the harness
static vector<Num> allCat(const vector<Num>& loc, vector<int>* dspp = nullptr) {
  int n = (int)loc.size(); vector<int> c(g_np), d(g_np + 1, 0);
  PMPI_Allgather(&n, 1, MPI_INT, c.data(), 1, MPI_INT, g_comm);
  for (int p = 0; p < g_np; p++) d[p + 1] = d[p] + c[p];
  vector<Num> o(d[g_np] + 1);
  vector<Num> l = loc; l.push_back(0);
  PMPI_Allgatherv(l.data(), n, NUM_MPI, o.data(), c.data(), d.data(), NUM_MPI, g_comm);
  o.resize(d[g_np]); if (dspp) *dspp = d;
  return o;
}
static vector<Num> allOne(Num v) { return allCat(vector<Num>{v}); }
static bool allSame(Num v) { auto a = allOne(v); for (Num x : a) if (x != a[0]) return false; return true; }
// A collective call that must succeed everywhere.
static void mustOkD(int rc, const char* what) { mustOk(rc, what); }

struct SubComm { MPI_Comm c; int n, m; SubComm(MPI_Comm k) : c(g_comm), n(g_np), m(g_me) { g_comm = k; PMPI_Comm_size(k, &g_np); PMPI_Comm_rank(k, &g_me); } ~SubComm() { g_comm = c; g_np = n; g_me = m; } };

// ---------------------------------------------------------------- distributed physical graph
struct DPG {
  const LG* g = nullptr; Num base = 0; bool compact = true;
  vector<long> cnt, mx, dsp, vrt;                         // per process: number, room, first logical vertex, first global index (based)
  Buf vert, vend, velo, vlbl, edge, edlo, gst; long edgesiz = 0, edgeloc = 0; bool hasgst = false, holes = false;
  SCOTCH_Dgraph* gr = nullptr;
  DPG() {}
  DPG(const DPG&) = delete;
  ~DPG() { if (gr) { SCOTCH_dgraphExit(gr); free(gr); } }
  int owner(long v) const { int p = 0; while (v >= dsp[p + 1]) p++; return p; }
  Num glob(long v) const { int p = owner(v); return (Num)(vrt[p] + (v - dsp[p])); }
  long nloc() const { return cnt[g_me]; }
  long first() const { return dsp[g_me]; }
  void distribute(Rng& r, const LG& lg, bool allowHoles) {
    g = &lg; cnt.assign(g_np, 0);
    int t = (int)r.below(8);
    if (t <= 2) { for (int p = 0; p < g_np; p++) cnt[p] = (lg.n + g_np - 1 - p) / g_np; feat("dist:even"); }
    else if (t <= 4) { vector<long> c(g_np + 1); c[0] = 0; c[g_np] = lg.n; for (int p = 1; p < g_np; p++) c[p] = r.below(lg.n + 1); std::sort(c.begin(), c.end()); for (int p = 0; p < g_np; p++) cnt[p] = c[p + 1] - c[p]; feat("dist:random"); }
    else if (t == 5) { cnt[r.below(g_np)] = lg.n; feat("dist:single"); }
    else if (t == 6) { long m = r.range(1, g_np); vector<int> ps(g_np); std::iota(ps.begin(), ps.end(), 0); r.shuffle(ps); ps.resize(m); long left = lg.n; for (long i = 0; i < m; i++) { long c = i == m - 1 ? left : left / (m - i); cnt[ps[i]] = c; left -= c; } feat("dist:some-empty"); }
    else { long left = lg.n; for (int p = 0; p < g_np; p++) { long c = p == g_np - 1 ? left : std::min(left, r.range(0, 3 * (lg.n / g_np + 1) / 2)); cnt[p] = c; left -= c; } feat("dist:uneven"); }
    holes = allowHoles && r.chance(0.25); if (holes) feat("dist:holes");
    mx = cnt; if (holes) for (auto& m : mx) m += r.chance(0.3) ? 0 : r.range(0, 5);
    dsp.assign(g_np + 1, 0); vrt.assign(g_np + 1, base);
    for (int p = 0; p < g_np; p++) { dsp[p + 1] = dsp[p] + cnt[p]; vrt[p + 1] = vrt[p] + mx[p]; }
    for (int p = 0; p < g_np; p++) if (cnt[p] == 0) { feat("empty-process"); break; }
  }
  void layout(Rng& rg, Num b, bool cmp, bool explicitVend, bool wantGst, bool byLabel) {
    Rng r(hash64(rg.next(), cmp ? 0 : (u64)g_me));          // local layouts may differ between processes
    compact = cmp; hasgst = wantGst; long n = nloc(), f = first();
    vector<Num> vt(n + 1), ve(n), eg, el;
    auto num = [&](int w) { return byLabel ? g->vlbl[w] : glob(w); };
    if (cmp) {
      for (long i = 0; i < n; i++) { vt[i] = b + (Num)eg.size(); for (auto& e : g->adj[f + i]) { eg.push_back(num(e.first)); el.push_back(e.second); } ve[i] = b + (Num)eg.size(); }
      vt[n] = b + (Num)eg.size();
    } else {
      vector<long> o(n); std::iota(o.begin(), o.end(), 0); if (r.chance(0.7)) r.shuffle(o);
      double gp = r.unit() * 0.7;
      auto gap = [&]() { while (r.chance(gp)) { eg.push_back((Num)-55555); el.push_back((Num)-66666); } };
      for (long i : o) { gap(); vt[i] = b + (Num)eg.size(); for (auto& e : g->adj[f + i]) { eg.push_back(num(e.first)); el.push_back(e.second); } ve[i] = b + (Num)eg.size(); }
      gap(); vt.resize(n);
    }
    edgesiz = (long)eg.size(); edgeloc = 0; for (long i = 0; i < n; i++) edgeloc += (long)g->adj[f + i].size();
    vert.set(vt); if (!cmp || explicitVend) vend.set(ve);
    edge.set(eg);
    if (g->edlo) edlo.set(el);
    if (!g->velo.empty()) velo.set(vector<Num>(g->velo.begin() + f, g->velo.begin() + f + n));
    if (!g->vlbl.empty()) vlbl.set(vector<Num>(g->vlbl.begin() + f, g->vlbl.begin() + f + n));
    if (wantGst) gst.alloc(edgesiz);
  }
  int rawBuild() {
    gr = (SCOTCH_Dgraph*)malloc(SCOTCH_dgraphSizeof());
    mustOk(SCOTCH_dgraphInit(gr, MPI_COMM_WORLD), "dgraphInit");
    return SCOTCH_dgraphBuild(gr, base, (Num)nloc(), (Num)mx[g_me], vert.p, vend.p ? vend.p : (vert.p + 1), velo.p, vlbl.p, (Num)edgeloc, (Num)edgesiz, edge.p, hasgst ? gst.p : nullptr, edlo.p);
  }
  void build() { mustOkD(rawBuild(), "dgraphBuild"); }
  void save() { vert.save(); vend.save(); velo.save(); vlbl.save(); edge.save(); edlo.save(); }
  void checkUntouched(const char* what) { CHECK(vert.same() && vend.same() && velo.same() && vlbl.same() && edge.same() && edlo.same(), "user-graph-modified", "%s modified caller's graph arrays", what); }
};
struct DOpt { bool holes = true, labels = true, gaps = true, gst = true; };
// Sometimes numbered along a traversal, so that processes only have a few neighbours (and point-to-point communication is used).
static LG genGraphD(Rng& r, long max) {
  LG g = genGraph(r, max); bool loc = r.chance(0.4); if (!loc || g.n < 1 || !g.velo.empty() || !g.vlbl.empty()) return g;
  vector<int> q, idx(g.n, -1); long s0 = (long)r.below(g.n);
  for (long k = 0; k < g.n; k++) { long s = (s0 + k) % g.n; if (idx[s] >= 0) continue; idx[s] = (int)q.size(); q.push_back((int)s); for (size_t i = (size_t)idx[s]; i < q.size(); i++) for (auto& e : g.adj[q[i]]) if (idx[e.first] < 0) { idx[e.first] = (int)q.size(); q.push_back(e.first); } }
  LG h = g; for (long v = 0; v < g.n; v++) { auto& a = h.adj[v]; a = g.adj[q[v]]; for (auto& e : a) e.first = idx[e.first]; }
  h.kind += "-bfs"; feat("numbering:local"); return h;
}
static void randomDPG(Rng& r, DPG& d, const LG& lg, DOpt o = DOpt()) {
  d.base = pickBase(r);
  d.distribute(r, lg, o.holes);
  bool c = !o.gaps || r.chance(0.6);
  bool xv = r.chance(0.3), gs = o.gst && r.chance(0.4);
  bool mixed = o.gaps && r.chance(0.25); u64 mh = r.next();  // compactness may differ between processes
  bool myc = mixed ? (hash64(mh, (u64)g_me) & 1) != 0 : c;
  d.layout(r, d.base, myc, myc && xv, gs, !lg.vlbl.empty());
  d.build();
  if (!lg.vlbl.empty()) {                                   // labels have been turned into global indices
    for (long i = 0; i < d.nloc(); i++) { Num* q = d.edge.p + (d.vert[i] - d.base); for (auto& e : lg.adj[d.first() + i]) { CHECK(*q == d.glob(e.first), "label-conversion", "edge end with label %ld became %ld instead of %ld", (long)lg.vlbl[e.first], (long)*q, (long)d.glob(e.first)); q++; } }
    feat("labels");
  }
  d.save();
  feat(mixed ? "layout:mixed" : c ? "layout:compact" : "layout:gaps"); feat(d.base == 0 ? "base:0" : d.base == 1 ? "base:1" : "base:big"); if (gs) feat("user-ghost-array");
}

// ---------------------------------------------------------------- read back any distributed graph
struct DG {
  LG g; Num base = 0; vector<Num> cnt, mx; vector<long> dsp, vrt; Num vertgst = -1; long degmax = 0;
  long toLog(Num gl) const { for (int p = 0; p < (int)cnt.size(); p++) if (gl >= vrt[p] && gl < vrt[p] + cnt[p]) return dsp[p] + (gl - vrt[p]); return -1; }
};
static DG readD(const SCOTCH_Dgraph* gr, bool sorted = true) {
  DG d; Num vgl, vln, vlm, vgs, egl, eln, els, *vt, *ve, *vl, *lb, *et, *eg, *el; MPI_Comm cm;
  SCOTCH_dgraphData(gr, &d.base, &vgl, &vln, &vlm, &vgs, &vt, &ve, &vl, &lb, &egl, &eln, &els, &et, &eg, &el, &cm);
  CHECK(allSame(d.base) && allSame(vgl) && allSame(egl) && allSame(vl != nullptr) && allSame(lb != nullptr) && allSame(el != nullptr), "dgraph-global-data", "global data differ between processes (vertglbnbr %ld, edgeglbnbr %ld here)", (long)vgl, (long)egl);
  d.cnt = allOne(vln); d.mx = allOne(vlm); d.vertgst = vgs;
  d.dsp.assign(g_np + 1, 0); d.vrt.assign(g_np + 1, d.base);
  for (int p = 0; p < g_np; p++) { d.dsp[p + 1] = d.dsp[p] + d.cnt[p]; d.vrt[p + 1] = d.vrt[p] + d.mx[p]; CHECK(d.cnt[p] >= 0 && d.mx[p] >= d.cnt[p], "dgraph-ranges", "process %d has %ld vertices in a range of %ld", p, (long)d.cnt[p], (long)d.mx[p]); }
  CHECK(d.dsp[g_np] == vgl, "dgraph-vertglbnbr", "global vertex number %ld, sum of local numbers %ld", (long)vgl, d.dsp[g_np]);
  vector<Num> deg, ends, elo; long arcs = 0;
  for (Num i = 0; i < vln; i++) {
    CHECK(vt[i] >= d.base && ve[i] >= vt[i] && ve[i] <= d.base + els, "dgraph-vert", "vertex %ld has edge range [%ld,%ld[ with edge array size %ld", (long)i, (long)vt[i], (long)ve[i], (long)els);
    deg.push_back(ve[i] - vt[i]);
    for (Num e = vt[i]; e < ve[i]; e++) { ends.push_back(et[e - d.base]); elo.push_back(el ? el[e - d.base] : 1); arcs++; }
  }
  CHECK(arcs == eln, "dgraph-edgelocnbr", "edge number %ld differs from sum of degrees %ld", (long)eln, arcs);
  auto aa = allOne(eln); long long s = 0; for (Num x : aa) s += x;
  CHECK(s == egl, "dgraph-edgeglbnbr", "global edge number %ld, sum %lld", (long)egl, s);
  vector<Num> D = allCat(deg), E = allCat(ends), L = allCat(elo);
  d.g.n = vgl; d.g.adj.resize(vgl); d.g.edlo = el != nullptr; size_t k = 0;
  for (long v = 0; v < vgl; v++) {
    for (Num j = 0; j < D[v]; j++, k++) { long w = d.toLog(E[k]); CHECK(w >= 0, "dgraph-edge-end", "vertex %ld has neighbour index %ld which is no vertex", v, (long)E[k]); d.g.adj[v].push_back({(int)w, L[k]}); }
    if (sorted) std::sort(d.g.adj[v].begin(), d.g.adj[v].end());
  }
  if (vl) d.g.velo = allCat(vector<Num>(vl, vl + vln));
  if (lb) d.g.vlbl = allCat(vector<Num>(lb, lb + vln));
  return d;
}
// Validate the ghost numbering against the definition (local part only; all processes do it for themselves).
static void checkGhost(const SCOTCH_Dgraph* gr, const DG& d, vector<long>* ghostsp = nullptr) {
  Num vgs, vln, *vt, *ve, *et, *eg; SCOTCH_dgraphData(gr, nullptr, nullptr, &vln, nullptr, &vgs, &vt, &ve, nullptr, nullptr, nullptr, nullptr, nullptr, &et, &eg, nullptr, nullptr);
  set<Num> gh; for (Num i = 0; i < vln; i++) for (Num e = vt[i]; e < ve[i]; e++) { Num w = et[e - d.base]; if (w < d.vrt[g_me] || w >= d.vrt[g_me] + vln) gh.insert(w); }
  CHECK(vgs == vln + (Num)gh.size(), "ghost-number", "vertgstnbr is %ld with %ld local vertices and %zu distinct distant neighbours", (long)vgs, (long)vln, gh.size());
  CHECK(eg != nullptr, "ghost-array", "no ghost edge array after its computation");
  map<Num, Num> idx; Num k = 0; for (Num w : gh) idx[w] = d.base + vln + k++;
  for (Num i = 0; i < vln; i++) for (Num e = vt[i]; e < ve[i]; e++) {
    Num w = et[e - d.base], x = (w >= d.vrt[g_me] && w < d.vrt[g_me] + vln) ? d.base + (w - d.vrt[g_me]) : idx[w];
    CHECK(eg[e - d.base] == x, "ghost-index", "neighbour of global index %ld has local or ghost index %ld instead of %ld", (long)w, (long)eg[e - d.base], (long)x);
  }
  if (ghostsp) { ghostsp->clear(); for (Num w : gh) ghostsp->push_back(d.toLog(w)); }
}
static void sameLG(const LG& a, const LG& b, const char* what, bool labels = true) {
  LG x = a, y = b; sortAdj(x); sortAdj(y);
  CHECK(x.n == y.n, "graph-size", "%s: %ld vertices instead of %ld", what, y.n, x.n);
  for (long v = 0; v < x.n; v++) {
    CHECK(x.vl(v) == y.vl(v), "graph-vertex-load", "%s: vertex %ld weighs %ld instead of %ld", what, v, (long)y.vl(v), (long)x.vl(v));
    CHECK(x.adj[v] == y.adj[v], "graph-adjacency", "%s: vertex %ld has other neighbours (%zu instead of %zu) or edge loads", what, v, y.adj[v].size(), x.adj[v].size());
  }
  if (labels) CHECK(x.vlbl == y.vlbl, "graph-labels", "%s: vertex labels differ", what);
}
struct DGH {                                               // an initialized library graph
  SCOTCH_Dgraph* g; DGH() { g = (SCOTCH_Dgraph*)malloc(SCOTCH_dgraphSizeof()); mustOk(SCOTCH_dgraphInit(g, MPI_COMM_WORLD), "dgraphInit"); }
  ~DGH() { SCOTCH_dgraphExit(g); free(g); } DGH(const DGH&) = delete;
};
struct GH { SCOTCH_Graph* g; GH() { g = (SCOTCH_Graph*)malloc(SCOTCH_graphSizeof()); SCOTCH_graphInit(g); } ~GH() { SCOTCH_graphExit(g); free(g); } GH(const GH&) = delete; };
static void mustCheckD(const SCOTCH_Dgraph* g, const char* what) { int o = SCOTCH_dgraphCheck(g); CHECK(o == 0 && g_errnbr == 0, "dgraph-check", "dgraphCheck refuses %s: %s", what, g_err.c_str()); }

static void caseBegin(Rng& r) {
  static const int modes[] = {0, 0, 1, 2, 2, 3};
  int m = modes[r.below(6)]; u64 s = r.next(); g_dlyst = s ^ ((u64)g_me * 0x9E3779B97F4A7C15ULL);
  g_dlymode = (m == 3 && (int)(s % g_np) != g_me) ? 0 : m; feat(fmt("delays:%d", m)); feat(fmt("np:%d", g_np));
  SCOTCH_randomProc(g_me); SCOTCH_randomReset();
  g_reqs.clear(); g_comms.clear(); g_types = g_ops = 0;
}
static void runCaseD(long n, Rng& r);
static void runCase(long n, Rng& r) { caseBegin(r); runCaseD(n, r); g_dlymode = 0; mpiQuiet(); }

int main(int argc, char** argv) {
  int lv; MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &lv);
  MPI_Comm_size(MPI_COMM_WORLD, &g_np); MPI_Comm_rank(MPI_COMM_WORLD, &g_me);
  long stride = parseArgs(argc, argv); H.rank = g_me;
  if (g_me != 0) H.progress.clear();
  if (!H.progress.empty()) H.progfd = open(H.progress.c_str(), O_CREAT | O_RDWR, 0600);
  setThreads(1);
  for (long n = H.from; n < H.to; n += stride) {
    H.cur = n; g_desc.clear(); errClear();
    if (H.progfd >= 0) { char b[32]; int k = snprintf(b, sizeof b, "%-20ld\n", n); if (pwrite(H.progfd, b, k, 0) < 0) {} }
    Rng r(hash64(hash64(0x5c07c4, H.seed), (u64)n)); r.next();
    SCOTCH_randomSeed((Num)(r.next() & 0x7fffffff)); SCOTCH_randomReset();
    H.evals++;
    try { runCase(n, r); if (H.samples.size() < 4) H.samples.push_back(fmt("case %ld np=%d: ", n, g_np) + g_desc); }
    catch (CaseAbort&) { feat("mpi-delays", g_mpidelays); dumpStats(); fflush(stderr); usleep(50000); _exit(67); }   // the other processes cannot go on either
    if (H.evals % 200 == 0) dumpStats();
  }
  feat("mpi-calls", g_mpicalls); feat("mpi-delays", g_mpidelays); feat("mpi-waitany-choices", g_mpichoices);
  PMPI_Barrier(MPI_COMM_WORLD);
  if (H.progfd >= 0) { const char* e = "done                \n"; if (pwrite(H.progfd, e, 21, 0) < 0) {} }
  dumpStats();
  PMPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
  _exit(0);
}
