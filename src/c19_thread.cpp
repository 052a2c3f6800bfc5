// C19: no data race and no deadlock between calls on distinct objects or inside multi-threaded calls; results as in sequential executions.
// Compiled with the thread sanitizer (and without, for speed); delays are injected around every synchronization operation.
#include "ops.hpp"
#include <thread>
#include <atomic>

static std::atomic<unsigned> g_delay{0}; static std::atomic<long> g_sync{0};
static __thread u64 t_rnd = 0;
static inline void jitter() {
  unsigned d = g_delay.load(std::memory_order_relaxed); g_sync.fetch_add(1, std::memory_order_relaxed); if (!d) return;
  if (!t_rnd) t_rnd = (u64)(uintptr_t)&t_rnd * 0x9e3779b97f4a7c15ull ^ g_delay; t_rnd ^= t_rnd << 13; t_rnd ^= t_rnd >> 7; t_rnd ^= t_rnd << 17;
  unsigned k = (unsigned)(t_rnd % 100); if (k < d) sched_yield(); else if (k < d + d / 6) { struct timespec t = {0, (long)(t_rnd % 50000)}; nanosleep(&t, nullptr); }
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*); int __real_pthread_cond_broadcast(pthread_cond_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { jitter(); int o = __real_pthread_mutex_lock(m); return o; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int o = __real_pthread_mutex_unlock(m); jitter(); return o; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return __real_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { jitter(); return __real_pthread_cond_broadcast(c); }
}
struct ThreadDescriptor { void* contptr; int thrdnum; };
extern "C" {
int _SCOTCHthreadContextNbr(void*) __attribute__((weak)); int _SCOTCHthreadContextBarrier(void*) __attribute__((weak));
void _SCOTCHthreadLaunch(void*, void (*)(ThreadDescriptor*, void*), void*) __attribute__((weak));
void _SCOTCHthreadReduce(const ThreadDescriptor*, void*, size_t, void (*)(void*, void*, const void*), int, const void*) __attribute__((weak));
void _SCOTCHthreadScan(const ThreadDescriptor*, void*, size_t, void (*)(void*, void*, const int, const int, const void*), const void*) __attribute__((weak));
int _SCOTCHcontextCommit(void*) __attribute__((weak));
}
struct Ctx { SCOTCH_Context* c; Ctx() { c = SCOTCH_contextAlloc(); mustOk(SCOTCH_contextInit(c), "contextInit"); } ~Ctx() { SCOTCH_contextExit(c); free(c); } Ctx(const Ctx&) = delete; };

// --- thread team primitives: barrier, reduction, scan
struct Cell { long redu; long scan[2]; };
struct Team { vector<Cell> cell; std::atomic<long> phase{0}; int rounds; vector<int> roots; std::atomic<int> bad{0}; std::atomic<int> serial{0}; vector<long> val; int n; };
static void reduF(void* a, void* b, const void*) { ((Cell*)a)->redu += ((Cell*)b)->redu; }
static void scanF(void* a, void* b, const int src, const int dst, const void*) { ((Cell*)a)->scan[dst] = ((Cell*)a)->scan[src] + (b ? ((Cell*)b)->scan[src] : 0); }
static void teamRun(ThreadDescriptor* d, void* p) {
  Team* t = (Team*)p; int me = d->thrdnum; int n = t->n;
  for (int k = 0; k < t->rounds; k++) {
    t->phase.fetch_add(1); if (_SCOTCHthreadContextBarrier(d->contptr) != 0) t->serial.fetch_add(1);
    if (t->phase.load() != (long)(k + 1) * n) t->bad |= 1;         // a thread passed the barrier before all had arrived
    _SCOTCHthreadContextBarrier(d->contptr);
    t->cell[me].redu = t->val[me] + k; _SCOTCHthreadReduce(d, &t->cell[me], sizeof(Cell), reduF, t->roots[k], nullptr);
    if (me == t->roots[k]) { long s = 0; for (int i = 0; i < n; i++) s += t->val[i] + k; if (t->cell[me].redu != s) t->bad |= 2; }
    _SCOTCHthreadContextBarrier(d->contptr);
    t->cell[me].scan[0] = t->val[me] * (k + 1); t->cell[me].scan[1] = -999; _SCOTCHthreadContextBarrier(d->contptr);
    _SCOTCHthreadScan(d, &t->cell[me], sizeof(Cell), scanF, nullptr);
    long s = 0; for (int i = 0; i <= me; i++) s += t->val[i] * (k + 1); if (t->cell[me].scan[0] != s) t->bad |= 4;
    _SCOTCHthreadContextBarrier(d->contptr);
  }
}

static void runCase(long n, Rng& r) {
  setThreads(1); static const unsigned dl[] = {0, 0, 5, 20, 60}; g_delay = dl[r.below(5)]; feat(fmt("delay:%u", g_delay.load()));
  long s0 = g_sync; int mode = (int)r.below(4);
  long nmax = r.chance(0.7) ? 60 : 500;
  if (mode == 0) {                                       // team primitives
    if (!_SCOTCHthreadLaunch) { feat("primitives-unavailable"); mode = 1; }
    else {
      Ctx c; int t = (int)r.range(2, 7); mustOk(SCOTCH_contextThreadSpawn(c.c, t, nullptr), "contextThreadSpawn"); int reps = (int)r.range(1, 4); desc("team of %d", t);
      for (int i = 0; i < reps; i++) { Team m; m.n = t; m.cell.resize(t); m.rounds = (int)r.range(1, 8); for (int k = 0; k < m.rounds; k++) m.roots.push_back((int)r.below(t)); for (int k = 0; k < t; k++) m.val.push_back(r.range(-1000, 1000));
        _SCOTCHthreadLaunch(*(void**)c.c, teamRun, &m);  // the team is the first field of a context
        CHECK(m.phase.load() == (long)m.rounds * t, "team-run", "routine ran %ld times instead of %ld", m.phase.load(), (long)m.rounds * t);
        CHECK(!(m.bad & 1), "barrier", "a thread passed a barrier before all had reached it"); CHECK(!(m.bad & 2), "reduce", "wrong reduction"); CHECK(!(m.bad & 4), "scan", "wrong scan"); CHECK(m.serial == m.rounds, "barrier-serial", "%d serial threads for %d barriers", m.serial.load(), m.rounds); }
      H.nontrivial++; feat("mode:team"); feat("sync-operations", g_sync - s0); sig(hash64(n, t)); return; }
  }
  if (mode == 1 || mode == 2) {                          // concurrent calls on distinct objects with distinct contexts
    int T = (int)r.range(2, 4); vector<vector<Op>> ops(T); vector<std::unique_ptr<Ctx>> cx; vector<vector<string>> ref(T), got(T); vector<Num> seeds; vector<int> ths; string d;
    SCOTCH_randomReset();
    for (int i = 0; i < T; i++) { int k = (int)r.range(1, 3); while ((int)ops[i].size() < k) { Op o = genOp(r, nmax); if (o.ctxOk) { d += o.name + " | "; ops[i].push_back(o); } } seeds.push_back((Num)(r.next() & 0x7fffffff)); ths.push_back(mode == 1 ? 1 : (int)r.range(1, 3)); }
    desc("concurrent %d: %s", T, d.substr(0, 1500).c_str());
    auto mk = [&](int i) { std::unique_ptr<Ctx> c(new Ctx); mustOk(SCOTCH_contextRandomClone(c->c), "contextRandomClone"); SCOTCH_contextRandomSeed(c->c, seeds[i]); if (ths[i] > 1) mustOk(SCOTCH_contextOptionParse(c->c, "d"), "contextOptionParse"); mustOk(SCOTCH_contextThreadSpawn(c->c, ths[i], nullptr), "contextThreadSpawn"); return c; };
    for (int i = 0; i < T; i++) { auto c = mk(i); for (auto& o : ops[i]) ref[i].push_back(o.run(c->c)); }
    for (int i = 0; i < T; i++) cx.push_back(mk(i));
    vector<std::thread> th; std::atomic<int> ready{0}; std::atomic<int> fail{0};
    for (int i = 0; i < T; i++) th.emplace_back([&, i]() { ready++; while (ready < T) sched_yield(); try { for (auto& o : ops[i]) got[i].push_back(o.run(cx[i]->c)); } catch (CaseAbort&) { fail = 1; } });
    for (auto& t : th) t.join();
    CHECK(!fail, "concurrent-failure", "a concurrent call failed: %s", g_err.c_str());
    for (int i = 0; i < T; i++) for (size_t k = 0; k < ops[i].size(); k++) CHECK(got[i][k] == ref[i][k], "concurrent-result", "thread %d: %s gives another result when run along with other threads", i, ops[i][k].name.c_str());
    H.nontrivial++; feat(mode == 1 ? "mode:isolated" : "mode:isolated-teams"); feat("sync-operations", g_sync - s0); sig(hashStr(d)); return;
  }
  // several threads inside one call: result valid (checked by the operation itself)
  int t = (int)r.range(2, 8); Ctx c; mustOk(SCOTCH_contextThreadSpawn(c.c, t, nullptr), "contextThreadSpawn"); int k = (int)r.range(1, 3);
  for (int i = 0; i < k; i++) { Op o = genOp(r, nmax); while (!o.ctxOk) o = genOp(r, nmax); desc("team %d: %s", t, o.name.c_str()); o.run(c.c); sig(hashStr(o.name)); }
  H.nontrivial++; feat("mode:inside"); feat("sync-operations", g_sync - s0);
}
