// C18: equal inputs and seeds give equal results, whatever happened before, in other contexts or other processes, and whatever memory holds.
#include "ops.hpp"
#include <malloc.h>
#include <sys/wait.h>
#include <alloca.h>
#include <atomic>

// Reallocation policy of the library: 0 as it comes, 1 always moves, 2 hardly ever moves (allocations get slack).
static std::atomic<int> g_rmode{0};
extern "C" {
void* __real_malloc(size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { return __real_malloc(g_rmode.load(std::memory_order_relaxed) == 2 && n < 200000 ? n * 4 + 64 : n); }
void* __wrap_realloc(void* p, size_t n) {
  int m = g_rmode.load(std::memory_order_relaxed); if (!p || m == 0) return __real_realloc(p, n);
  size_t u = malloc_usable_size(p); if (m == 2 && n <= u) return p;
  if (m == 2) return __real_realloc(p, n < 200000 ? n * 4 + 64 : n);
  void* q = __real_malloc(n); if (!q) return nullptr; memcpy(q, p, std::min(u, n)); free(p); return q;
}
}
__attribute__((noinline)) static void dirtyStack(Rng& r) { size_t k = 4096 << r.below(7); volatile char* p = (volatile char*)alloca(k); int b = (int)r.below(256); for (size_t i = 0; i < k; i++) p[i] = (char)b; }
static void dirtyMemory(Rng& r) {
#ifndef __SANITIZE_ADDRESS__
  mallopt(M_PERTURB, (int)r.below(256));
#endif
  vector<char*> v; for (int i = 0; i < 60; i++) { size_t k = 16 << r.below(13); char* p = (char*)malloc(k); memset(p, (int)r.below(256), k); v.push_back(p); } r.shuffle(v); for (char* p : v) free(p);
  if (r.chance(0.3)) v[0] = (char*)malloc(r.below(5000));      // a lasting shift of later addresses
  if (!getenv("NOTHREADS")) g_rmode = (int)r.below(3);
  dirtyStack(r);
}
static u64 child(long n, int thr) {                      // the same case in another process, with other memory contents
  string f = H.tmp + fmt("/c18.%ld.%d", n, (int)getpid()); pid_t p = fork();
  if (p == 0) { setenv("C18_OUT", f.c_str(), 1); (void)thr; string a = fmt("%llu", (unsigned long long)H.seed), b = fmt("%ld", n); execl("/proc/self/exe", "c18", "--seed", a.c_str(), "--case", b.c_str(), "--tmp", H.tmp.c_str(), "--tier", H.tier.c_str(), (char*)nullptr); _exit(127); }
  int st = 0; waitpid(p, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "child", "child process failed (%d)", st);
  FILE* q = fopen(f.c_str(), "r"); CHECK(q, "child", "no result from child process"); unsigned long long h = 0; CHECK(fscanf(q, "%llx", &h) == 1, "child", "bad result from child process"); fclose(q); unlink(f.c_str()); return h;
}
struct Ctx { SCOTCH_Context* c; Ctx() { c = SCOTCH_contextAlloc(); mustOk(SCOTCH_contextInit(c), "contextInit"); } ~Ctx() { SCOTCH_contextExit(c); free(c); } };

static void runCase(long n, Rng& r) {
  const char* out = getenv("C18_OUT");
  setThreads(1); int mode = (int)r.below(10); Num seed = (Num)(r.next() & 0x7fffffff);
  Op a = genOp(r, r.chance(0.75) ? 60 : 400); desc("%s", a.name.c_str());
  auto globalRun = [&]() { SCOTCH_randomSeed(seed); SCOTCH_randomReset(); return a.run(nullptr); };
  if (out) { Rng q(hash64(n, 77) ^ 0xabcdef); dirtyMemory(q); string s = globalRun(); FILE* f = fopen(out, "w"); fprintf(f, "%llx\n", (unsigned long long)hashStr(s)); fclose(f); return; }
  string r1 = globalRun();
  if (mode == 0 && !getenv("NOTHREADS")) { feat("mode:process"); u64 h = child(n, 1); CHECK(h == hashStr(r1), "process", "another process gives another result"); H.nontrivial++; sig(hashStr(a.name)); return; }
  // repeated after unrelated calls and memory changes
  int reps = (int)r.range(1, 3);
  for (int i = 0; i < reps; i++) {
    dirtyMemory(r);
    int k = (int)r.below(3); for (int j = 0; j < k; j++) { SCOTCH_randomReset(); Op b = genOp(r, 60); if (r.chance(0.3)) { StratH s; SCOTCH_stratGraphMap(s.s, "zz{q"); errClear(); } desc("other: %s", b.name.c_str()); b.run(nullptr); }
    string r2 = globalRun(); CHECK(r1 == r2, "repeat", "a repeated computation gives another result (after %d other computations)", k);
  }
  feat("mode:repeat");
  if (a.ctxOk && mode < 7) {
    Ctx c1; mustOk(SCOTCH_contextRandomClone(c1.c), "contextRandomClone"); SCOTCH_contextRandomSeed(c1.c, seed); if (r.chance(0.5)) mustOk(SCOTCH_contextThreadSpawn(c1.c, 1, nullptr), "contextThreadSpawn");
    Ctx c2; mustOk(SCOTCH_contextRandomClone(c2.c), "contextRandomClone"); SCOTCH_contextRandomSeed(c2.c, (Num)r.next());
    Op b = genOp(r, 60); while (!b.ctxOk) b = genOp(r, 60); desc("other: %s", b.name.c_str());
    SCOTCH_randomSeed((Num)r.next()); SCOTCH_randomReset(); long v0; { v0 = SCOTCH_randomVal(1000000); SCOTCH_randomReset(); }
    dirtyMemory(r); if (r.chance(0.5)) b.run(c2.c);
    string r3 = a.run(c1.c); CHECK(r1 == r3, "context", "the computation in a context seeded alike gives another result");
    CHECK(SCOTCH_randomVal(1000000) == v0, "context-isolation", "a computation in a context drew numbers from the global generator");
    if (r.chance(0.5)) b.run(c2.c);
    SCOTCH_contextRandomReset(c1.c); string r4 = a.run(c1.c); CHECK(r1 == r4, "context-reset", "resetting the generator of the context and computing again gives another result");
    feat("mode:context");
    if (mode < 4 && !getenv("NOTHREADS")) {                                      // several threads, deterministic
      int t = (int)r.range(2, 6); string rr[3];
      for (int i = 0; i < 3; i++) { Ctx c; if (r.chance(0.5)) mustOk(SCOTCH_contextOptionParse(c.c, "d"), "contextOptionParse"); else mustOk(SCOTCH_contextOptionSetNum(c.c, SCOTCH_OPTIONNUMDETERMINISTIC, 1), "contextOptionSetNum"); mustOk(SCOTCH_contextThreadSpawn(c.c, t, nullptr), "contextThreadSpawn"); mustOk(SCOTCH_contextRandomClone(c.c), "contextRandomClone"); SCOTCH_contextRandomSeed(c.c, seed); dirtyMemory(r); rr[i] = a.run(c.c); CHECK(rr[i] == rr[0], "threads", "deterministic runs with %d threads give different results", t); }
      feat(fmt("mode:threads:%d", t)); if (rr[0] != r1) feat("threads-differ-from-sequential");
    }
  }
  if (r1.size() > 8) H.nontrivial++;
  sig(hashStr(a.name));
}
