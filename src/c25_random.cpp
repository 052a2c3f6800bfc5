// C25: the pseudo-random generator against a history model.
#include "common.hpp"
static vector<Num> draw(long k, Num m) { vector<Num> v; for (long i = 0; i < k; i++) { Num x = SCOTCH_randomVal(m); CHECK(x >= 0 && x < m, "value-range", "randomVal(%ld) returned %ld", (long)m, (long)x); v.push_back(x); } return v; }
static Num bound(Rng& r) { switch (r.below(5)) { case 0: return 1; case 1: return (Num)r.range(1, 10); case 2: return (Num)r.range(1, 100000); case 3: return (Num)SCOTCH_NUMMAX; default: return (Num)(1L << r.range(0, 30)); } }
static const Num WIDE = (Num)SCOTCH_NUMMAX;
static string path(const char* n) { return H.tmp + "/" + n; }
static string slurp(const string& f) { FILE* s = fopen(f.c_str(), "r"); string t; char b[4096]; size_t k; while (s && (k = fread(b, 1, sizeof b, s)) > 0) t.append(b, k); if (s) fclose(s); return t; }
static void spit(const string& f, const string& t) { FILE* s = fopen(f.c_str(), "w"); fwrite(t.data(), 1, t.size(), s); fclose(s); }
static void save(const char* n) { FILE* s = fopen(path(n).c_str(), "w"); int rc = SCOTCH_randomSave(s); fclose(s); mustOk(rc, "randomSave"); }
static int load(const char* n) { FILE* s = fopen(path(n).c_str(), "r"); int rc = SCOTCH_randomLoad(s); fclose(s); return rc; }
static void runCase(long n, Rng& r) {
  // Model: the state is (seed, process number, count of draws since the last reset), each value being a pure function of it.
  SCOTCH_randomProc(0); Num seed = (Num)r.next(); int proc = 0; SCOTCH_randomSeed(seed);
  desc("seed=%ld", (long)seed);
  { // replay from the seed
    long k = r.range(1, 40); Num m = bound(r); auto a = draw(k, m); SCOTCH_randomReset(); auto b = draw(k, m); CHECK(a == b, "reset-replay", "reset does not replay the sequence (bound %ld)", (long)m);
    SCOTCH_randomSeed((Num)r.next()); draw(r.below(20), bound(r)); SCOTCH_randomSeed(seed); auto c = draw(k, m); CHECK(a == c, "seed-replay", "seeding again does not replay the sequence"); feat("replay"); }
  vector<Num> hist; SCOTCH_randomSeed(seed); string script; long epoch = 0;
  { // history of operations, each drawn value recorded with its place in its sequence
    map<pair<Num, int>, vector<Num>> seq; struct St { Num seed; int proc; int live; long pos; }; St cur{seed, 0, 0, 0}; map<int, St> saved; Num cs = seed; int lp = 0; long steps = r.range(5, 40);
    auto one = [&]() { Num x = SCOTCH_randomVal(WIDE); CHECK(x >= 0 && x < WIDE, "value-range", "value %ld", (long)x); auto& q = seq[{cs, lp}]; if ((long)q.size() > cur.pos) CHECK(q[cur.pos] == x, "history", "draw %ld of seed %ld process %d is %ld, was %ld; history %s", cur.pos, (long)cs, lp, (long)x, (long)q[cur.pos], script.c_str()); else if ((long)q.size() == cur.pos) q.push_back(x); cur.pos++; };
    int setproc = 0;                                      // process number set, taken into account at next reset or seeding
    for (long s = 0; s < steps; s++) {
      switch (r.below(7)) {
        case 0: case 1: case 2: { long k = r.range(1, 8); for (long i = 0; i < k; i++) one(); script += fmt("d%ld ", k); break; }
        case 3: SCOTCH_randomReset(); lp = setproc; cur.pos = 0; script += "r "; feat("op:reset"); break;
        case 4: { cs = (r.chance(0.5) && !seq.empty()) ? std::next(seq.begin(), r.below((long)seq.size()))->first.first : (Num)r.next(); SCOTCH_randomSeed(cs); lp = setproc; cur.pos = 0; script += fmt("s%ld ", (long)cs); feat("op:seed"); break; }
        case 5: { int i = (int)r.below(3); if (r.chance(0.5) || !saved.count(i)) { save(fmt("st%d", i).c_str()); saved[i] = St{cs, setproc, lp, cur.pos}; script += fmt("S%d ", i); feat("op:save"); } else { mustOk(load(fmt("st%d", i).c_str()), "randomLoad"); cs = saved[i].seed; setproc = saved[i].proc; lp = saved[i].live; cur.pos = saved[i].pos; script += fmt("L%d ", i); feat("op:load"); } break; }
        default: setproc = (int)r.below(6); SCOTCH_randomProc(setproc); script += fmt("p%d ", setproc); feat("op:proc"); break;
      }
    }
    H.nontrivial++; sig(hashStr(script));
  }
  if (n % 4 == 0) { // process numbers select distinct sequences
    int np = (int)r.range(2, 64); Num sd = (Num)r.next(); map<vector<Num>, int> seen; SCOTCH_randomSeed(sd);
    for (int p = 0; p < np; p++) { SCOTCH_randomProc(p); SCOTCH_randomReset(); auto v = draw(6, WIDE); CHECK(!seen.count(v), "process-distinct", "processes %d and %d of seed %ld have the same sequence", seen[v], p, (long)sd); seen[v] = p; } SCOTCH_randomProc(0); SCOTCH_randomReset(); feat("processes"); }
  if (n % 8 == 0) { // every value of a small range occurs, with roughly the right frequency
    Num m = (Num)r.range(2, 40); long k = 400L * m; vector<long> cnt(m, 0); for (Num x : draw(k, m)) cnt[x]++;
    for (Num v = 0; v < m; v++) CHECK(cnt[v] > 220 && cnt[v] < 620, "uniform", "value %ld out of %ld drawn %ld times out of %ld", (long)v, (long)m, cnt[v], k);
    // high bits as well: thirds of the whole range, and no short cycle
    long t[4] = {0, 0, 0, 0}; set<Num> dist; for (long i = 0; i < 4000; i++) { Num x = SCOTCH_randomVal(WIDE); t[(int)((double)x / (double)WIDE * 4)]++; dist.insert(x); }
    for (int i = 0; i < 4; i++) CHECK(t[i] > 800 && t[i] < 1200, "uniform-high", "quarter %d of the range drawn %ld times out of 4000", i, t[i]);
    CHECK(dist.size() > 3980, "short-cycle", "only %ld distinct values out of 4000", (long)dist.size()); feat("uniform"); }
  { // malformed state files are refused, well-formed ones in any spacing are accepted
    SCOTCH_randomSeed(seed); draw(r.below(10), WIDE); save("good"); string g = slurp(path("good")); auto a = draw(5, WIDE);
    size_t cutat = 0; bool bad = true; string t = g; int how = (int)r.below(5);
    vector<pair<size_t, size_t>> tok; for (size_t i = 0; i < g.size();) { if (isspace((unsigned char)g[i])) { i++; continue; } size_t j = i; while (j < g.size() && !isspace((unsigned char)g[j])) j++; tok.push_back({i, j}); i = j; }
    CHECK(tok.size() == 5, "state-format", "saved state has %ld fields", (long)tok.size());
    if (how == 0) t = g.substr(0, tok[r.below(5)].first); else if (how == 1) { size_t k = r.below(5); t = g.substr(0, tok[k].first) + "x" + g.substr(tok[k].first); } else if (how == 2) t = "2" + g.substr(tok[0].second); else if (how == 3) t = ""; else { bad = false; t.clear(); for (auto& k : tok) { for (long q = r.range(1, 3); q > 0; q--) t += " \n\t"[r.below(3)]; t += g.substr(k.first, k.second - k.first); } t += "\n"; }
    (void)cutat; spit(path("bad"), t); errClear(); int rc = load("bad");
    if (bad) { CHECK(rc != 0, "malformed-accepted", "malformed state file accepted: '%s'", t.c_str()); feat("state:refused"); errClear(); mustOk(load("good"), "randomLoad"); auto b = draw(5, WIDE); CHECK(a == b, "resume", "restored state does not resume the sequence after a refusal"); }
    else { mustOk(rc, "randomLoad"); auto b = draw(5, WIDE); CHECK(a == b, "resume", "restored state does not resume the sequence"); feat("state:accepted"); }
  }
  { // contexts: clone continues the global sequence on its own, fixed-seed contexts restart
    SCOTCH_randomProc(0); SCOTCH_randomSeed(seed); draw(r.below(10), WIDE); auto st = [&]() { save("g1"); return slurp(path("g1")); };
    SCOTCH_Context* c = SCOTCH_contextAlloc(); mustOk(SCOTCH_contextInit(c), "contextInit"); mustOk(SCOTCH_contextRandomClone(c), "randomClone"); string s1 = st();
    SCOTCH_contextRandomReset(c); SCOTCH_contextRandomSeed(c, (Num)r.next()); CHECK(st() == s1, "context-isolation", "resetting the generator of a context changed the global one"); SCOTCH_contextExit(c); free(c); feat("context"); }
  SCOTCH_randomProc(0); (void)proc; (void)epoch;
}
