// Random strategies for distributed orderings and mappings.
#pragma once
#include "gen.hpp"
#include "genord.hpp"

// ---- distributed ordering strategies
static string dBand(Rng& r) {
  string s = r.chance(0.6) ? "q{strat=" + string(r.chance(0.5) ? "f" : fmt("f{bal=%s,pass=%ld}", fbal(r).c_str(), r.range(1, 10))) + "}" : fmt("d{pass=%ld,bal=%.2f,dif=%.2f,rem=%.2f}", r.range(1, 40), 0.05 + 0.4 * r.unit(), 0.5 + 0.5 * r.unit(), r.unit() * 0.2);
  if (r.chance(0.2)) s = r.chance(0.5) ? "(" + s + "|)" : s + "q{strat=f}";
  return fmt("b{width=%ld,strat=%s}", r.range(1, 4), s.c_str());
}
static string dSep(Rng& r, int depth) {
  auto leaf = [&]() { return r.chance(0.1) ? string("z") : "q{strat=" + genSep(r, 1) + "}"; };
  if (depth <= 0) return leaf();
  switch (r.below(8)) {
    case 0: case 1: case 2: case 3: return fmt("m{vert=%ld,dvert=%ld,fold=%c,rat=%.2f,pass=%s,low=%s,asc=%s,seq=q{strat=%s}}", r.range(4, 120), r.range(2, 300), "nfd"[r.below(3)], 0.6 + 0.3 * r.unit(), r.chance(0.6) ? "-1" : fmt("%ld", r.range(0, 5)).c_str(), dSep(r, 0).c_str(), r.chance(0.85) ? dBand(r).c_str() : "", genSep(r, 1).c_str());
    case 4: return "(" + dSep(r, depth - 1) + "|" + dSep(r, depth - 1) + ")";
    case 5: { static const char* c[] = {"edge", "levl", "load", "proc", "vert"}; int k = (int)r.below(5); long v = k == 1 ? r.range(0, 5) : k == 3 ? r.range(1, 6) : r.range(1, 400); return fmt("/(%s%c%ld)?%s:%s;", c[k], "<>="[r.below(3)], v, dSep(r, depth - 1).c_str(), dSep(r, depth - 1).c_str()); }
    default: return leaf();
  }
}
static string dOrd(Rng& r, int depth) {
  auto leaf = [&]() -> string { return r.chance(0.25) ? "s" : "q{strat=" + genOrd(r, 2, false, true) + "}"; };
  if (depth <= 0) return leaf();
  switch (r.below(7)) {
    case 0: case 1: case 2: case 3: return fmt("n{sep=%s,ole=%s,ose=%s,osq=%s}", dSep(r, 2).c_str(), dOrd(r, 0).c_str(), r.chance(0.7) ? "s" : "q{strat=g}", genOrd(r, 2, false, true).c_str());
    case 4: { static const char* c[] = {"edge", "levl", "load", "mdeg", "proc", "vert"}; int k = (int)r.below(6); long v = k == 1 ? r.range(0, 5) : k == 4 ? r.range(1, 6) : r.range(1, 400); return fmt("/(%s%c%ld)?%s:%s;", c[k], "<>="[r.below(3)], v, dOrd(r, depth - 1).c_str(), dOrd(r, depth - 1).c_str()); }
    default: return leaf();
  }
}
// ---- distributed mapping strategies
static string dmBand(Rng& r) {
  auto ref = [&]() -> string { switch (r.below(5)) { case 0: return "x"; case 1: return fmt("x{bal=%s,sbbt=%ld}", fbal(r).c_str(), r.range(1, 6)); case 2: return "q{strat=f}"; case 3: return fmt("q{strat=f{bal=%s,move=%ld}}", fbal(r).c_str(), r.range(1, 100)); default: return "q{strat=f}x{bal=0}"; } };
  string b = r.chance(0.5) ? fmt("d{pass=%ld,dif=%.2f,rem=%.2f,type=%c}", r.range(1, 40), 0.5 + 0.5 * r.unit(), 0.2 * r.unit(), "bk"[r.below(2)]) : ref();
  if (r.chance(0.4)) b = "(" + b + "|)" + (r.chance(0.7) ? ref() : ""); else if (r.chance(0.4)) b += ref();
  return fmt("b{width=%ld,bnd=%s,org=%s}", r.range(1, 4), b.c_str(), r.chance(0.8) ? ref().c_str() : "");
}
static string dmSep(Rng& r, int depth) {
  auto leaf = [&]() { return r.chance(0.1) ? string("z") : "q{strat=" + genBipart(r, 2) + "}"; };
  if (depth <= 0) return leaf();
  switch (r.below(9)) {
    case 0: case 1: case 2: case 3: return fmt("m{vert=%ld,dvert=%ld,fold=%c,rat=%.2f,pass=%s,low=%s,asc=%s,seq=q{strat=%s}}", r.range(4, 120), r.range(2, 300), "nfd"[r.below(3)], 0.6 + 0.3 * r.unit(), r.chance(0.6) ? "-1" : fmt("%ld", r.range(0, 5)).c_str(), dmSep(r, 0).c_str(), r.chance(0.85) ? dmBand(r).c_str() : "", genBipart(r, 1).c_str());
    case 4: return "(" + dmSep(r, depth - 1) + "|" + dmSep(r, depth - 1) + ")";
    case 5: return dmSep(r, depth - 1) + (r.chance(0.5) ? "x" : dmBand(r));
    case 6: { static const char* c[] = {"edge", "levl", "load", "load0", "proc", "vert", "lmin0", "lmax0"}; int k = (int)r.below(8); long v = k == 1 ? r.range(0, 5) : k == 4 ? r.range(1, 6) : r.range(1, 400); return fmt("/(%s%c%ld)?%s:%s;", c[k], "<>="[r.below(3)], v, dmSep(r, depth - 1).c_str(), dmSep(r, depth - 1).c_str()); }
    default: return leaf();
  }
}
static string dmMap(Rng& r) { return fmt("r{bal=%s,sep=%s,seq=%s}", fbal(r).c_str(), dmSep(r, 2).c_str(), genMapStrat(r, 1, false).c_str()); }
