// Mesh ordering strategies.
#pragma once
#include "mesh.hpp"
#include "genord.hpp"

static string genMSep(Rng& r, int depth) {
  auto leaf = [&]() -> string { switch (r.below(6)) { case 0: case 1: return fmt("h{pass=%ld}", r.range(1, 8)); case 2: return fmt("h{pass=%ld}f{bal=%s,move=%ld,pass=%s}", r.range(1, 5), fbal(r).c_str(), r.range(1, 150), r.chance(0.5) ? "-1" : "4"); case 3: return "h"; case 4: return r.chance(0.3) ? "z" : "hf"; default: return r.chance(0.3) ? "" : "hf{bal=0.05}"; } };
  if (depth <= 0) return leaf();
  switch (r.below(7)) {
    case 0: case 1: case 2: return fmt("m{vnod=%ld,rat=%.2f,type=h,low=%s,asc=f{bal=%s}}", r.range(2, 100), 0.5 + 0.4 * r.unit(), genMSep(r, depth - 1).c_str(), fbal(r).c_str());
    case 3: return "(" + genMSep(r, depth - 1) + "|" + genMSep(r, depth - 1) + ")";
    case 4: return fmt("/(vnod>%ld)?%s;", r.range(1, 60), genMSep(r, depth - 1).c_str());
    case 5: return fmt("/((levl<%ld)%c(vnod>%ld))?%s;", r.range(1, 5), "|&"[r.below(2)], r.range(2, 60), genMSep(r, depth - 1).c_str());
    default: return leaf();
  }
}
static string genMOrd(Rng& r, int depth, bool halo = false) {
  auto leaf = [&]() -> string { switch (r.below(6)) { case 0: return "s"; case 1: return fmt("g{pass=%ld}", r.range(1, 5)); case 2: return fmt("d{cmin=%ld,cmax=%ld,frat=%.2f}", r.range(0, 20), r.range(1, 1000), r.unit() * 0.3); case 3: return fmt("f{cmin=%ld,cmax=%ld,frat=%.2f}", r.range(0, 20), r.range(1, 1000), r.unit() * 0.3); case 4: return "v{strat=" + genOrd(r, 1, false, true) + "}"; default: return ""; } };
  if (depth <= 0) return leaf();
  switch (halo ? 5 + (int)r.below(3) : (int)r.below(8)) {
    case 0: case 1: case 2: case 5: return fmt("n{sep=%s,ole=%s,ose=%s}", genMSep(r, 2).c_str(), genMOrd(r, r.chance(0.2) ? depth - 1 : 0, true).c_str(), r.chance(0.5) ? "s" : "g");
    case 3: case 4: return fmt("c{rat=%.2f,cpr=%s,unc=%s}", 0.3 + r.unit() * 0.7, genMOrd(r, depth - 1).c_str(), genMOrd(r, depth - 1).c_str());
    case 6: return fmt("b{cmin=%ld,strat=%s}", r.range(1, 20), r.chance(0.5) ? "s" : "g");
    default: return fmt("/(vnod>%ld)?%s:%s;", r.range(1, 80), genMOrd(r, depth - 1, halo).c_str(), leaf().c_str());
  }
}
