#!/usr/bin/env python3
"""Developer aid: run a check without early stop and summarise distinct violation keys."""
import os, sys, re, subprocess, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vbuild, vrun
from registry import CHECKS
prop, mult = sys.argv[1], float(sys.argv[2]) if len(sys.argv) > 2 else 1
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
tier = sys.argv[4] if len(sys.argv) > 4 else "quick"
for js in CHECKS[prop]["jobs"]:
    v = vbuild.Variant(js["variant"])
    h = dict(src=js["src"], libs=js.get("libs", ["scotch"]), flags=js.get("flags", []), ldflags=js.get("ldflags", []), tag=js.get("tag", ""))
    v.build(js.get("targets", ["scotch"]), [h])
    for np, share in js.get("nprocs", [(0, 1.0)]):
        j = vrun.Job(js["name"], h["exe"], max(1, int(js["quick"] * mult * share)), seed * 1000 + np if np else seed, tier, args=js.get("args", []), env=js.get("env"), prefix=["mpiexec", "-n", str(np)] if np else [],
                     nshard=js.get("nshard", max(1, 8 // np) if np else 8), hang=js.get("hang", 120), stop_early=False)
        j.execute(prop, [])
        ev, nt, mon, feat, sigs, samples = vrun.merge_stats([j])
        print("== job %s np=%d: evals=%d nontrivial=%d oracle=%d viol=%d inconclusive=%d" % (j.name, np, ev, nt, mon, len(j.viols), len(j.inconclusive)))
        for i in j.inconclusive[:3]: print("   INC", i[:300])
        by = collections.OrderedDict()
        for x in j.viols: by.setdefault(x["key"], []).append(x)
        for k, l in sorted(by.items(), key=lambda t: -len(t[1])):
            x = l[0]
            print("--- %4d x %s  cases %s" % (len(l), k, ",".join(y["case"] for y in l[:6])))
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) \S*/(\S+)", x["text"])
            if fr: print("      " + " < ".join("%s %s" % (vrun.norm_func(a), b) for a, b in fr[:5]))
            else: print("      " + x["text"][:400])
            if fr:
                cmd = j.prefix + [j.exe, "--seed", str(j.seed), "--tier", tier, "--case", x["case"], "--verbose", "1", "--tmp", "/tmp"] + j.args
                o = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=j.env, text=True, errors="replace").stdout
                d = [q for q in o.splitlines() if q.startswith("  .. ")]
                print("      DESC " + (d[-1][5:500] if d else "?"))
