#!/usr/bin/env python3
"""Entry point: check.py <property> [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]"""
import os, sys, time, json, argparse, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vbuild, vrun
from registry import CHECKS


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=float, default=1.0, help="multiply the number of cases")
    ap.add_argument("--nostop", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    try:
        c = CHECKS[a.prop]
        if callable(c.get("run")):
            return c["run"](a, t0)
        jobs, known = [], vrun.load_known()
        for js in c["jobs"]:
            n = int(js["quick" if a.tier == "quick" else "thorough"] * a.cases)
            if n <= 0:
                continue
            v = vbuild.Variant(js["variant"])
            h = dict(src=js["src"], libs=js.get("libs", ["scotch"]), flags=js.get("flags", []), ldflags=js.get("ldflags", []), tag=js.get("tag", ""))
            v.build(js.get("targets", ["scotch"]), [h])
            if a.replay:
                rp = json.load(open(a.replay))
                if rp["job"] != js["name"]:
                    continue
                cmd = rp["cmd"]
                e = dict(os.environ, **vbuild.MPIENV)
                e.update(rp["env"])
                os.execvpe(cmd[0], cmd, e)
            for np, share in js.get("nprocs", [(0, 1.0)]):
                prefix = (["mpiexec", "-n", str(np)] if np else []) + js.get("prefix", [])
                j = vrun.Job(js["name"] + ("-np%d" % np if np else ""), h["exe"], max(1, int(n * share)), a.seed * 1000 + np if np else a.seed, a.tier, args=js.get("args", []), env=js.get("env"), prefix=prefix,
                             nshard=js.get("nshard", max(1, 8 // np) if np else vrun.NSHARD), hang=js.get("hang", 120), stop_early=not a.nostop)
                j.execute(a.prop, known)
                jobs.append(j)
                if j.unknown(a.prop, known) and not a.nostop:
                    break
            if any(j.unknown(a.prop, known) for j in jobs) and not a.nostop:
                break
        return vrun.finish(a.prop, a.tier, a.seed, c["level"], jobs, t0, c["rule"], c.get("assumptions", ()), min_feats=c.get("min_feats", ()), min_evals=1)
    except vbuild.BuildError as e:
        print("BUILD ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 3


sys.exit(main())
