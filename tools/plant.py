#!/usr/bin/env python3
"""plant.py [--notest] [--nocheck] [--all-checks] ID... : validates planted bugs in a scratch copy of /repo under /tmp/pl."""
import os, sys, subprocess, json, shutil, re
PL = os.environ.get("PL", "/tmp/pl"); R = PL + "/repo"; V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def setup():
    os.makedirs(PL, exist_ok=True)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.exists(R): sh("git clone -q /repo %s" % R)
    sh("cd %s && git fetch -q /repo HEAD && git checkout -q -f %s && git clean -qfd -e _build" % (R, head))
    for f in os.listdir("/opt/vp"):
        p = "/opt/vp/" + f
        if os.path.isfile(p): open(PL + "/" + f, "w").write(open(p).read().replace("/opt/vp/", PL + "/").replace("/repo", R))
def main():
    a = sys.argv[1:]; nt = "--notest" in a; nc = "--nocheck" in a; ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    setup(); base = json.load(open("/opt/vp/BASELINE.json")); stable = base.get("stable") or base.get("passed") or base.get("tests") or base
    env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=PL + "/build", VERIF_SEED="1", VERIF_TIER="quick")
    b = sh("bash %s/build.sh" % PL)
    if b.returncode: print("base build failed", b.stdout[-800:]); return
    clean = {}
    for i in ids:
        shutil.rmtree(PL + "/demo", ignore_errors=True); shutil.copytree(V + "/seeded/" + i, PL + "/demo")
        for f in os.listdir(PL + "/demo"):
            if f.endswith(".diff") or f == "meta.json": os.unlink(PL + "/demo/" + f)
        r = sh("timeout 300 bash %s/demo/demo.sh" % PL, cwd=R); clean[i] = r.returncode
        if r.returncode: print(i, "demo FAILS on the unchanged tree:", r.stdout[-600:])
    for i in ids:
        prop = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
        res = [i, prop]
        shutil.rmtree(PL + "/demo", ignore_errors=True); shutil.copytree(V + "/seeded/" + i, PL + "/demo")
        p = sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, V, i))
        if p.returncode: print(i, "does not apply", p.stdout); continue
        try:
            b = sh("bash %s/build.sh" % PL)
            if b.returncode: print(i, "build failed", b.stdout[-1500:]); continue
            r = sh("timeout 300 bash %s/demo/demo.sh" % PL, cwd=R); res.append("demo:%s(rc=%d)" % ("ok" if r.returncode and clean[i] == 0 else "BAD", r.returncode))
            if not nt:
                sh("bash %s/test.sh %s/t.json" % (PL, PL)); t = json.load(open(PL + "/t.json"))
                bad = [x for x in stable if x not in t["passed"]]; res.append("tests:%s" % ("ok" if not bad else "BROKEN %s" % bad[:4]))
            if not nc:
                r = sh("timeout 1000 python3 %s/check.py %s" % (V, prop), env=env)
                m = re.findall(r"^VIOLATION .*|^  .*|^C\d+ quick.*", r.stdout, re.M)
                res.append("check:%s(rc=%d)" % ("CAUGHT" if r.returncode == 1 else "MISSED", r.returncode)); res.append((m[-1] if m else r.stdout[-200:])[:200])
        finally:
            sh("git -C %s checkout -q -- ." % R)
        print(*res, flush=True)
main()
