"""Runs harnesses over case ranges in shards, watches for crashes / hangs / violations, writes evidence and verdicts."""
import os, sys, re, json, time, subprocess, signal, shutil, tempfile, hashlib
from vbuild import VERIF, REPO, BUILD, MPIENV, BuildError

NSHARD = 8


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


FRAME = re.compile(r"^\s*#(\d+) (?:0x[0-9a-f]+ in )?([A-Za-z_][\w.:~<>]*)")


def norm_func(f):
    f = re.sub(r"^_SCOTCH_?|^_SCOTCH", "", f)
    f = re.sub(r"\.(constprop|isra|part|cold)\.\d+", "", f)
    return f


def report_key(text, rc):
    """Stable key (no line numbers, no addresses) for a crash or sanitizer report."""
    lines = text.splitlines()
    kind, at = None, 0
    for i, l in enumerate(lines):
        m = re.search(r"ERROR: (?:Address|Leak|Thread)Sanitizer:? (\S+)", l)
        if m:
            kind, at = "asan:" + m.group(1).rstrip(":"), i
            break
        m = re.search(r"WARNING: ThreadSanitizer: ([\w \-]+)", l)
        if m:
            kind, at = "tsan:" + m.group(1).strip().replace(" ", "-"), i
            break
        m = re.search(r"runtime error: (.*)$", l)
        if m:
            t = m.group(1)
            t = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", t)
            t = t.split(":")[0] if "overflow" in t or "out of bounds" in t else t
            kind, at = "ubsan:" + "-".join(t.split()[:6]), i
            break
        m = re.match(r"==\d+== (Conditional jump or move depends on uninit|Use of uninit|Invalid read|Invalid write|Syscall param \S+ points to uninit|Invalid free|Source and destination overlap)", l)
        if m:
            fr = [norm_func(x) for x in re.findall(r"==\d+==    (?:at|by) 0x[0-9A-F]+: ([A-Za-z_][\w.:~]*)", "\n".join(lines[i:i + 12]))]
            return "valgrind:" + m.group(1).replace(" ", "-") + ":" + "/".join(fr[:2]), "\n".join(lines[i:i + 30])
        m = re.search(r"Assertion `(.*)' failed", l)
        if m:
            kind, at = "assert", i
            break
    fr = []
    if kind:
        for l in lines[at:at + 60]:
            m = FRAME.match(l)
            if m:
                if fr and m.group(1) == "0":
                    break
                f = norm_func(m.group(2))
                if not re.match(r"__(asan|interceptor|ubsan|tsan|sanitizer|lsan)|_(start)$|main$|memcpy|memset|memmove|malloc|free|calloc|realloc|abort|raise|strlen|vfprintf", f):
                    fr.append(f)
        return kind + ":" + "/".join(fr[:2]), "\n".join(lines[at:at + 40])
    return "crash:rc=%s" % rc, "\n".join(lines[-15:])


def killgroup(p):
    try:
        os.killpg(p.pid, signal.SIGTERM)      # lets mpiexec end its processes, which are in other process groups
        try:
            p.wait(timeout=3)
        except subprocess.TimeoutExpired:
            pass
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


class Shard:
    def __init__(self, job, idx, start):
        self.job, self.idx, self.start, self.retry = job, idx, start, 3
        self.launch()

    def launch(self):
        j = self.job
        self.nlaunch = getattr(self, "nlaunch", -1) + 1
        base = os.path.join(j.tmp, "s%d.%d" % (self.idx, self.nlaunch))
        self.out, self.prog, self.errf = base + ".json", base + ".prog", base + ".err"
        tmpd = os.path.join(j.tmp, "t%d" % self.idx)
        os.makedirs(tmpd, exist_ok=True)
        cmd = j.prefix + [j.exe] + ["--seed", str(j.seed), "--from", str(self.start), "--to", str(j.ncases), "--stride", str(j.nshard),
                         "--tier", j.tier, "--out", self.out, "--progress", self.prog, "--tmp", tmpd] + j.args
        self.ef = open(self.errf, "w")
        env = dict(j.env)
        if j.prefix:       # a session directory of its own for every mpiexec: concurrent ones race for the creation of a common one
            sd = os.path.join(j.tmp, "m%d.%d" % (self.idx, self.nlaunch))
            os.makedirs(sd, exist_ok=True)
            env["OMPI_MCA_orte_tmpdir_base"] = sd
        self.p = subprocess.Popen(cmd, stdout=self.ef, stderr=subprocess.STDOUT, env=env, start_new_session=True, cwd=tmpd, stdin=subprocess.DEVNULL)
        self.lastcase, self.lasttime = None, time.time()
        self.done = False

    def case(self):
        try:
            t = open(self.prog).read().strip()
            return t
        except OSError:
            return ""

    def kill(self):
        killgroup(self.p)


class Job:
    """One harness executable over ncases cases."""
    def __init__(self, name, exe, ncases, seed, tier, args=(), env=None, prefix=(), nshard=NSHARD, hang=90, stop_early=True, crash_is_violation=True):
        self.name, self.exe, self.ncases, self.seed, self.tier = name, exe, ncases, seed, tier
        self.args, self.prefix, self.nshard, self.hang = list(args), list(prefix), nshard, hang
        e = dict(os.environ)
        e.update(MPIENV)
        e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:quarantine_size_mb=16:malloc_context_size=8"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1"
        e.setdefault("SCOTCH_PTHREAD_NUMBER", "1")
        e.update(env or {})
        self.env = e
        self.viols = []      # dict(case,key,text)
        self.inconclusive = []
        self.stats = []
        self.stop_early = stop_early

    def rerun_hang(self, case):
        """Run the single case alone with twice the limit; True if it hangs again."""
        cmd = self.prefix + [self.exe, "--seed", str(self.seed), "--from", str(case), "--to", str(int(case) + 1), "--stride", "1", "--tier", self.tier, "--tmp", self.tmp] + self.args
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=self.env, start_new_session=True, cwd=self.tmp, stdin=subprocess.DEVNULL)
        try:
            p.wait(timeout=self.hang * 1.5)
            return False
        except subprocess.TimeoutExpired:
            killgroup(p)
            return True

    def execute(self, prop, known):
        self.tmp = tempfile.mkdtemp(prefix="vrun_%s_" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
        try:
            self._execute(prop, known)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def _collect_viols(self, text):
        for l in text.splitlines():
            if l.startswith("VIOL\t"):
                f = l.split("\t", 3)
                self.viols.append(dict(case=f[1], key=f[2], text=f[3] if len(f) > 3 else ""))

    def unknown(self, prop, known):
        return [v for v in self.viols if not match_known(prop, v, known, self.name)]

    def _execute(self, prop, known):
        shards = [Shard(self, i, i) for i in range(min(self.nshard, self.ncases))]
        live = list(shards)
        seen = {}
        while live:
            time.sleep(0.05)
            for s in list(live):
                rc = s.p.poll()
                c = s.case()
                if rc is None:
                    if c != s.lastcase:
                        s.lastcase, s.lasttime = c, time.time()
                    elif time.time() - s.lasttime > self.hang:
                        s.kill()
                        txt = open(s.errf, errors="replace").read()
                        self._collect_viols(txt)
                        self._stats(s)
                        if c and c != "done":
                            if self.rerun_hang(c):
                                self.viols.append(dict(case=c, key="hang", text="case %s made no progress for %d s, twice" % (c, self.hang)))
                            else:
                                self.inconclusive.append("case %s exceeded the %d s watchdog once" % (c, self.hang))
                            s.start = int(c) + self.nshard
                            s.launch()
                        elif s.retry > 0:
                            s.retry -= 1
                            s.launch()
                        else:
                            self.inconclusive.append("shard %d stalled before its first case" % s.idx)
                            live.remove(s)
                    # early stop when an unknown violation was printed
                    sz = os.path.getsize(s.errf)
                    if self.stop_early and sz != seen.get(s.errf, 0):
                        seen[s.errf] = sz
                        save = self.viols
                        self.viols = []
                        self._collect_viols(open(s.errf, errors="replace").read())
                        unk = self.unknown(prop, known)
                        self.viols = save
                        if unk:
                            for t in live:
                                t.kill()
                                self._collect_viols(open(t.errf, errors="replace").read())
                                self._stats(t)
                            return
                    continue
                s.ef.close()
                txt = open(s.errf, errors="replace").read()
                self._collect_viols(txt)
                self._stats(s)
                if rc == 0 and c == "done":
                    live.remove(s)
                    continue
                if not c and self.prefix and s.retry > 0:      # the launcher failed, not the code under test
                    s.retry -= 1
                    time.sleep(1)
                    s.launch()
                    continue
                if not c or c == "done":
                    if rc == 0 and c == "done":
                        pass
                    else:
                        key, rep = report_key(txt, rc)
                        self.viols.append(dict(case=c or "start", key=key, text=rep)) if c == "done" else self.inconclusive.append("shard %d ended rc=%s before its first case: %s" % (s.idx, rc, txt[-1500:]))
                    live.remove(s)
                    continue
                key, rep = report_key(txt, rc)
                if not (key.startswith("crash:") and any(v["case"] == c for v in self.viols)):     # not when the harness itself stopped after reporting
                    self.viols.append(dict(case=c, key=key, text=rep))
                if self.unknown(prop, known) and self.stop_early:
                    for t in live:
                        if t is not s:
                            t.kill()
                            self._collect_viols(open(t.errf, errors="replace").read())
                            self._stats(t)
                    return
                if s.nlaunch > 60:
                    live.remove(s)
                    self.inconclusive.append("shard %d restarted too often" % s.idx)
                    continue
                s.start = int(c) + self.nshard
                if s.start >= self.ncases:
                    live.remove(s)
                else:
                    s.launch()

    def _stats(self, s):
        try:
            self.stats.append(json.load(open(s.out)))
        except (OSError, ValueError):
            pass


def match_known(prop, v, known, job):
    for k in known:
        if k.get("status") == "known" and k["property"] == prop and k.get("job", job) == job and re.search(k["key"], v["key"]) and re.search(k.get("text", ""), v["text"]):
            return k
    return None


def merge_stats(jobs):
    ev = nt = mon = 0
    feat, sigs, samples = {}, set(), []
    for j in jobs:
        for st in j.stats:
            ev += st["evals"]
            nt += st["nontrivial"]
            mon += st["monitored"]
            for k, c in st["feat"].items():
                feat[k] = feat.get(k, 0) + c
            sigs.update(st["sigs"])
            samples += st["samples"][:2]
    return ev, nt, mon, feat, sigs, samples


def finish(prop, tier, seed, level, jobs, t0, rule, assumptions=(), extra=None, min_feats=(), min_evals=1):
    """Decide, write evidence, print verdict, return exit code."""
    known = load_known()
    ev, nt, mon, feat, sigs, samples = merge_stats(jobs)
    viols, inc = [], []
    for j in jobs:
        for v in j.viols:
            v["job"] = j
            viols.append(v)
        inc += j.inconclusive
    kn, unk = {}, {}
    for v in viols:
        k = match_known(prop, v, known, v["job"].name)
        if k:
            kn.setdefault(k["key"], (k, v))
        else:
            unk.setdefault(v["key"], v)
    rc = 0
    for k, v in kn.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rdir = os.path.join(VERIF, "replays")
    for key, v in unk.items():
        os.makedirs(rdir, exist_ok=True)
        j = v["job"]
        name = "%s-%s-%s.json" % (prop, hashlib.sha1(key.encode()).hexdigest()[:10], v["case"])
        path = os.path.join(rdir, name)
        json.dump(dict(property=prop, key=key, case=v["case"], seed=seed, tier=tier, job=j.name,
                       cmd=j.prefix + [j.exe, "--seed", str(seed), "--tier", tier, "--case", str(v["case"]), "--verbose", "1"] + j.args,
                       env={k: j.env[k] for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS", "SCOTCH_PTHREAD_NUMBER", "NOTHREADS", "LSAN_OPTIONS") if k in j.env}, report=v["text"]), open(path, "w"), indent=1)
        print("%s key=%s case=%s: %s" % (prop, key, v["case"], v["text"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    missing = [f for f in min_feats if feat.get(f, 0) == 0]
    if rc == 0 and (inc or missing or ev < min_evals):
        for i in inc:
            print("INCONCLUSIVE: " + i)
        if missing:
            print("INCONCLUSIVE: monitors never reached: %s" % missing)
        if ev < min_evals:
            print("INCONCLUSIVE: only %d cases evaluated" % ev)
        soft = all("watchdog once" in i for i in inc) and not missing and ev >= min_evals
        if not soft:
            rc = 2
    cov = dict(evaluations=ev, distinct_nontrivial=min(len(sigs), nt) if nt else len(sigs), rule=rule, samples=samples[:8] or ["none"],
               oracle_evaluations=mon, features={k: feat[k] for k in sorted(feat)}, known_findings_seen=[k for k in kn], inconclusive=inc[:5])
    if extra:
        cov.update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(unk)),
              open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d oracle evaluations, %d distinct, %d violation(s), %d known, %.1f s" % (prop, tier, ev, mon, len(sigs), len(unk), len(kn), time.time() - t0))
    return rc
