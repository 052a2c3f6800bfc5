"""Builds instrumented variants of the Scotch library from /repo's working tree, and the harnesses."""
import os, subprocess, sys, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

SAN = "-fsanitize=address,undefined -fno-sanitize=pointer-overflow,nonnull-attribute,object-size,shift-base -fno-sanitize-recover=all -fno-omit-frame-pointer"
# name -> (C flags, link flags, PT?, intsize)
VARIANTS = {
    "asan":    dict(cflags="-O1 -g1 -DSCOTCH_DEBUG_ALL " + SAN, san=SAN, pt=False, intsize=32),
    "asan64":  dict(cflags="-O1 -g1 -DSCOTCH_DEBUG_ALL " + SAN, san=SAN, pt=False, intsize=64),
    "asannd":  dict(cflags="-O1 -g1 " + SAN, san=SAN, pt=False, intsize=32),
    "tsan":    dict(cflags="-O1 -g1 -fsanitize=thread", san="-fsanitize=thread", pt=False, intsize=32),
    "fast":    dict(cflags="-O2 -g1", san="", pt=False, intsize=32),
    "dbg":     dict(cflags="-O2 -g1 -DSCOTCH_DEBUG_ALL", san="", pt=False, intsize=32),
    "fast64":  dict(cflags="-O2 -g1", san="", pt=False, intsize=64),
    "memtr":   dict(cflags="-O1 -g1 -DCOMMON_MEMORY_TRACE -DSCOTCH_DEBUG_ALL", san="", pt=False, intsize=32),
    "ptasan":  dict(cflags="-O1 -g1 -DSCOTCH_DEBUG_ALL -DSCOTCH_COMM_PTOP_RAT=0.9 " + SAN, san=SAN, pt=True, intsize=32),
    "ptfast":  dict(cflags="-O2 -g1 -DSCOTCH_DEBUG_ALL", san="", pt=True, intsize=32),
}

MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
              OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
              OMPI_MCA_pml="ob1", OMPI_MCA_plm="isolated", OMPI_MCA_mpi_yield_when_idle="1")


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(MPIENV)
    e.update(LC_ALL="C", CC="gcc", FC="gfortran")
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


class Variant:
    def __init__(self, name):
        self.name = name
        self.v = VARIANTS[name]
        self.dir = os.path.join(BUILD, name)
        self.inc = os.path.join(self.dir, "src", "include")
        self.lib = os.path.join(self.dir, "lib")
        self.bin = os.path.join(self.dir, "bin")

    def configure(self):
        os.makedirs(self.dir, exist_ok=True)
        stamp = os.path.join(self.dir, "cflags.txt")
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old != self.v["cflags"] or not os.path.exists(os.path.join(self.dir, "build.ninja")):
            open(stamp, "w").write(self.v["cflags"])
            run(["cmake", "-S", REPO, "-B", self.dir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DBUILD_SHARED_LIBS=OFF",
                 "-DENABLE_TESTS=OFF", "-DBUILD_PTSCOTCH=" + ("ON" if self.v["pt"] else "OFF"), "-DINTSIZE=%d" % self.v["intsize"],
                 "-DCMAKE_C_FLAGS=-Wno-error -U_FORTIFY_SOURCE " + self.v["cflags"]])
        for h, t in (("scotchf.h", "library_f.h"), ("ptscotchf.h", "library_pt_f.h")):
            g, s = os.path.join(self.inc, h), os.path.join(REPO, "src/libscotch", t)
            if os.path.exists(g) and os.path.exists(s) and os.path.getmtime(s) > os.path.getmtime(g):
                os.unlink(g)

    def build(self, targets, harnesses=()):
        """targets: ninja targets; harnesses: list of dict(src, out, libs, flags). Returns after everything is linked."""
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, self.name + ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            self.configure()
            run(["ninja", "-C", self.dir, "scotch_h"] + (["ptscotch_h"] if self.v["pt"] else []))
            procs = [("lib", subprocess.Popen(["ninja", "-C", self.dir] + list(targets), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), text=True, errors="replace"))]
            hout = os.path.join(self.dir, "h")
            os.makedirs(hout, exist_ok=True)
            for h in harnesses:
                src = os.path.join(VERIF, "src", h["src"])
                obj = os.path.join(hout, os.path.basename(h["src"]) + h.get("tag", "") + ".o")
                h["obj"] = obj
                cxx = src.endswith(".cpp")
                comp = ("mpicxx" if cxx else "mpicc") if self.v["pt"] else ("g++" if cxx else "gcc")
                cmd = [comp, "-c", "-O1", "-g1", "-w", "-U_FORTIFY_SOURCE"] + (["-std=c++17"] if cxx else []) + self.v["san"].split() + \
                      ["-I" + self.inc, "-I" + os.path.join(VERIF, "src")] + h.get("flags", []) + [src, "-o", obj]
                procs.append((h["src"], subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), text=True, errors="replace")))
            err = ""
            for n, p in procs:
                o, _ = p.communicate()
                if p.returncode != 0:
                    err += "building %s (%s):\n%s\n" % (n, self.name, o[-6000:])
            if err:
                raise BuildError(err)
            for h in harnesses:
                exe = os.path.join(hout, os.path.splitext(os.path.basename(h["src"]))[0] + h.get("tag", ""))
                h["exe"] = exe
                comp = "mpicxx" if self.v["pt"] else "g++"
                libs = h.get("libs", ["scotch"])
                cmd = [comp] + self.v["san"].split() + [h["obj"], "-o", exe, "-L" + self.lib, "-Wl,--start-group"] + ["-l" + l for l in libs] + ["-Wl,--end-group"] + \
                      h.get("ldflags", []) + ["-lz", "-lbz2", "-llzma", "-lm", "-lpthread", "-ldl"]
                run(cmd)
        return self
