#!/usr/bin/env python3
"""Runs one check:  check.py <property id> [quick|thorough]

Builds the harness of the property from /repo's current working tree, runs its
exhaustive exploration, compares what failed with known_findings.json, prints
VIOLATION / KNOWN-FINDING lines and rewrites evidence/<id>.json.
Exit 0: held on everything explored; 1: a violation; 2: the check itself failed.
"""
import fnmatch, glob, hashlib, json, os, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
ENG = os.path.join(HERE, "engine")
sys.path.insert(0, HERE)
from checks import CHECKS

ENV = dict(os.environ, LC_ALL="C", LANG="C", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR="/tmp")
for k in ("CXXFLAGS", "LDFLAGS", "MAKEFLAGS"):
    ENV.pop(k, None)
DEFS = ["-DTEMPEST_MPIOMP", "-DTEMPEST_NETCDF", "-DTEMPEST_LAPACK_FORTRAN_INTERFACE"]
BASE = ["g++", "-O2", "-g0", "-w", "-fPIC", "-Wno-literal-suffix"]


class BuildError(Exception):
    pass


def sh(cmd, what):
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise BuildError(what + "\n" + " ".join(cmd) + "\n" + r.stdout[-4000:])


def digest(paths, extra=""):
    h = hashlib.sha1(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha1(f.read()).digest())
    return h.hexdigest()[:20]


def repo_headers(extra_dirs=()):
    out = []
    for d in ["src/base", "src/atm", *extra_dirs]:
        out += glob.glob(os.path.join(REPO, d, "*.h"))
    return out


def build(spec):
    """Returns the path of the harness executable."""
    os.makedirs(BUILD, exist_ok=True)
    flags = spec.get("flags", [])
    inc = ["-I" + os.path.join(ENG, "include"), "-I" + os.path.join(REPO, "src/base"), "-I" + os.path.join(REPO, "src/atm")]
    eng_h = glob.glob(os.path.join(ENG, "include", "*.h")) + glob.glob(os.path.join(HERE, "harness", "*.h"))
    hdr = repo_headers()
    srcs = []
    for pat in spec.get("repo", ["src/base/*.cpp", "src/atm/*.cpp"]):
        found = sorted(glob.glob(os.path.join(REPO, pat)))
        srcs += [f for f in found if f not in srcs]
    hd = digest(hdr + eng_h, " ".join(flags))
    jobs, objs = [], []
    mark = ".tmp%d.%d" % (os.getpid(), threading.get_ident())

    def obj(src, cmd, key):
        o = os.path.join(BUILD, os.path.basename(src) + "." + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((cmd + ["-c", src, "-o", o + mark], o))

    for s in srcs:
        obj(s, BASE + ["-std=c++11"] + flags + DEFS + inc, digest([s], hd))
    har = [os.path.join(HERE, "harness", h) for h in spec["harness"]]
    incs = glob.glob(os.path.join(HERE, "harness", "*.inc"))
    for h in har:
        test_h = []
        for d in spec.get("test_inc", []):
            test_h += glob.glob(os.path.join(REPO, d, "*"))
        test_h = [t for t in test_h if os.path.isfile(t)]
        obj(h, BASE + ["-std=gnu++17", "-fno-access-control"] + flags + DEFS + inc
            + ["-I" + os.path.join(HERE, "harness"), "-DREPO_DIR=\"%s\"" % REPO]
            + ["-I" + os.path.join(REPO, d) for d in spec.get("test_inc", [])],
            digest([h] + incs + test_h, hd))
    obj(os.path.join(ENG, "vh.cpp"), BASE + ["-std=gnu++17"] + flags + DEFS + inc, digest([os.path.join(ENG, "vh.cpp")], hd))
    so_src = os.path.join(ENG, "vmpi.cpp")
    so = os.path.join(BUILD, "libvmpi.%s.so" % digest([so_src] + glob.glob(os.path.join(ENG, "include", "*.h"))))
    so_tmp = so + mark
    extra = []
    for c in spec.get("extra_objs", []):      # (source, compiler prefix, extra flags)
        src = os.path.join(REPO, c[0])
        o = os.path.join(BUILD, os.path.basename(src) + "." + digest([src], " ".join(c[1])) + ".o")
        extra.append(o)
        if not os.path.exists(o):
            jobs.append((c[1] + [src, "-o", o + mark, "-c"], o))

    def one(j):
        sh(j[0], "compiling for the check failed")
        os.replace(j[1] + mark, j[1])

    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(one, j) for j in jobs]
        if not os.path.exists(so):
            sh(["g++", "-std=gnu++17", "-O2", "-g0", "-fPIC", "-shared", "-I" + os.path.join(ENG, "include"), so_src, "-o", so_tmp], "building the scheduler failed")
            os.replace(so_tmp, so)
        for f in fs:
            f.result()
    exe = os.path.join(BUILD, spec["harness"][0].replace(".cpp", "") + "." + digest(objs + extra, so))
    if not os.path.exists(exe):
        tmp = exe + mark
        sh(["g++"] + flags + objs + extra + [so, "-Wl,-rpath," + BUILD, "-lnetcdf", "-llapack", "-lblas", "-lgfortran", "-lpthread", "-o", tmp] + spec.get("libs", []), "linking the harness failed")
        os.replace(tmp, exe)
    return exe


def explore(exe, res_path, seed, args, cwd):
    if os.path.exists(res_path):
        os.remove(res_path)
    r = subprocess.run([exe, "--out", res_path, "--seed", str(seed)] + args, env=ENV, cwd=cwd)
    if r.returncode or not os.path.exists(res_path):
        return None
    return json.load(open(res_path))


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    outdir = os.path.join(HERE, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        parts = spec.get("parts", []) + (spec.get("parts_thorough", []) if tier == "thorough" else [])
        exes = [(pid, build(spec))]
        if parts:
            subs = [dict(CHECKS[p], flags=CHECKS[p].get("flags", []) + spec.get("flags", [])) for p in parts]
            with ThreadPoolExecutor(4) as ex:
                exes += list(zip(parts, ex.map(build, subs)))
    except BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (pid, e))
        return 2
    tb = time.time() - t0
    res = None
    for name, exe in exes:
        one = explore(exe, os.path.join(outdir, pid + ("" if name == pid else "-" + name) + ".json"), seed,
                      (["--thorough"] if tier == "thorough" and name == pid else []) + spec.get("args", []), outdir)
        if one is None:
            print("ERROR property=%s: the explorer %s ended without a result" % (pid, os.path.basename(exe)))
            return 2
        for v in one["violations"]:
            v["exe"] = exe
            if name != pid:
                v["key"] = name + " " + v["key"]
        if res is None:
            res = one
        else:
            for k, n in one["counts"].items():
                res["counts"][k] = res["counts"].get(k, 0) + n
            for k in ("violations", "errors", "unreproduced", "capped"):
                res[k] += one[k]
            for k in ("runs", "choice_points"):
                res[k] += one[k]
            res["budget_hit"] = res["budget_hit"] or one["budget_hit"]
            res["samples"] = (res["samples"] + ["%s under %s" % (x, name) for x in one["samples"][:1]])[:24]
            res["outcomes"].update({name + " " + k: v for k, v in one["outcomes"].items()})
    kf = [k for k in known() if k["property"] == pid and k.get("status", "open") == "open"]
    new, hit = [], {}
    for v in res["violations"]:
        m = [k for k in kf if any(fnmatch.fnmatchcase(v["key"], p) for p in k["keys"])]
        if m:
            hit.setdefault(m[0]["id"], []).append(v)
        else:
            new.append(v)
    for k in kf:
        if k["id"] in hit:
            print("KNOWN-FINDING: property=%s %s [%d case(s)]" % (pid, k["what"], len(hit[k["id"]])))
    for i, v in enumerate(new):
        rp = os.path.join(outdir, "replay-%s-%d.sh" % (pid, i))
        with open(rp, "w") as f:
            f.write("#!/bin/sh\n# %s\n# %s\nexec %s --only '%s' --prefix '%s' %s%s-v -j 1\n" % (
                v["key"], v["detail"].replace("\n", " "), v["exe"], v["job"], v["prefix"],
                "--thorough " if tier == "thorough" and v["exe"] == exes[0][1] else "", "".join(a + " " for a in spec.get("args", []))))
        os.chmod(rp, 0o755)
        if i < 20:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  case: %s\n  %s" % (v["key"], v["detail"][:600]))
    c = dict(res["counts"])
    cov = {"rule": spec["rule"], "samples": res["samples"] or ["(none)"]}
    if spec["level"] == "model_checking":
        cov["states"] = c.pop("states", 0)
        cov["transitions"] = c.pop("transitions", 0)
        cov["traces_validated_against_impl"] = c.pop("traces", 0)
    else:
        cov["evaluations"] = c.pop("evaluations", res["runs"])
        cov["distinct_nontrivial"] = c.pop("distinct_nontrivial", 0)
    cov["exhaustive"] = not res["budget_hit"] and not res["capped"]
    cov["executions_forked"] = res["runs"]
    cov["choice_points_met"] = res["choice_points"]
    cov["deviation_bound_completed"] = res["max_deviations"]
    cov["capped_explorations"] = res["capped"]
    cov["counts"] = c
    cov["distinct_outcomes"] = res["outcomes"]
    cov["known_findings_hit"] = {k: len(v) for k, v in hit.items()}
    cov["build_s"] = round(tb, 1)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    print("%s %s: %d case(s), %d run(s), %d new violation(s), %d known, %.1f s (build %.1f s)" % (
        pid, tier, cov.get("evaluations", cov.get("states", 0)), res["runs"], len(new), len(hit), time.time() - t0, tb))
    if new:
        return 1
    if res["errors"] or res["unreproduced"]:
        for e in res["errors"] + res["unreproduced"]:
            print("ENGINE: " + e)
        return 2
    want = spec.get("min_evaluations", 1)
    if cov.get("evaluations", cov.get("states", 0)) < want:
        print("ERROR: vacuous exploration: %s" % cov.get("evaluations"))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
