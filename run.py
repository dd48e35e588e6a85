#!/usr/bin/env python3
"""Check runner: run.py PROPERTY [quick|thorough] | run.py --replay FILE | run.py --all [tier]

Builds the property's harness programs from /repo's current headers, runs them with VERIF_SEED, merges the results,
writes evidence/<id>.json and exits 0 (held), 1 (VIOLATION line printed) or 2 (error)."""
import json, os, subprocess, sys, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, "replays")
SAN = ["-fsanitize=address,signed-integer-overflow,bounds,integer-divide-by-zero,shift,unreachable,return,null",
       "-fno-sanitize-recover=all"]
COMMON = ["-std=c++20", "-w", "-g0", "-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/include", "-I" + HERE + "/harness"]
NCPU = os.cpu_count() or 4

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa


def compile_one(src, defs, out, extra, gcc=False):
    """clang++ compiles these programs about twice as fast; g++ (the compiler the project's own build uses here) is
    the fallback, so that code only one of the two accepts is still checked."""
    t0 = time.time()
    opt = [] if any(f.startswith("-O") for f in extra) else ["-O0"]
    err = ""
    clang = ["clang++", "-fbracket-depth=2048"]
    for cxx in ([["g++"]] if gcc else [clang, ["g++"]]):
        cmd = cxx + SAN + COMMON + opt + extra + ["-D" + d for d in defs] + [os.path.join(HERE, "harness", src), "-o", out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode == 0:
            return 0, "", time.time() - t0
        err += r.stderr[:4000]
    return 1, err, time.time() - t0


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    try:
        return [k for k in json.load(open(path)) if k.get("property") == prop and k.get("status") == "known"]
    except FileNotFoundError:
        return []


def run(prop, tier):
    cfg = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    bdir = os.path.join(BUILD, prop)
    rdir = os.path.join(REPLAYS, prop)
    for d in (bdir, rdir):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    units = cfg["units"]
    jobs = max(1, -(-NCPU // max(1, len(units))))
    if len(units) > NCPU:
        jobs = 1
    budget = cfg["time"][tier]
    results, errors = {}, []

    def build(i):
        u = units[i]
        out = os.path.join(bdir, "u%d" % i)
        rc, err, secs = compile_one(u["src"], u.get("defs", []), out, u.get("flags", []), u.get("gcc", False))
        if rc != 0:
            errors.append("compile of %s %s failed:\n%s" % (u["src"], u.get("defs", []), err[-6000:]))
            return None
        return secs

    with ThreadPoolExecutor(NCPU) as ex:
        comp = list(ex.map(build, range(len(units))))
    t_compile = time.time() - t0
    if errors:
        for e in errors[:3]:
            lines = [l for l in e.splitlines() if "error" in l][:6]
            print("ERROR:", e.splitlines()[0], *["\n   " + l[:400] for l in lines], file=sys.stderr)

    def go(i):
        if comp[i] is None:
            return None
        u = units[i]
        out = os.path.join(bdir, "u%d" % i)
        js = out + ".json"
        rd = os.path.join(rdir, "u%d" % i)
        os.makedirs(rd, exist_ok=True)
        cases = int(u.get("cases", cfg.get("cases", 2000)) * (cfg.get("thorough_factor", 40) if tier == "thorough" else 1))
        cmd = [out, "--seed", str(seed), "--cases", str(cases), "--time", str(budget), "--jobs", str(jobs),
               "--out", js, "--replay-dir", rd]
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=870)
        if not os.path.exists(js):
            errors.append("unit %d (%s) produced no result: rc=%s %s" % (i, u["src"], p.returncode, p.stderr[-2000:]))
            return None
        return json.load(open(js))

    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(go, range(len(units))))

    agg = dict(evaluations=0, nontrivial=0, distinct_nontrivial=0, checks=0)
    labels, targets, samples, viols, flaky = {}, {}, [], [], 0
    for i, r in enumerate(res):
        if r is None:
            continue
        for k in agg:
            agg[k] += r[k]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["targets"].items():
            targets[k] = targets.get(k, 0) + v
        samples += r["samples"][:4]
        flaky += r["flaky"]
        for v in r["violations"]:
            v["unit"] = i
            viols.append(v)
    # replay headers: which program replays it
    for v in viols:
        u = units[v["unit"]]
        with open(v["replay"], "a") as f:
            f.write("property: %s\nunit: %d\nprogram: %s %s\nhow: python3 %s/run.py --replay %s\n" %
                    (prop, v["unit"], u["src"], " ".join(u.get("defs", [])), HERE, v["replay"]))
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=agg["evaluations"], distinct_nontrivial=agg["distinct_nontrivial"],
                            nontrivial_evaluations=agg["nontrivial"], oracle_comparisons=agg["checks"],
                            rule=cfg["rule"], samples=samples[:12], classes=dict(sorted(labels.items())),
                            per_target=dict(sorted(targets.items())), programs=len(units), compile_s=round(t_compile, 1)),
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for v in viols[:8]:
        print("  %s: %s" % (v["target"], v["message"].splitlines()[0] if v["message"] else ""))
        print("    input: %s" % v["input"][:400])
    for v in viols:
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    shutil.rmtree(bdir, ignore_errors=True)
    print("%s %s: %d cases, %d distinct non-trivial, %d comparisons, %d violations, %.1fs (compile %.1fs)" %
          (prop, tier, agg["evaluations"], agg["distinct_nontrivial"], agg["checks"], len(viols), time.time() - t0, t_compile))
    if viols:
        return 1
    if errors or flaky:
        for e in errors:
            print("ERROR:", e[:200])
        if flaky:
            print("ERROR: %d failures could not be reproduced" % flaky)
        return 2
    return 0


def replay(path):
    kv = {}
    for line in open(path, errors="replace"):
        if ": " in line:
            k, v = line.rstrip("\n").split(": ", 1)
            kv[k] = v
    prop, unit = kv["property"], int(kv["unit"])
    u = CHECKS[prop]["units"][unit]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "replay_%d" % os.getpid())
    rc, err, _ = compile_one(u["src"], u.get("defs", []), out, u.get("flags", []), u.get("gcc", False))
    if rc:
        print(err)
        return 2
    r = subprocess.run([out, "--replay", path])
    os.unlink(out)
    return r.returncode


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    tier = (a[1] if len(a) > 1 else None) or os.environ.get("VERIF_TIER") or "quick"
    if a[0] == "--all":
        bad = 0
        for p in CHECKS:
            bad |= run(p, tier) != 0
        sys.exit(bad)
    sys.exit(run(a[0], tier))
