#!/usr/bin/env python3
"""Decide one property by generated-input search.

  check.py ID [--tier quick|thorough]      build the harness of property ID from /repo's working
                                           tree, search, write evidence/ID.json
  check.py ID --replay FILE                run one recorded failure again

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: no answer (harness does not build, tool missing, out of memory, ...).
"""
import argparse, concurrent.futures as cf, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BB_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from properties_config import CONFIG  # noqa: E402

JOBS = os.cpu_count() or 4

COMMON = ["-std=c++17", "-ftemplate-depth=10000", "-w", "-mavx", "-mfma",
          "-DBLASBOOSTER_USE_TRACKER", "-DWITH_OPENBLAS", "-DWITH_EIGEN", "-DUSE_BOOST"]
VARIANTS = {
    # instrumented build: memory errors, undefined behaviour and failed assertions are failures
    "san": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
            "-fno-omit-frame-pointer"],
    # the way the repository's Release build compiles its code
    "rel": ["-O2", "-DNDEBUG", "-funroll-loops", "-ffast-math"],
    # two threads which access the same memory without order are a failure
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LC_ALL="C.UTF-8",
           ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1"
                        ":detect_stack_use_after_return=0:symbolize=1",
           UBSAN_OPTIONS="print_stacktrace=0:exitcode=98",
           TSAN_OPTIONS="halt_on_error=1:exitcode=97:report_signal_unsafe=0:die_after_fork=0")


def say(*a):
    print(*a, flush=True)


def no_answer(msg):
    say("NO ANSWER: " + msg)
    sys.exit(2)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fd:
                h.update(fd.read())
    return h.hexdigest()


def compile_one(cmd):
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    return cmd, r.returncode, r.stdout, time.time() - t


def build(prop, cfg, work):
    """returns {(unit, variant): binary}"""
    gen = os.path.join(work, "gen")
    os.makedirs(gen, exist_ok=True)
    inc = ["-I", os.path.join(VERIF, "lib"), "-I", gen, "-I", os.path.join(VERIF, "stubs"),
           "-I", os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3"]
    jobs, bins = {}, {}
    cache = os.environ.get("VERIF_CACHE")
    if cache:
        key0 = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src"),
                          os.path.join(VERIF, "lib"), os.path.join(VERIF, "stubs")] +
                         sorted(os.path.join(VERIF, "harness", f) for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".h")))
    for unit in cfg["units"]:
        for variant in unit.get("variants", ["san", "rel"]):
            cxx = unit.get("cxx", "g++")
            flags = COMMON + VARIANTS[variant] + unit.get("flags", [])
            objs = []
            srcs = [os.path.join(VERIF, "harness", unit["src"])] + \
                   [os.path.join(VERIF, s) for s in unit.get("extra", [])] + \
                   [os.path.join(REPO, s) for s in unit.get("repo", [])]
            for s in srcs:
                key = hashlib.sha256((s + variant + " ".join(flags)).encode()).hexdigest()[:16]
                obj = os.path.join(work, key + ".o")
                if cache:
                    k = hashlib.sha256((key0 + tree_hash([s]) + cxx + " ".join(flags) + open(s).read()).encode()).hexdigest()
                    obj = os.path.join(cache, k + ".o")
                objs.append(obj)
                if not os.path.exists(obj):
                    jobs[obj] = [cxx] + flags + inc + ["-c", s, "-o", obj + ".tmp"]
            exe = os.path.join(work, unit["name"] + "." + variant)
            bins[(unit["name"], variant)] = (exe, [cxx] + VARIANTS[variant] + objs + ["-o", exe] +
                                            unit.get("libs", []) + ["-lpthread"])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for obj, (cmd, rc, text, dt) in zip(jobs, ex.map(compile_one, jobs.values())):
            if os.environ.get("VERIF_VERBOSE"):
                say("compiled %s in %.1fs" % (os.path.basename([a for a in cmd if a.endswith(".cpp")][0]), dt))
            if rc:
                say(text[-6000:])
                no_answer("%s does not compile against this tree" % [a for a in cmd if a.endswith(".cpp")][0])
            os.rename(obj + ".tmp", obj)
        for cmd, rc, text, dt in ex.map(compile_one, [b[1] for b in bins.values()]):
            if rc:
                say(text[-4000:])
                no_answer("link failed")
    return {k: v[0] for k, v in bins.items()}


def fixed_addresses():
    """the thread sanitizer of this compiler doesn't like far away addresses, which some kernels choose"""
    cmd = ["setarch", "-R"]
    try:
        return cmd if subprocess.run(cmd + ["true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 else []
    except OSError:
        return []


def run_bin(exe, args, scratch, stdin="", timeout=None):
    os.makedirs(scratch, exist_ok=True)
    front = fixed_addresses() if exe.endswith(".tsan") else []
    return subprocess.run(front + [exe] + args + ["--scratch", scratch], input=stdin, env=ENV, cwd=scratch,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


def replay(exe, law, choices, scratch):
    r = run_bin(exe, ["replay", "--law", law], scratch, " ".join(map(str, choices)))
    try:
        return json.loads(r.stdout)
    except ValueError:
        return {"ok": True, "broken": True, "msg": r.stderr[-500:], "desc": ""}


def replay_chunk(exe, f, scratch, total):
    out = os.path.join(scratch, "chunk.json")
    count = (f["case"] - f["first"]) // f["nshards"] + 1
    run_bin(exe, ["run", "--law", f["law"], "--seed", str(f["seed"]), "--first", str(f["first"]),
                  "--count", str(count), "--nshards", str(f["nshards"]), "--cases", str(total),
                  "--shrink-time", "1", "--out", out], scratch)
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        return False
    return r["failed"]


def known_list(prop):
    """known-findings.txt: 'open: property=ID key=KEY ...' / 'fixed: property=ID commit ...'"""
    keys = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split()
            if line.startswith("open:") and "property=" + prop in w:
                key = [x[4:] for x in w if x.startswith("key=")][0]
                keys[key] = line.split("key=" + key, 1)[1].strip()
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0, help="multiply the number of cases")
    a = ap.parse_args()
    prop, cfg = a.property, CONFIG[a.property]
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    if os.environ.get("VERIF_CACHE"):
        os.makedirs(os.environ["VERIF_CACHE"], exist_ok=True)
    work = tempfile.mkdtemp(prefix="bbverif.%s." % prop)
    try:
        return decide(prop, cfg, tier, a, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, cfg, tier, a, work, t0):
    prepare = cfg.get("prepare")
    if prepare:
        os.makedirs(os.path.join(work, "gen"), exist_ok=True)
        prepare(REPO, VERIF, os.path.join(work, "gen"))
    bins = build(prop, cfg, work)
    t_build = time.time() - t0

    if a.replay:
        f = json.load(open(a.replay))
        exe = bins[(f["unit"], f["variant"])]
        sc = os.path.join(work, "sc")
        if f.get("chunk"):
            bad = replay_chunk(exe, f["chunk"], sc, f["total"]) if os.makedirs(sc, exist_ok=True) is None else False
            say("reproduced" if bad else "not reproduced")
        else:
            o = replay(exe, f["law"], f["choices"], sc)
            bad = not o["ok"]
            say(o["desc"])
            say(o["msg"] if bad else "the property holds on this input")
        if bad:
            say("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0

    known = known_list(prop)
    found_known = []
    violations = []
    laws, hashes, broken, out_of_time = {}, set(), [], False

    # the inputs of recorded findings
    for (unit, variant), exe in bins.items():
        if not known:
            break
        r = run_bin(exe, ["known"], os.path.join(work, "k"))
        try:
            res = json.loads(r.stdout)
        except ValueError:
            res = {}
        for key, v in res.items():
            if v["fails"] and key in known and key not in found_known:
                found_known.append(key)
                say("KNOWN-FINDING: property=%s %s" % (prop, known[key]))

    t = cfg[tier]
    runs = []
    n = max(1, len(bins))
    keys = sorted(bins)
    shards = {}
    for i, k in enumerate(keys):
        shards[k] = max(1, JOBS // n + (1 if i < JOBS % n else 0))
    for k in keys:
        unit = [u for u in cfg["units"] if u["name"] == k[0]][0]
        cases = int(t["cases"] * unit.get("weight", 1.0) * a.scale)
        for s in range(shards[k]):
            runs.append((k, s, shards[k], cases))

    def one(run):
        (unit, variant), s, ns, cases = run
        tag = "%s.%s.%d" % (unit, variant, s)
        sc = os.path.join(work, "sc." + tag)
        os.makedirs(sc, exist_ok=True)
        out, hs = os.path.join(work, tag + ".json"), os.path.join(work, tag + ".h")
        seed = a.seed + {"san": 0, "rel": 1000003, "tsan": 2000003}[variant]
        r = run_bin(bins[(unit, variant)],
                    ["run", "--seed", str(seed), "--cases", str(cases), "--shard", str(s), "--nshards", str(ns),
                     "--time", str(t["time"]), "--shrink-time", "30", "--out", out, "--hashes", hs], sc)
        try:
            res = json.load(open(out))
        except (OSError, ValueError):
            res = {"failed": False, "broken": True, "laws": {}, "out_of_time": False, "err": r.stderr[-400:]}
        return run, res, hs

    with cf.ThreadPoolExecutor(max(JOBS, len(runs))) as ex:
        results = list(ex.map(one, runs))
    total_cases = total_nt = 0
    seen = set()
    for (k, s, ns, cases), res, hs in results:
        unit, variant = k
        out_of_time |= res.get("out_of_time", False)
        if res.get("broken"):
            broken.append("%s.%s shard %d %s" % (unit, variant, s, res.get("err", "")))
        for name, st in res["laws"].items():
            d = laws.setdefault(name, {"cases": 0, "nontrivial": 0, "classes": {}, "samples": []})
            d["cases"] += st["cases"]
            d["nontrivial"] += st["nontrivial"]
            total_cases += st["cases"]
            total_nt += st["nontrivial"]
            for g, c in st["tags"].items():
                d["classes"][g] = d["classes"].get(g, 0) + c
            if len(d["samples"]) < 2:
                d["samples"] += st["samples"][:1]
        if os.path.exists(hs):
            import array
            arr = array.array("Q")
            with open(hs, "rb") as fd:
                arr.frombytes(fd.read())
            hashes.update(arr)
        if res["failed"] and (unit, res["law"]) not in seen:
            exe = bins[k]
            sc = os.path.join(work, "rp")
            os.makedirs(sc, exist_ok=True)
            rec = {"property": prop, "unit": unit, "variant": variant, "law": res["law"], "seed": a.seed,
                   "choices": res["choices"], "message": res["msg"], "input": res["desc"], "total": cases,
                   "replay_with": "python3 /verif/bin/check.py %s --replay <this file>" % prop}
            if res["msg"].startswith("UNREPRODUCED"):
                rec["chunk"] = {x: res[x] for x in ("law", "seed", "first", "case", "nshards")}
                ok = all(replay_chunk(exe, rec["chunk"], sc, cases) for _ in range(3))
            else:
                ok = all(not replay(exe, res["law"], res["choices"], sc)["ok"] for _ in range(3))
            if not ok:
                say("not reproducible, not reported: %s %s" % (res["law"], res["msg"]))
                continue
            seen.add((unit, res["law"]))
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            h = hashlib.sha256(json.dumps([unit, res["law"], res["choices"]]).encode()).hexdigest()[:12]
            path = os.path.join(rdir, "%s-%s.json" % (prop, h))
            with open(path, "w") as fd:
                json.dump(rec, fd, indent=1)
            violations.append(path)
            say("--- %s: law '%s' (%s build) fails" % (prop, res["law"], variant))
            say("input: " + (res["desc"] or "(fixed)"))
            say("reason: " + res["msg"])
            say("VIOLATION property=%s replay=%s" % (prop, path))

    samples = []
    for name in sorted(laws):
        for smp in laws[name]["samples"][:1]:
            samples.append({"law": name, "input": smp})
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": cfg["level"],
        "coverage": {
            "evaluations": total_cases,
            "distinct_nontrivial": len(hashes),
            "rule": cfg["rule"],
            "samples": samples[:40] or [{"note": "none"}],
            "nontrivial_evaluations": total_nt,
            "per_law": {k: {"cases": v["cases"], "nontrivial": v["nontrivial"], "classes": v["classes"]}
                        for k, v in sorted(laws.items())},
            "builds": ["%s (%s)" % k for k in sorted(bins)],
            "stopped_by_time_cap": out_of_time,
        },
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(t_build, 2),
        "assumptions": cfg.get("assumptions", []),
        "violations": len(violations),
        "violation_replays": violations,
        "known_findings_seen": found_known,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fd:
        json.dump(ev, fd, indent=1)
    say("%s %s: %d cases, %d distinct non-trivial, %d laws, build %.0fs, total %.0fs%s" % (
        prop, tier, total_cases, len(hashes), len(laws), t_build, time.time() - t0,
        ", time cap reached" if out_of_time else ""))
    if violations:
        return 1
    if broken:
        no_answer("; ".join(broken))
    if total_cases == 0:
        no_answer("nothing was run")
    return 0


if __name__ == "__main__":
    sys.exit(main())
