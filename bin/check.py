#!/usr/bin/env python3
"""Run the model-checking drivers of one property against /repo's current working tree.

usage: check.py <property> [--tier quick|thorough] [--replay FILE] [--budget S]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not run.
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "checks"))
import registry  # noqa: E402

BUILD = os.path.join(VERIF, ".build")
DEFS = ["-DBOOST_ERROR_CODE_HEADER_ONLY", "-DBOOST_ASIO_HAS_HAS_STD_CHRONO", "-DFAIRMQ_HAS_STD_FILESYSTEM=1",
        "-DFAIRMQ_HAS_STD_PMR=1", "-DFAIRMQ_TEST_ENVIRONMENT=1"]
INC = ["-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "drivers"), "-I" + os.path.join(VERIF, "stub"),
       "-I" + os.path.join(REPO, "fairmq"), "-I" + REPO]
BASE = ["clang++", "-std=c++17", "-g1", "-w", "-fno-omit-frame-pointer"]
MODES = {
    # code instrumented through the __tsan_* ABI, implemented by the engine
    "mc": {"cxx": ["-O1", "-fsanitize=thread"], "eng": ["-O1", "-fno-threadsafe-statics"], "ld": ["-no-pie", "-rdynamic"]},
    # controlled scheduler at pthread operations only
    "sched": {"cxx": ["-O1"], "eng": ["-O1", "-fno-threadsafe-statics"], "ld": ["-no-pie", "-rdynamic"]},
    # sequential: no interposition, sanitizers find memory errors
    "asan": {"cxx": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,alignment,null,nonnull-attribute", "-DMC_SEQ"], "eng": ["-O1", "-DMC_SEQ", "-fsanitize=address"],
             "ld": ["-no-pie", "-rdynamic", "-fsanitize=address,undefined"]},
    "seq": {"cxx": ["-O1", "-DMC_SEQ"], "eng": ["-O1", "-DMC_SEQ"], "ld": ["-no-pie", "-rdynamic"]},
}


def fhash(path, cache={}):
    if path not in cache:
        try:
            with open(path, "rb") as f:
                cache[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            cache[path] = "-"
    return cache[path]


def compile_one(src, flags):
    """object file for src; reused only if the command and every file it read are unchanged"""
    cmd = BASE + flags + DEFS + INC
    key = hashlib.sha256(("\0".join(cmd) + "\0" + src).encode()).hexdigest()[:24]
    obj = os.path.join(BUILD, key + ".o")
    meta = os.path.join(BUILD, key + ".json")
    try:
        m = json.load(open(meta))
        if os.path.exists(obj) and all(fhash(p) == h for p, h in m.items()):
            return obj, None
    except (OSError, ValueError):
        pass
    dep = os.path.join(BUILD, key + ".%d.d" % os.getpid())
    tmp = os.path.join(BUILD, key + ".%d.o" % os.getpid())
    p = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, p.stdout
    text = open(dep).read().replace("\\\n", " ")
    files = [f for f in text.split(":", 1)[1].split() if not f.startswith("/usr/")]
    os.replace(tmp, obj)
    os.unlink(dep)
    json.dump({f: fhash(f) for f in files}, open(meta, "w"))
    return obj, None


def resolve(src):
    if src.startswith("repo:"):
        return os.path.join(REPO, "fairmq", src[5:])
    return os.path.join(VERIF, src)


def build(prop, drivers):
    os.makedirs(BUILD, exist_ok=True)
    jobs, plan = {}, []
    for d in drivers:
        mode = MODES[d.get("mode", "mc")]
        extra = d.get("flags", [])
        objs = []
        srcs = [(resolve(s), mode["cxx"] + extra) for s in d["src"]] + [(os.path.join(VERIF, "engine/mc.cc"), mode["eng"])]
        for s in d.get("src_plain", []):       # compiled without instrumentation
            srcs.append((resolve(s), ["-O1"] + extra + (["-DMC_SEQ"] if "-DMC_SEQ" in mode["cxx"] else [])))
        for s, fl in srcs:
            jobs[(s, tuple(fl))] = None
            objs.append((s, tuple(fl)))
        plan.append((d, objs, mode))
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = {ex.submit(compile_one, s, list(fl)): (s, fl) for s, fl in sorted(jobs, key=lambda j: -registry.COST.get(os.path.basename(j[0]), 1))}
        for f in concurrent.futures.as_completed(futs):
            obj, err = f.result()
            if err is not None:
                print("check %s: cannot compile %s\n%s" % (prop, futs[f][0], err[-6000:]))
                sys.exit(2)
            jobs[futs[f]] = obj
    bins = []
    for d, objs, mode in plan:
        out = os.path.join(BUILD, "%s-%s" % (prop, d["name"]))
        tmp = out + ".%d" % os.getpid()
        cmd = ["clang++"] + mode["ld"] + [jobs[o] for o in objs] + ["-o", tmp] + d.get("libs", []) + ["-lpthread", "-ldl", "-lrt"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print("check %s: cannot link %s\n%s" % (prop, d["name"], p.stdout[-6000:]))
            sys.exit(2)
        os.replace(tmp, out)
        bins.append((d, out))
    return bins


def known_findings(prop):
    res = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
            m = re.match(r"known: property=(\S+) scenario=(\S+) match=<<(.*?)>> (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append(m.groups()[1:])
    except OSError:
        pass
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--scenario")
    ap.add_argument("--driver")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    a = ap.parse_args()
    prop = a.property
    spec = registry.CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    drivers = [d for d in spec["drivers"] if not a.driver or d["name"] == a.driver]
    bins = build(prop, drivers)
    t_build = time.time() - t0
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    if a.replay:
        text = open(a.replay).read()
        for d, b in bins:
            lst = subprocess.run([b, "--list"], env=env, stdout=subprocess.PIPE, text=True).stdout
            names = [l.split("\t")[0] for l in lst.splitlines()]
            m = re.search(r'"scenario": "([^"]+)"', text)
            if m and m.group(1) in names:
                r = subprocess.run([b, "--replay", a.replay, "--trace"], env=env).returncode
                if r == 1:
                    print("VIOLATION property=%s replay=%s" % (prop, a.replay))
                sys.exit(1 if r == 1 else (0 if r == 0 else 2))
        print("no driver has the scenario of this replay")
        sys.exit(2)
    budget = a.budget or (spec.get("budget_quick", 16) if tier == "quick" else spec.get("budget_thorough", 420))
    known = known_findings(prop)
    wsum = sum(d.get("weight", 1.0) for d in drivers)
    scen, viol, rc = [], [], 0
    used = 0.0
    for d, b in bins:
        share = max(1.0, (budget - used) * d.get("weight", 1.0) / wsum)
        wsum -= d.get("weight", 1.0)
        out = b + ".out.%d.json" % os.getpid()
        cmd = [b, "--out", out, "--budget", "%.1f" % share, "--seed", str(seed), "--replay-dir", replays, "--property", prop, "--jobs", str(a.jobs)]
        if tier == "thorough":
            cmd.append("--thorough")
        if a.scenario:
            cmd += ["--scenario", a.scenario]
        for sc, match, _ in known:
            cmd += ["--known", sc, match]
        ts = time.time()
        scratch = "/tmp/verif-mc-%d" % os.getpid()
        env["MC_SCRATCH"] = scratch
        os.makedirs(scratch, exist_ok=True)
        try:
            p = subprocess.run(cmd, env=env, timeout=share * 1.6 + 150)
            code = p.returncode
        except subprocess.TimeoutExpired:
            code = -1
        shutil.rmtree(scratch, ignore_errors=True)
        used += time.time() - ts
        try:
            res = json.load(open(out))
            os.unlink(out)
        except (OSError, ValueError):
            print("check %s: driver %s gave no result (status %s)" % (prop, d["name"], code))
            sys.exit(2)
        for s in res["scenarios"]:
            s["driver"] = d["name"]
            scen.append(s)
            for v in s["violations"]:
                if not v["known"]:
                    viol.append((s, v))
        if viol:
            break
    # nothing explored at all is an error of the check, not a pass
    if not viol and any(s["execs"] == 0 and not s["violations"] for s in scen):
        print("check %s: a scenario ran no execution" % prop)
        sys.exit(2)
    printed = set()
    for sc, match, what in known:
        for s in scen:
            for v in s["violations"]:
                if v["known"] and v["knownid"] == match and (sc, match) not in printed:
                    printed.add((sc, match))
                    print("KNOWN-FINDING: property=%s %s" % (prop, what))
    cov = {
        "states": sum(s["states"] or s["nodes"] for s in scen),
        "transitions": sum(s["transitions"] or s["steps"] for s in scen),
        "traces_validated_against_impl": sum(s["traces"] or (s["execs"] - s["pruned"]) for s in scen),
        "distinct_outcomes": sum(s["outcomes"] for s in scen),
        "exhaustive": all(s["exhaustive"] for s in scen),
        "rule": spec.get("rule", "states: nodes of the tree of choices (schedule, fault, input) visited, or distinct model states where the driver hashes them; transitions: scheduling steps or operations executed; traces: complete executions of the real code compared with the oracle"),
        "samples": [x for s in scen for x in s["samples"][:2]][:12] or ["(no execution completed: violation in the first one)"],
        "scenarios": [{k: s[k] for k in ("driver", "name", "what", "execs", "pruned", "diverged", "states", "nodes", "steps", "transitions", "outcomes", "preemptions", "complete_preemptions", "maxdepth", "maxthreads", "left", "exhaustive", "unreproduced", "wall")} | {"outcome_samples": s["outcome_samples"][:4]} for s in scen],
        "known_findings_seen": len(printed),
        "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []) + registry.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s, v in viol:
        print("%s/%s: %s" % (s["driver"], s["name"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        rc = 1
        break
    if rc == 0:
        print("%s held: %d executions, %d states, exhaustive within bounds: %s (build %.1fs, total %.1fs)" % (prop, sum(s["execs"] for s in scen), cov["states"], cov["exhaustive"], t_build, time.time() - t0))
    sys.exit(rc)


main()
