#!/usr/bin/env python3
"""check.py <ID> [--replay CHOICES]   decides one property; see DESIGN.md."""
import json, os, sys, time, subprocess, re, importlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "harness"))
sys.dont_write_bytecode = True
import build as bld
from registry import CHECKS

ENV = {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "LC_ALL": "C",
       "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:alloc_dealloc_mismatch=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=2000"}

EVID = os.environ.get("VERIF_EVID", os.path.join(V, "evidence"))

def known():
    """(property, key regex, text) of the known findings"""
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+)\s+(.*)", l.strip())
            if m: out.append((m[1], m[2], m[3]))
    return out

def finish(pid, spec, results, t0, tier):
    """results: list of dicts as written by mc.h / mc.py"""
    kf = [k for k in known() if k[0] == pid]
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    viol = []; kprint = {}
    n = 0
    for r in results:
        for v in r["violations"]:
            v["part"] = r.get("part", "")
            hit = [k for k in kf if re.fullmatch(k[1], v["key"])]
            if hit: kprint.setdefault(hit[0][1], (hit[0][2], v)); continue
            n += 1
            path = "evidence/replay/%s-%d.json" % (pid, n)
            v["replay_cmd"] = "python3 check.py %s --part '%s' --replay %s" % (pid, v["part"], v["choices"])
            json.dump(v, open(os.path.join(EVID, path[9:]), "w"), indent=1)
            viol.append((v, path))
    cov = {"states": sum(r["states"] for r in results), "transitions": sum(r["edges"] for r in results),
           "traces_validated_against_impl": sum(r["executions"] for r in results),
           "evaluations": sum(r["executions"] for r in results),
           "distinct_nontrivial": min(sum(r["nontrivial"] for r in results), sum(r["executions"] for r in results)),
           "operations_executed": sum(r["steps"] for r in results),
           "distinct_outcomes": sum(r["outcomes"] for r in results),
           "rule": spec["rule"],
           "exhaustive": all(r["cut"] == 0 for r in results),
           "bounds": spec.get("bounds", ""),
           "counters": {k: v for r in results for k, v in r["counters"].items()} if len(results) == 1 else {r.get("part", str(i)): r["counters"] for i, r in enumerate(results)},
           "samples": [s for r in results for s in r["samples"]][:8]}
    if not cov["samples"]: cov["samples"] = ["none"]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec.get("level", "model_checking"),
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for k, (text, v) in sorted(kprint.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    for v, path in viol:
        print("VIOLATION property=%s replay=%s  # %s: %s" % (pid, path, v["key"], v["msg"][:300]))
    print("%s: %d executions, %d transitions, %d states, %d outcomes, exhaustive=%s, %.1fs" % (pid, cov["evaluations"], cov["transitions"], cov["states"], cov["distinct_outcomes"], cov["exhaustive"], time.time() - t0))
    return 1 if viol else 0

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    rep = part = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--replay": rep = a.pop(0)
        elif x == "--part": part = a.pop(0)
        elif x == "--thorough": tier = "thorough"
    os.environ["VERIF_TIER"] = tier
    os.environ.update(ENV)
    t0 = time.time()
    spec = CHECKS[pid]
    parts = [p for p in spec["parts"] if part in (None, "", p["part"]) and (tier == "thorough" or not p.get("thorough_only"))]
    targets = []; idx = {}
    for p in parts:
        for t in p["build"]:
            k = json.dumps(t, sort_keys=True)
            if k not in idx: idx[k] = len(targets); targets.append(t)
    exes = bld.build(targets)
    print("%s: built in %.1fs" % (pid, time.time() - t0)); sys.stdout.flush()
    results = []
    for p in parts:
        ex = [exes[idx[json.dumps(t, sort_keys=True)]] for t in p["build"]]
        out = os.path.join(bld.B, "result-%s-%s-%d.json" % (pid, p["part"], os.getpid()))
        if "py" in p:
            cmd = ["/opt/veriftools/pyvenv/bin/python", "-B", os.path.join(V, "harness", p["py"])] + [x for e in ex[0:] for x in ("--exe", e)] + p.get("args", [])
        else:
            cmd = [ex[0]] + p.get("args", [])
        for e in ex[1:]:
            if "py" not in p: cmd += ["--exe", e]
        if rep is not None: cmd += ["--replay", rep]
        cmd += ["--out", out]
        if tier == "thorough": cmd += ["--thorough", "--deadline", str(p.get("deadline_thorough", max(100, 780 // len(parts))))]
        else: cmd += ["--deadline", str(p.get("deadline", 400))]
        env = dict(os.environ); env.update(p.get("env", {})); env["VERIF_DIR"] = V; env["VERIF_REPO"] = bld.REPO
        r = subprocess.run(cmd, env=env)
        if rep is not None: sys.exit(r.returncode)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("%s: harness %s failed with status %d" % (pid, p["part"], r.returncode)); sys.exit(3)
        res = json.load(open(out)); os.unlink(out); res["part"] = p["part"]; results.append(res)
    sys.exit(finish(pid, spec, results, t0, tier))

if __name__ == "__main__": main()
