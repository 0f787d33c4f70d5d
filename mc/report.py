"""Command line of a check: runs its families, writes evidence, prints violations."""
import importlib
import json
import os
import sys
import time
import traceback

_t = time.perf_counter

from . import env
from .explore import Result, run_tasks, run_trace, shrink, _task

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.json")


def known_for(pid):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == pid]
    except FileNotFoundError:
        return []


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int)
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    pid = a.property.upper()
    os.chdir(ROOT)
    t0 = _t()
    mod = importlib.import_module("checks." + pid.lower())
    if a.replay:
        return replay(a.replay)

    findings = []
    err = None
    try:
        tasks = mod.tasks(a.tier)
        known0 = known_for(pid)
        res = run_tasks(tasks, a.procs, (lambda v: not match_known(v, known0)) if os.environ.get("VERIF_STOP") else None)
        if hasattr(mod, "post"):
            mod.post(res, a.tier)
    except Exception as e:
        # building the system from the current tree failed: the property cannot hold on it
        res = Result()
        res.violations.append({"family": "harness", "system": None, "cfg": None, "trace": [],
                               "message": "exception outside an execution: %s: %s" % (type(e).__name__, e),
                               "log": traceback.format_exc().splitlines()})
    wall = _t() - t0

    known = known_for(pid)
    reported = []
    seen_known = []
    for v in res.violations:
        k = match_known(v, known)
        if k:
            if k["id"] not in seen_known:
                seen_known.append(k["id"])
        else:
            reported.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    rc = 0
    if reported:
        rc = 1
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        v = reported[0]
        path = os.path.join(ROOT, "replays", "%s.json" % pid)
        try:
            import contextlib
            with contextlib.redirect_stdout(None):
                v = minimise(v)
        except Exception:
            pass
        with open(path, "w") as f:
            json.dump({"property": pid, "violation": v, "others": len(reported) - 1}, f, indent=1, default=repr)
        print("%s [%s]: %s" % (pid, v["family"], v["message"]))
        print("  config: %s" % json.dumps(v["cfg"], default=repr)[:600])
        print("  trace:  %s" % json.dumps(v["trace"], default=repr)[:1200])
        for o in reported[1:6]:
            print("  also [%s]: %s (%s)" % (o["family"], o["message"][:300], json.dumps(o["trace"], default=repr)[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, path))

    level = getattr(mod, "LEVEL", "model_checking")
    cov = {
        "states": res.states,
        "transitions": res.transitions,
        "traces_validated_against_impl": res.executions,
        "evaluations": res.executions,
        "distinct_nontrivial": len(res.outcomes),
        "rule": getattr(mod, "RULE", "every execution runs the real code in lock-step with the reference model; "
                                     "distinct_nontrivial counts distinct observed outcomes (content hashes)"),
        "implementation_steps": res.steps,
        "max_depth": res.maxdepth,
        "exhaustive": bool(res.exhausted),
        "fixpoint": bool(res.fixpoint),
        "bounds": getattr(mod, "BOUNDS", {}).get(a.tier, ""),
        "notes": res.notes[:20],
        "families": len(tasks) if not err and 'tasks' in dir() else 0,
        "samples": [_short(s) for s in res.samples[:4]] or ["none"],
        "known_findings_seen": seen_known,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": a.tier, "seed": seed, "level": level, "coverage": cov,
                   "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 3),
                   "violations": len(reported)}, f, indent=1, default=repr)
    print("%s %s: states=%d transitions=%d executions=%d outcomes=%d exhaustive=%s fixpoint=%s wall=%.1fs -> %s" % (
        pid, a.tier, res.states, res.transitions, res.executions, len(res.outcomes), res.exhausted,
        res.fixpoint, wall, "VIOLATION" if rc else "ok"))
    return rc


def _short(s):
    t = json.dumps(s, default=repr)
    return s if len(t) < 4000 else t[:4000]


def match_known(v, known):
    for k in known:
        m = k["match"]
        if "family" in m and m["family"] != v["family"]:
            continue
        if "message" in m and m["message"] not in v["message"]:
            continue
        if "trace" in m and json.loads(json.dumps(m["trace"])) != json.loads(json.dumps(v["trace"], default=repr)):
            continue
        return k
    return None


def _resolve(name):
    m, c = name.split(":")
    return getattr(importlib.import_module(m), c)


def minimise(v):
    if not v.get("system") or not v["trace"]:
        return v
    cls = _resolve(v["system"])
    trace, msg = shrink(cls, v["cfg"], v["trace"], v["message"])
    m, s, log = run_trace(cls, v["cfg"], trace)
    m2, s2, log2 = run_trace(cls, v["cfg"], trace)
    v = dict(v, trace=trace, message=m or msg, log=log, replayed_twice_identically=(m == m2 and str(log) == str(log2)))
    return v


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, list) else x


def replay(path):
    with open(path) as f:
        v = json.load(f)["violation"]
    if not v.get("system"):
        print(json.dumps(v, indent=1))
        return 1
    cls = _resolve(v["system"])
    msg, s, log = run_trace(cls, v["cfg"], [_tup(e) for e in v["trace"]])
    for l in log:
        print(l)
    print("replay: %s" % (msg or "no violation"))
    return 1 if msg else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
