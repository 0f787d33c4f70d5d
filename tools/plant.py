"""Plants bugs from tools/plants.py: python3 tools/plant.py [IDs...] [--nocheck] [--keep]
Builds seeded/<id>/ and validates each: patch applies, builds, stable tests pass, demo 0 on clean / nonzero on
patched, and runs the property's check against a patched scratch copy."""
import json, os, shutil, subprocess as sp, sys, difflib
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plants import PLANTS
args = [a for a in sys.argv[1:] if not a.startswith("--")]
nocheck = "--nocheck" in sys.argv
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("tests") or json.load(open("/opt/vp/BASELINE.json"))["stable"]) if os.path.exists("/opt/vp/BASELINE.json") else set()

DEMO = '''#!/bin/bash
# exit 0: behaves as it should; nonzero: broken
D="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export VERIF_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$D"
exec timeout 120 "$PY" -B "$D/demo.py"
'''
HEAD = '''from h import env, rig
env.fresh()


def check(cond, msg):
    if not cond:
        print("BROKEN:", msg)
        raise SystemExit(1)


'''

def run(cmd, **kw):
    return sp.run(cmd, shell=True, capture_output=True, text=True, **kw)

def one(p, idx):
    pid = p["id"]
    out = os.path.join(ROOT, "seeded", pid)
    scratch = "/tmp/plant_%s" % pid
    shutil.rmtree(scratch, ignore_errors=True)
    run("cp -a /repo %s" % scratch)
    res = {"id": pid, "property": p["property"]}
    try:
        for f, old, new in p["edits"]:
            fn = os.path.join(scratch, f)
            s = open(fn).read()
            if s.count(old) != 1:
                res["error"] = "old text found %d times in %s" % (s.count(old), f)
                return res
            open(fn, "w").write(s.replace(old, new))
        diff = run("git diff", cwd=scratch).stdout
        os.makedirs(out + "/h", exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        body = p["demo"].strip("\n") + "\n"
        open(out + "/demo.py", "w").write((HEAD if not p.get("raw") else "") + body)
        for fn in ("env.py", "rig.py"):
            shutil.copy(os.path.join(ROOT, "mc", fn), out + "/h/" + fn)
        if "fw" in p["demo"].split("\n")[0] or "from h import fw" in p["demo"]:
            open(out + "/h/fw.py", "w").write(open(os.path.join(ROOT, "checks", "fw.py")).read().replace("from mc import", "from . import").replace("from mc.", "from ."))
        open(out + "/h/__init__.py", "w").close()
        for extra in p.get("files", []):
            shutil.copy(extra, out)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["what"]}, open(out + "/meta.json", "w"), indent=1)
        a = run("bash %s/demo.sh" % out, cwd="/repo")
        b = run("bash %s/demo.sh" % out, cwd=scratch)
        res["demo_clean"], res["demo_patched"] = a.returncode, b.returncode
        if a.returncode:
            res["demo_clean_out"] = (a.stdout + a.stderr)[-600:]
        res["demo_msg"] = (b.stdout + b.stderr).strip()[-160:]
        # tests (the scratch copy takes /repo's place inside a private mount? not available: run its test module directly)
        t = run(TESTCMD.replace("@", scratch), cwd=scratch)
        res["tests"] = t.stdout.strip()[-200:] + (t.stderr.strip().splitlines() or [""])[-1][-120:]
        if not nocheck:
            e = dict(os.environ, VERIF_REPO=scratch)
            c = sp.run([os.path.join(ROOT, "check"), p["property"], "--procs", "4"], capture_output=True, text=True, env=e)
            res["caught"] = c.returncode == 1 and "VIOLATION property=%s" % p["property"] in c.stdout
            res["check"] = c.stdout.strip().splitlines()[:1]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res

TESTCMD = "python3 /verif/tools/runtests.py @"
sel = [p for p in PLANTS if not args or any(p["id"].startswith(a) for a in args)]
os.makedirs(os.path.join(ROOT, "seeded"), exist_ok=True)
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(lambda t: one(t[1], t[0]), enumerate(sel)):
        ok = not r.get("error") and r.get("demo_clean") == 0 and r.get("demo_patched") and "PASS" in r.get("tests", "")
        print("%-28s %s %s caught=%s | demo: %s | tests: %s | %s" % (r["id"], r["property"], "valid" if ok else "INVALID", r.get("caught"),
              r.get("demo_msg"), r.get("tests"), r.get("check")), flush=True)
        if not ok:
            print("    ", json.dumps(r)[:1500], flush=True)
