"""Writes properties.jsonl and MANIFEST.json from tools/spec.py (only properties whose check module exists)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import P
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
props, checks, na = [], [], []
import re
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = len(re.findall(r"[.;](?:\s|$)", p["statement"].replace("e.g.", "eg").replace("i.e.", "ie")))
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                  "anchors": {"files": p["files"],
                              **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]} if p["state"] else {}),
                              "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                              "observe_at": list(p["observe"]), "hook_needed": None}})
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
    if os.path.exists(os.path.join(R, "checks", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"],
                       "thorough_cmd": "./check %s --tier thorough" % p["id"],
                       "technique": p["technique"], "level": p.get("level") or "model_checking",
                       "level_note": p["note"] or "Decided on the real code: every execution of the bounded space is run and compared with the reference model."})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B -m mc.selftest",
               "checks": checks, "not_applicable": na}, f, indent=1)
print(len(props), "properties", len(checks), "checks", len(na), "n/a")
