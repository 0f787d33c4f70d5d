"""Assembles DESIGN.md: head + per property section + findings + planted bugs + tail."""
import glob, importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, R + "/tools"]
sys.dont_write_bytecode = True
os.chdir(R)
from spec import P
from oracles import ORACLE
out = [open("tools/design_head.md").read()]
out.append("## 3. Properties: what is enumerated, oracle, bounds, cost\n")
cost = json.load(open("tools/costs.json")) if os.path.exists("tools/costs.json") else {}
def bounds(pid):
    import ast
    src = open("checks/%s.py" % pid.lower()).read()
    ns = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS"):
            ns[n.targets[0].id] = ast.literal_eval(n.value)
    return ns
for p in sorted(P, key=lambda p: p["id"]):
    i = p["id"]
    out.append("### %s - %s\n" % (i, p["title"]))
    if not os.path.exists("checks/%s.py" % i.lower()):
        out.append("No check.\n"); continue
    b = bounds(i)
    out.append("*Statement.* %s\n" % p["statement"])
    out.append("*Enumerated.* %s\n" % p["text"])
    out.append("*Bounds.* quick: %s. thorough: %s.\n" % (b["BOUNDS"]["quick"], b["BOUNDS"]["thorough"]))
    out.append("*Oracle.* %s\n" % ORACLE.get(i, ""))
    out.append("*Why beyond tests.* %s\n" % p["why"])
    if b.get("ASSUMPTIONS"):
        out.append("*Assumptions / exclusions.* %s.\n" % "; ".join(b["ASSUMPTIONS"]))
    if i in cost:
        c = cost[i]
        out.append("*Cost (quick, 8 cores).* about %s s, %s states, %s transitions.\n" % (c["s"], c["states"], c["transitions"]))
kf = json.load(open("known_findings.json"))
out.append("## 4. Genuine defects found\n")
out.append("Repaired by `fix:` commits in /repo (each found by the check named, shown by replay against the real code, and checked "
           "again after the repair):\n")
for f in kf["fixed"]:
    out.append("* " + f[len("fixed: property="):])
out.append("\nRecorded, not repaired (`known_findings.json`, matched by family, message and exact history):\n")
for f in kf["findings"]:
    out.append("* **%s** (%s): %s" % (f["id"], f["property"], f["what"]))
out.append("")
out.append(open("tools/design_tail.md").read())
out.append("## 7. Planted bugs (seeded/)\n\nAll are validated by `tools/plant.py`: patch applies, tests pass, demo passes clean and fails patched, and the "
           "check of the named property reports a violation.\n\n| planted bug | property | needs | caught | first missed? |\n|---|---|---|---|---|")
missed = json.load(open("tools/missed.json"))
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); n = d.split("/")[1]
    out.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["needs"], "no" if m.get("uncaught") else m["property"], missed.get(n, "")))
open("DESIGN.md", "w").write("\n".join(out) + "\n")
