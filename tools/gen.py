#!/opt/venv/bin/python
"""Regenerates properties.jsonl and MANIFEST.json from the PROP records of vp/checks/*.py and tools/na.py."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def prop_of(path):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id == "PROP":
            return ast.literal_eval(node.value)
    return None


def line(pid, p):
    return {"id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}


props, checks, na = [], [], []
for f in sorted(glob.glob(V + "/vp/checks/c[0-9]*.py")):
    pid = os.path.basename(f)[:-3].upper()
    p = prop_of(f)
    if p is None:
        print("no PROP in", f)
        continue
    assert len(p["title"]) <= 80, (pid, len(p["title"]))
    props.append(line(pid, p))
    checks.append({"property": pid, "quick_cmd": "%s -m vp.run %s --tier quick" % (PY, pid),
                   "thorough_cmd": "%s -m vp.run %s --tier thorough" % (PY, pid),
                   "technique": "symbolic execution of the traced code (jaxpr) + SMT (z3); " + p["technique"],
                   "level": "other", "level_note": p["note"]})
NA = {}
exec(open(V + "/tools/na.py").read())
for pid, p in sorted(NA.items()):
    props.append(line(pid, p))
    na.append({"property": pid, "reason": p["reason"]})
with open(V + "/properties.jsonl", "w") as fh:
    for p in props:
        fh.write(json.dumps(p) + "\n")
with open(V + "/MANIFEST.json", "w") as fh:
    json.dump({"version": 1,
               "setup_cmd": PY + " -c \"import jax, microjax, sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3\"",
               "checks": checks, "not_applicable": na,
               "notes": "Solver-based checking of the real code: every check traces the functions of /repo/src/microjax to jaxprs, "
                        "executes them symbolically and lets z3 decide the obligations. No hooks in /repo. Generated by tools/gen.py."}, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks", len(na), "not applicable")
