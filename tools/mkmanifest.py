#!/usr/bin/env python3
"""writes MANIFEST.json from the rules' CHECKS tables and properties.jsonl"""
import importlib, json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "rules"))
import run

from mkmanifest_na import NA

PENDING = "No check has been built for this property yet."
SETUP = "python3 rules/setup.py"

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in run.MODULES:
        m = importlib.import_module(run.MODULES[i]).CHECKS[i]
        c = {"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
             "technique": m["technique"], "level": "other", "level_note": m["note"] + (" Assumes: " + "; ".join(m["assumptions"]) + "." if m.get("assumptions") else "")}
        checks.append(c)
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
d = {"version": 1, "setup_cmd": SETUP, "checks": checks, "not_applicable": na,
     "notes": "Every check builds the MIR driver, the models and (where used) the specification crate, dumps the type-checked program of /repo's working tree and analyses it. "
              "No check runs any code of /repo. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(d, f, indent=1)
print(len(checks), "checks", len(na), "not applicable")
