#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the only place where properties are edited)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
TRUST = ("Bounded: holds for every value, choice and schedule inside the bounds given in the evidence file and in the "
         "harness comments; outside them nothing is claimed. Trusts go/ssa, the interpreter in /verif/engine (sampled "
         "paths are replayed natively on every run) and z3.")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["forall"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p.get("observe"):
            q["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                   "technique": p.get("technique", "symbolic execution of the real Go code (go/ssa) with z3 deciding every path's assertions; counterexamples replayed natively"),
                   "level": "model_checking", "level_note": p.get("note", "") + (" " if p.get("note") else "") + TRUST})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
