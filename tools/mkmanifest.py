#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import registry
T = {p: ("bounded exhaustive enumeration of inputs/histories executed on the real code against a reference model", "") for p in registry.ALL}
T.update(registry.TECH)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in registry.ALL:
        continue
    tech, note = T[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "model_checking",
                   "level_note": (note + " " if note else "") + "Exhaustive inside the bounds reported in the evidence file; says nothing about values or sizes outside them. Trusts rustc, the harness' reference model and the enumeration engine (mc/src/engine.rs)."})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in registry.ALL],
     "notes": "No hooks in /repo: every check drives public API (including doc(hidden) public items) from crates in /verif with path dependencies on /repo. Exit 2 means the machinery failed and there is no verdict."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks")
