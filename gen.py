#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks/props.py and checks/table.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks.props import P
from checks.table import CHECKS, NOT_APPLICABLE
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks = []
for p in P:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                   "technique": "symbolic execution of the compiled code (LLVM IR) with SMT (Z3)", "level": "model_checking",
                   "level_note": "Every input within the bounds: " + c["bounds"] + ". Outside the bounds nothing is claimed. " + c.get("note", "") +
                   " Trusts rustc's lowering to LLVM IR, the executor's IR semantics (cross-checked by native replays) and Z3."})
na = [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "no check built yet")} for p in P if p["id"] not in CHECKS]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
