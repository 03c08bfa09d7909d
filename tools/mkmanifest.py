#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the rule registry and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "lint"))
from registry import RULES, TECH, NOTE
NA = {
 "C40": "quantifies over every valid schema and over rustc's acceptance of the emitted text; the emitted text is a runtime quantity built from unbounded input, so no static argument over this source bounds it (clauses in reach are claimed as C20-C23, C27, C28, C31, C33)",
 "C41": "depends on the run-time behaviour of yaserde on generated code for unbounded schemas and documents; only its structural clauses (C07-C09, C19, C22, C31) can be decided from this source",
 "C42": "round-trip equality is a statement about numerical and formatting results of chrono, num-bigint and f64 printing at run time; the structural halves (what is parsed into what, what is printed from what) are claimed as C03, C04, C05",
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "bash lint/extract.sh .work/mir",
     "checks": [], "not_applicable": [],
     "notes": "All checks read the resolved MIR of /repo's current tree, exported by a rustc_private driver (driver/) under cargo check; nothing of /repo is executed. No hooks were needed in /repo."}
for p in props:
    i = p["id"]
    if i in RULES:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
                            "technique": TECH[i], "level": "other", "level_note": NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no rule of this kind is armed for it at this commit; see DESIGN.md")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
