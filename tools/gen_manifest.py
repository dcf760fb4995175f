#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C21": "property-based testing: generated h-adaptive solves, residual/iteration invariants and fixed-mesh re-solve as oracle",
    "C23": "property-based testing: generated problems with analytically known optimum, end-to-end differential oracle",
    "C24": "property-based testing: metamorphic relation single phase vs. linked phases",
    "C13": "property-based testing: metamorphic relation scaled vs. unscaled problem",
    "C25": "stateful property-based testing: operation sequences against a fresh optimizer",
    "C27": "stateful property-based testing: interleaved operations with snapshots of all user objects",
    "C30": "property-based testing: generated refinement runs, invariants over the recorded iterations and fixed-mesh re-solve",
}
DEFAULT = "property-based testing (Hypothesis) with shrinking against an independent reference model"
NOTE = ("Random and structured search over generated cases with an explicit oracle; finds violations, "
        "does not prove absence. Trusts numpy/casadi arithmetic, the reference in pbt/ref.py and the stated tolerances.")
PY = "/opt/venv/bin/python"
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "pbt", "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"{PY} run_check.py {i} --tier quick",
            "thorough_cmd": f"{PY} run_check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, DEFAULT),
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": f"{PY} tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo. Replay: run_check.py <ID> --replay <file>.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not claimed")
