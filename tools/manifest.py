#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and properties.jsonl."""
import json, sys
sys.path.insert(0, "/verif/tools")
from props import PROPS
from notes import NOTES, NOT_APPLICABLE, HOOKS
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
TECH = "symbolic execution of the LLVM IR compiled from the real code; an SMT solver (z3) decides every branch, path condition and assertion over all inputs within the bounds; counterexamples are replayed natively"
checks = []
for i in ids:
    if i not in PROPS:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 /verif/tools/check.py %s quick" % i,
        "thorough_cmd": "python3 /verif/tools/check.py %s thorough" % i,
        "evidence_file": "/verif/evidence/%s.json" % i,
        "technique": TECH,
        "level": "model_checking",
        "level_note": NOTES.get(i) or "bounded: " + "; ".join(s["bounds"] for s in PROPS[i]["stages"] if "tiers" not in s)[:900],
    })
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check still being built")} for i in ids if i not in PROPS]
m = {
    "version": 1,
    "setup_cmd": "bash /verif/tools/setup.sh",
    "hooks": HOOKS,
    "checks": checks,
    "not_applicable": na,
    "notes": "Exit status 2 of a check means that it could not give an answer. known-findings.txt lists repaired and known defects.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
