#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and the property list."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from harness.registry import REG
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REG:
        r = REG[i]
        models = ", ".join(sorted({m for m, _ in r.get("mc", {}).get("quick", [])})) or "none"
        checks.append(dict(
            property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="TLA+ specification, TLC model checking (%s), replay of its vectors into the code, TLC trace validation (%s)" % (models, r["tr"]["module"]),
            level=r.get("level", "model_checking"),
            level_note="TLC explores the specification exhaustively within small bounds and every behaviour it emits is replayed into the real "
                       "code; beyond the bounds, seeded executions of the real code are judged event by event by the same specification. "
                       "Trusted: TLC, the JSON projection of arrays to integers (with stated tolerances for real values), the driver's choice of inputs."
                       + (" " + r["note"] if r.get("note") else "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not yet built")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks were needed in /repo: everything is observable at the public API. Findings and repairs: known_findings.txt.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
