#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and harnesses.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from harnesses import PROPERTIES  # noqa: E402

REASONS = {}

checks, na = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in PROPERTIES:
        q = PROPERTIES[i]
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": "symbolic execution of the LLVM IR compiled from /repo, path conditions and assertions decided by "
                         "bit-vector solving (own simplifier and Z3), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Bounds: %s. Outside: %s." % ("; ".join(h["entry"] + ": " + h["bound"] for h in q["harnesses"]), q["outside"]),
            "evidence_file": "evidence/%s.json" % i,
        })
    else:
        na.append({"property": i, "reason": REASONS.get(i, "check not built yet")})

m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "Known findings: known_findings.txt. Harnesses: harness/src. Engine: engine/src.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
