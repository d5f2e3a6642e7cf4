#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
# id -> (technique, what the check gives, and what it trusts)
CLAIMS = {
 "C01": ("property-based testing: random matrices and operation histories of six element types against a plain table of rows and columns", "random exploration with shrinking; every operation of every history compared element by element; trusts the table model and the harness"),
 "C02": ("property-based testing: exact integer and bounded-error float reference arithmetic, metamorphic laws, operand ownership under a tracking allocator", "random exploration with shrinking; trusts the reference arithmetic and the harness"),
 "C03": ("stateful property-based testing: histories of row operations against a table model, all element types", "random exploration with shrinking; trusts the table model and the harness"),
 "C04": ("property-based testing: independent full-pivoting inverse and the products with the inverse as oracle; planted singular matrices", "random exploration with shrinking; only matrices with condition number below 1e7 are judged on their values; trusts the reference inverse"),
 "C05": ("stateful property-based testing: call histories of the C interface against the table model, under an allocator that detects double release, leaks and writes after release", "random exploration with shrinking; memory errors other than those the allocator sees (out-of-bounds reads) are not detected"),
}
exec(open(os.path.join(here, "claims.py")).read()) if os.path.exists(os.path.join(here, "claims.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}", "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check uses the public Rust and C interfaces and the command lines of /repo. The thorough tier is selected by VERIF_TIER=thorough. Known and fixed defects: KNOWN_FINDINGS."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
