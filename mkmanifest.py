#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (claimed) and properties.jsonl (everything else is not applicable)."""
import json
from checks import CHECKS
props = [json.loads(l) for l in open("properties.jsonl")]
checks = []
for p in props:
    if p["id"] not in CHECKS: continue
    c = CHECKS[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=c.get("technique") or "property-based testing: generated inputs and operation histories against a reference model, shrunk on failure, under ASan/UBSan",
        level="exploration",
        level_note="Seeded random search over structured inputs; no violation found is not a proof. Trusts the reference model in harness/, clang's sanitizers and libstdc++. " + c["rule"]))
na = [dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 -c \"import run\"", checks=checks, not_applicable=na,
    notes="Every check compiles its harness against /repo/include on each run; no hooks are needed in /repo."), open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
