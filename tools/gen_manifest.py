#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, subprocess, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(H, "tools"))
from plan import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    if p in CHECKS:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": "TLA+ specification checked with TLC; histories recorded from the real code in a deterministic simulation, validated by TLC against the specification" + CHECKS[p].get("technique", ""),
                       "level": "model_checking",
                       "level_note": CHECKS[p]["note"] or "models exhaustive in their bounds; the code is bound by trace validation over enumerated and seeded schedules"})
na = [{"property": p, "reason": "its check is not built yet"} for p in props if p not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
     "hooks": {"guard": "none", "enable": "no hooks: the harness uses public items of the crates and includes std-binary sources by path", "source_commits": []},
     "not_applicable": na, "notes": "See DESIGN.md. Known and fixed findings: known_findings.txt."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks;", len(na), "not claimed")
