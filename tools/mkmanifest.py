#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from checks import CHECKS, NOT_APPLICABLE
ROOT = os.path.dirname(D)
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 vf.py setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 vf.py check %s --tier quick" % i,
            "thorough_cmd": "python3 vf.py check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "exploration",
            "level_note": c["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m["notes"] = ("Every check rebuilds its programs from /repo's working tree. No hooks are needed in /repo. See DESIGN.md; "
              "known findings and repairs are listed in findings/known_findings.txt.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
