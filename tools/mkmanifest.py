#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        s = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p,
            "thorough_cmd": "python3 run.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks: every check drives the exported API or the built command, from the module in mc/ which replaces gotetra by /repo."},
  open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
