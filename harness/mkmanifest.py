"""Writes MANIFEST.json and known_findings entries for fixes."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
import sys
sys.path.insert(0, os.path.join(V, "harness"))
from claims import CLAIMS
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        checks.append({
            "property": i, "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": CLAIMS[i][0], "level": "model_checking", "level_note": CLAIMS[i][1],
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; see DESIGN.md. No hooks in /repo are needed: everything is observed through the public API."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
