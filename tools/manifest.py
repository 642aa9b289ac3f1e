#!/usr/bin/env python3
"""Regenerate MANIFEST.json and properties.jsonl: a property is claimed when
checks/<id>.py exists; otherwise it is listed as not applicable with a reason."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
subprocess.run([sys.executable, os.path.join(V, "tools", "props.py")], check=True)
from claims import CLAIMS, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; every check rebuilds /repo's working tree in a scratch directory, "
              "records behaviours of the real code and has TLC decide whether the specification allows them. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
