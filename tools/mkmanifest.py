#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOT_YET = "no check has been built for it yet; the family applies and a check is planned"
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        na.append({"property": i, "reason": NOT_YET})
        continue
    C = importlib.import_module("checks." + i.lower()).CHECK
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": C.TECHNIQUE, "level": C.LEVEL, "level_note": C.NOTE})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the driver in mc/ uses the public API only. Commits in /repo are fix: commits, "
              "listed in known_findings.json."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
