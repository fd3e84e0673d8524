#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the drivers that exist."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(ROOT, "tools/techniques.py")).read())
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in TECH and os.path.exists(os.path.join(ROOT, "src/props/%s.cpp" % i)):
        checks.append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "./check.sh %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i][0], "level": "exploration", "level_note": TECH[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "The check for this property is not built yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py all", "checks": checks, "not_applicable": na,
     "notes": "check.sh builds /repo's working tree out of tree with sanitizers (tools/build.py) and runs the property's driver; the tier is taken from VERIF_TIER, the seed from VERIF_SEED. A replay file is run with ./check.sh <ID> --replay <path>. No hooks in /repo are used."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
