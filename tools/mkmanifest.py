"""writes MANIFEST.json from plan.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN, NOTES, TECH
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "technique": TECH[p["id"]], "level": "exploration", "level_note": NOTES[p["id"]]} for p in props if p["id"] in PLAN],
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in PLAN]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
