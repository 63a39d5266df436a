"""Writes MANIFEST.json from the plan."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "harness"))
from plan import PLAN
from notes import NOTES, TECH
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
for i in ids:
    if i not in PLAN:
        m["not_applicable"].append({"property": i, "reason": "its specification module is still being built"})
        continue
    m["checks"].append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                        "technique": TECH.get(i, TECH["*"]), "level": "model_checking", "level_note": NOTES.get(i, NOTES["*"])})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
