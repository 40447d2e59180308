"""Writes MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from tools.registry import PROPS, HOOKS, TECH, NOTE, PENDING
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
if HOOKS: m["hooks"] = HOOKS
for i in ids:
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                            "technique": TECH.get(i, TECH["*"]), "level": PROPS[i].get("level", "model_checking"), "level_note": NOTE.get(i, NOTE["*"])})
    else: m["not_applicable"].append({"property": i, "reason": PENDING})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
