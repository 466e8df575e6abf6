#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one source for both)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, HOOKS, NOTES
root = os.path.dirname(here)
PROPS.sort(key=lambda p: p["id"])
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in PROPS:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./run.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["level_note"],
        })
json.dump({p["id"]: {"rule": p["rule"], "assumptions": p["assume"]} for p in PROPS if "na" not in p}, open(os.path.join(root, "harness/src/info.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na, "notes": NOTES}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
