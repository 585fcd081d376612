#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from gen/props.py, so that the two never disagree."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOTES
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": [], "not_applicable": [], "notes": NOTES}
for p in PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not claimed")
