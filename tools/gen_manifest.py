#!/usr/bin/env python3
"""writes MANIFEST.json from bin/props.py and properties.jsonl"""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "bin"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.PROPS:
        c = props.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {i}",
            "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": props.NOT.get(i, "no check built yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
