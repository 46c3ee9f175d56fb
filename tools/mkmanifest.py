#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
info = json.load(open(os.path.join(V, "tools", "checks.json")))
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
m.update(info.get("_top", {}))
for p in props:
    i = info.get(p["id"])
    if i and "na" not in i:
        f = "checks/%s.py" % p["id"].lower()
        m["checks"].append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 " + f, "thorough_cmd": "VERIF_TIER=thorough python3 " + f,
                            "technique": i["technique"], "level": i.get("level", "model_checking"), "level_note": i["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": i["na"] if i else "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
