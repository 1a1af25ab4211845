#!/usr/bin/env python3
"""Generates MANIFEST.json from checks/registry.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks"))
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash engine/build.sh && bash engine2/build.sh && bash engine3/build.sh && bash engine4/build.sh", "checks": [], "not_applicable": [], "notes": registry.NOTES}
for p in props:
    c = registry.CHECKS.get(p)
    if c:
        m["checks"].append({"property": p, "quick_cmd": "python3 checks/run.py %s quick" % p, "thorough_cmd": "python3 checks/run.py %s thorough" % p,
                            "technique": c["technique"], "level": c.get("level", "other"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": registry.NA.get(p, "no check built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", [x["property"] for x in m["not_applicable"]])
