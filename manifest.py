#!/usr/bin/env python3
"""writes MANIFEST.json from lib/units.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(V, "lib"))
import units
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: the verified text is extracted from /repo's current source on every run (vx/), see DESIGN.md."}
for i in ids:
    u = units.UNITS.get(i)
    if u:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                            "technique": u.get("technique", "contract-based deductive verification (Verus) of functions extracted from the source on every run"),
                            "level": u.get("level", "proof"), "level_note": u["note"] + " Assumes: " + "; ".join(u["assumptions"]) + "."})
    else:
        m["not_applicable"].append({"property": i, "reason": units.NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
