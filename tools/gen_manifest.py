#!/usr/bin/env python3
"""Writes MANIFEST.json from plans.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
import plans
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = getattr(plans, "NOT_APPLICABLE", {})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p["id"] in plans.PLANS:
        pl = plans.PLANS[p["id"]]
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                            "technique": pl["technique"], "level": pl["level"], "level_note": pl["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
m["notes"] = "TLA+/TLC. See DESIGN.md. No hooks in /repo are needed: everything is observed through the public API, a fake database/sql driver, a fake Postgres server and fake time."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
