#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json out of the tables below (a convenience for editing; no check runs this)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.text import P, HOOKS, NA, NOTES

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", ["bytes written to stdout", "exit status"]),
                         "hook_needed": p.get("hook", "cfg(nd_verif): the harness is included in the crate to drive its pipeline with scripted readers and a small block size")}}
        if "state" in p:
            q["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        f.write(json.dumps(q) + "\n")
na = {x["property"] for x in NA}
checks = [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
           "technique": p["technique"], "level": p.get("level", "exploration"), "level_note": p["note"]} for p in P if p["id"] not in na]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": HOOKS, "checks": checks, "not_applicable": NA, "notes": NOTES},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
