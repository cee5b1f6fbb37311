#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props/*.json (one file per property) - run after editing a property."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.load(open(f)) for f in sorted(glob.glob(V + "/lib/props/*.json"))]
# the kinds of things a property quantifies over; its own list says which
OVER = {"C04": ["histories", "configurations", "inputs"], "C05": ["histories", "configurations"], "C06": ["inputs", "histories", "configurations"], "C07": ["inputs", "histories", "configurations"],
        "C08": ["inputs", "histories", "configurations"], "C12": ["crash_points", "histories"], "C13": ["inputs", "histories", "configurations"], "C15": ["inputs", "histories"]}
checks, na = [], []
with open(V + "/properties.jsonl", "w") as o:
    for p in props:
        qu = p["quantifier"]
        p["quantifier"] = {"over": OVER.get(p["id"], ["schedules", "histories", "configurations"]), "text": qu["text"] + " Over: " + "; ".join(qu["over"]) + "."}
        p["anchors"]["mechanism"] = [{"name": x, "where": ", ".join(p["anchors"]["files"])} for x in p["anchors"]["mechanism"]]
        o.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        if "reason" in p:
            na.append({"property": p["id"], "reason": p["reason"]})
            continue
        checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 checks/run.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + p["id"],
                       "technique": p["technique"], "level": p.get("level", "model_checking"), "level_note": p["level_note"]})
m = {"version": 1, "setup_cmd": "sh setup.sh", "hooks": {"guard": "NONE", "enable": "no hooks: the harness programs reach the code's own "
     "virtual functions and data members (decorators, subclasses, -fno-access-control)", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "TLA+/TLC throughout; see DESIGN.md"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
