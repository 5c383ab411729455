#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py (run by hand after editing it)."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
checks, na = [], []
for p in props.PROPS:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check %s" % p["id"],
                   "thorough_cmd": "./check %s --thorough" % p["id"],
                   "technique": p["tech"], "level": "other", "level_note": p["note"]})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 -m kdlcheck.dump all", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
