#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from mc/propdefs.py (run after editing it)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from mc.propdefs import PROPS  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py")):
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 run.py %s" % p["id"],
            "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
            "technique": p["technique"],
            "level": p.get("level", "model_checking"),
            "level_note": p["note"],
        })
    else:
        na.append({"property": p["id"], "reason": p.get("na", "no check has been built for it yet")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 run.py --selfcheck", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo are needed: every check drives the public API of the working tree directly."}, f, indent=1)
    f.write("\n")
print("%d properties, %d checks" % (len(PROPS), len(checks)))
