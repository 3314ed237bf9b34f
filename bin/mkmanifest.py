#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from config import PROPS, META
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        t, note = META.get(i, META["default"])
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s" % i,
                       "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
                       "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the monitors observe through user-supplied types, callbacks and link-time "
                    "interposition of the clock and sleep functions. "},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
