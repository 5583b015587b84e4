#!/usr/bin/env python3
"""Write MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    q = p["bounds"]["quick"]
    note = "Real code, no abstraction in between. Explores: %s. %s %s" % (q, p.get("note", ""), " ".join(p["assumptions"]))
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": p["technique"], "level": p["level"], "level_note": " ".join(note.split())})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": "No check built yet."} for i in ids if i not in PROPS],
     "notes": "No hooks in /repo: the checks build the unmodified sources with their own flags and replace libc and runtime symbols at link time."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
