#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md (run by hand; no check reads seeded/)."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
print("| planted bug | needs | caught by |\n|---|---|---|")
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(f))
    print("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["needs"], m["property"]))
