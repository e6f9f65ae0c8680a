#!/usr/bin/env python3
"""addknown.py PROPERTY KEY WHAT: add a known finding (used while developing; checks never call it)."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
if sys.argv[1] == "fixed":
    k["fixed"].append(sys.argv[2])
else:
    k["findings"].append(dict(property=sys.argv[1], key=sys.argv[2], what=sys.argv[3]))
json.dump(k, open(p, "w"), indent=1); open(p, "a").write("\n")
