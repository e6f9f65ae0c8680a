#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Properties without an entry in CHECKS are listed as not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
ns = {}
exec(open(V + "/tools/checks.py").read(), ns)
CHECKS, NA = ns["CHECKS"], ns["NA"]
m = dict(version=1, setup_cmd="./check setup", hooks=dict(guard="none", enable="no hooks are needed: the checks reach everything through public items or through a generated copy of the sources", source_commits=[]),
    checks=[], not_applicable=[], notes=ns["NOTES"])
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", evidence_file=f"evidence/{i}.json", technique=t, level=l, level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
