#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
NA = {}
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py %s" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                                evidence_file="evidence/%s.json" % p, technique=c["technique"], level=c["level"], level_note=c.get("note") or
                                "Every case of the listed bounded spaces is executed on the library built from the current tree; nothing is sampled. Outside the bounds nothing is claimed. Build variants: " + ", ".join(sorted(set(j["variant"] for j in c["jobs"]))) + "."))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "check not built yet")))
m["notes"] = "DESIGN.md describes the spaces, bounds and oracles; known_findings.txt lists open and repaired findings."
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
