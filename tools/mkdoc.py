#!/usr/bin/env python3
"""COVERAGE.md from the evidence files; the planted-bug table of DESIGN.md from seeded/ and tools/caught.json."""
import json, os, glob, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
o = ["# What the quick checks explore on the current tree", "",
     "Written by tools/mkdoc.py from the evidence files of quick runs; evaluations are library results compared with the oracle.", ""]
for pid in sorted(props):
    f = V + "/evidence/%s.json" % pid
    if not os.path.exists(f): continue
    e = json.load(open(f)); c = e["coverage"]
    if e["tier"] != "quick": continue
    o += ["## %s %s" % (pid, props[pid]["title"]), "",
          "%s, %.0f s, %d evaluations, %d distinct states" % (e["level"], e["wall_s"], c["evaluations"], c.get("states", 0)), "",
          "| space | builds | cases | evaluations | all |", "|---|---|---|---|---|"]
    by = {}
    for s in c["spaces"]:
        b = by.setdefault(s["space"], dict(rule=s["rule"], v=[], cases=0, ev=0))
        if s["variant"] not in b["v"]: b["v"].append(s["variant"])
        b["cases"] = max(b["cases"], s["cases"]); b["ev"] += s["evaluations"]
    for n, b in by.items():
        o.append("| %s | %s | %d | %d | %s |" % (n, " ".join(b["v"]), b["cases"], b["ev"], b["rule"].replace("|", "/")))
    o.append("")
open(V + "/COVERAGE.md", "w").write("\n".join(o))
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
t = ["<!-- plants -->", "", "| bug | needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    t.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "/"), caught.get(i, "?")))
t += ["", "<!-- /plants -->"]
s = open(V + "/DESIGN.md").read()
s = s.replace("@PLANTS@", "<!-- plants --><!-- /plants -->")
s = re.sub(r"<!-- plants -->.*<!-- /plants -->", lambda m: "\n".join(t), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
