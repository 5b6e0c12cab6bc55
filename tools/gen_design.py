#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, tools/props.md, known_findings.json, tools/seed_results.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
R = os.path.join(H, "..")
t = open(H + "/DESIGN.in.md", encoding="utf8").read()
props = open(H + "/props.md", encoding="utf8").read().strip()
fx = "\n".join("* %s `%s` %s" % (e["property"], e["commit"], e["what"]) for e in json.load(open(R + "/known_findings.json", encoding="utf8")))
try:
    res = json.load(open(H + "/seed_results.json", encoding="utf8"))
except FileNotFoundError:
    res = {}
rows = ["| bug | property | needs | result |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/%s/meta.json" % d, encoding="utf8"))
    r = ", ".join("%s %s" % (k, v) for k, v in sorted(res.get(d, {}).items())) or "not run"
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " "), r))
t = t.replace("@@PROPS@@", props).replace("@@FIXES@@", fx).replace("@@SEEDS@@", "\n".join(rows))
open(R + "/DESIGN.md", "w", encoding="utf8").write(t)
