#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (rule texts, planted bugs) from the registry and seeded/."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from snapverif import registry
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
t = open(os.path.join(V, "tools", "DESIGN.head.md")).read()
out = []
for p in P:
    out.append("### %s — %s\n" % (p["id"], p["title"]))
    r = registry.RULES.get(p["id"])
    if r:
        out.append("*Technique*: %s.\n\n*Rule*: %s\n\n*Reach*: %s Tests cannot: %s\n" % (r.technique, r.text, r.note, p["why_tests_cant"]))
        extra = [a for a in r.assumptions if a not in registry.BASE]
        if extra:
            out.append("*Assumes*: " + "; ".join(extra) + ".\n")
    else:
        import runpy
        na = [c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["not_applicable"] if c["property"] == p["id"]]
        out.append("Not applicable: %s\n" % (na[0]["reason"] if na else "?"))
t = t.replace("@RULES@", "\n".join(out))
rows = []
res = {}
rp = os.path.join(V, "tools", "caught.json")
if os.path.exists(rp):
    res = json.load(open(rp))
sd = os.path.join(V, "seeded")
for i in sorted(os.listdir(sd)):
    mp = os.path.join(sd, i, "meta.json")
    if os.path.exists(mp):
        m = json.load(open(mp))
        rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), ", ".join(res.get(i, [])) or "none"))
t = t.replace("@SEEDED@", "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
t = t.replace("@FIXES@", "\n".join("- `%s` (%s) %s" % (l.split()[2], l.split()[1].split("=")[1], " ".join(l.split()[3:])) for l in open(os.path.join(V, "known_findings.txt")) if l.startswith("fixed:")))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
