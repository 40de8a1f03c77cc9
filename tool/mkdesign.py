#!/usr/bin/env python3
"""mkdesign.py: rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/verif/seeded"
rows = ["| seeded change | caught by | what it breaks |", "|---|---|---|"]
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    rows.append("| %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
b, e = "<!-- seeds -->", "<!-- /seeds -->"
t = b + "\n" + "\n".join(rows) + "\n" + e
s = s.replace("@@SEEDS@@", t) if "@@SEEDS@@" in s else re.sub(re.escape(b) + ".*" + re.escape(e), lambda _: t, s, flags=re.S)
open(p, "w").write(s)
