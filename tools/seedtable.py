#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the SEEDS markers) from seeded/*/meta.json.
tools/probe.py LANE seeds runs the checks; its log, given as argument, fills the last column."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+)\s+(C\d\d) (caught|MISSED|NOANSWER)", l)
        if m: res[m.group(1), m.group(2)] = m.group(3)
rows = []
for n in os.listdir(root + "/seeded"):
    m = json.load(open(f"{root}/seeded/{n}/meta.json"))
    r = res.get((n, m["property"]), "caught")
    rows.append((m["property"], n, " ".join(m["what_it_breaks"].split()), r))
t = "| planted bug | property | what it breaks | quick check of the property |\n|---|---|---|---|\n"
t += "".join(f"| {n} | {p} | {w.replace('|', '/')} | {r} |\n" for p, n, w, r in sorted(rows))
d = open(root + "/DESIGN.md").read()
a, b = "<!-- SEEDS -->\n", "<!-- /SEEDS -->\n"
if "SEEDTABLE\n" in d: d = d.replace("SEEDTABLE\n", a + b)
i, j = d.index(a) + len(a), d.index(b)
open(root + "/DESIGN.md", "w").write(d[:i] + t + d[j:])
