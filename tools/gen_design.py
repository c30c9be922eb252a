#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md (results: recheck log given as argument, default the recorded ones)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
d = open(V + "/DESIGN.md").read()
head, _, tail = d.partition("<!-- seeded table -->\n")
for l in tail.split("\n"):
    m = re.match(r"\| (\S+) \| (\S+) \| (\w+) \|", l)
    if m: res[m[1]] = m[3]
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (C\d\d )?(CAUGHT|MISSED)", l)
        if m: res[m[1]] = m[3].lower()
out = ["| bug | check | result | what it breaks | needs |", "|-|-|-|-|-|"]
for i in sorted(os.listdir(V + "/seeded")):
    p = V + "/seeded/%s/meta.json" % i
    if os.path.exists(p):
        m = json.load(open(p))
        out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], res.get(i, "?"), m["what_it_breaks"], m["needs"]))
open(V + "/DESIGN.md", "w").write(head + "<!-- seeded table -->\n" + "\n".join(out) + "\n")
