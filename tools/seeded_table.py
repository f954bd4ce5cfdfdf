#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md from a run of `tools/variants/variants.py -b`:
   tools/seeded_table.py RUN.out"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+): (C\d+) (caught|MISSED)(.*)", l)
    if m:
        got[m.group(1)] = (m.group(3), " ".join(m.group(4).split()[:3]))
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    p = os.path.join(ROOT, "seeded", d, "meta.json")
    if not os.path.exists(p):
        continue
    m = json.load(open(p))
    r = got.get(d, ("not run", ""))
    keys = r[1] if len(r[1]) < 90 else r[1][:87] + "..."
    rows.append((m["property"], d, m["what_it_breaks"].split("\n")[0][:110], r[0], keys))
rows.sort()
t = ["| property | planted bug | what it breaks | result | violated obligation(s) |", "|---|---|---|---|---|"]
t += ["| %s | %s | %s | %s | %s |" % tuple(str(x).replace("|", "/") for x in r) for r in rows]
n = sum(r[3] == "caught" for r in rows)
t = ["%d planted bugs, %d caught by the check of their property." % (len(rows), n), ""] + t
f = os.path.join(ROOT, "DESIGN.md")
s = open(f).read()
a, b = "<!-- seeded -->", "<!-- /seeded -->"
i, j = s.index(a) + len(a), s.index(b)
open(f, "w").write(s[:i] + "\n" + "\n".join(t) + "\n" + s[j:])
