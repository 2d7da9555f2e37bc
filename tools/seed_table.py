#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and a log of runs ("ID PROP rc=N ...")"""
import json, glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for p in sys.argv[1:]:
    for l in open(p):
        w = l.split()
        if len(w) >= 3 and w[2].startswith("rc="):
            res[w[0]] = (w[1], w[2] == "rc=1" and "VIOLATION" in l)
rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    r = res.get(i)
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], "?" if not r else r[0] if r[1] else "missed"))
p = V + "/DESIGN.md"
s = open(p).read()
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", "\n".join(rows))
else:
    a = s.index("| planted bug |")
    b = s.index("\n\n", a)
    s = s[:a] + "\n".join(rows) + s[b:]
open(p, "w").write(s)
