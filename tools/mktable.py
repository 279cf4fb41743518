#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read()
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").split(". ")[0]))
L = t.split("\n")
i = [k for k, l in enumerate(L) if re.match(r"\| [a-z]?\w+-[\w-]+ \| C\d\d \|", l)]
L[i[0]:i[-1] + 1] = rows
open(V + "/DESIGN.md", "w").write("\n".join(L))
print(len(rows))
