#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seeds/results.tsv."""
import json, os, re
V = "/verif"; r = {l.split("\t")[0]: l.split("\t")[2] for l in open(V + "/tools/seeds/results.tsv").read().splitlines()}
rows = ["| bug | property | needs | verdict |", "|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b))); t = r.get(b, "")
    v = ", ".join("%s %s" % (c, "catches it" if w == "CAUGHT" else "misses it") for c, w in re.findall(r"\b(C\d\d): (?:\*\*\* )?(CAUGHT|MISSED)", t))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "\\|"), v or "?"))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- table -->.*?<!-- /table -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s); print(len(rows) - 2, "bugs")
