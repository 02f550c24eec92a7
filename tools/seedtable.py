#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md (between the SEEDTABLE markers); first results are kept in tools/seedresults.txt."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = dict(l.rstrip("\n").split("\t") for l in open(V + "/tools/seedresults.txt") if "\t" in l)
rows = ["| planted change | property | needs | first run | now |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json")); f = first.get(i, "caught|caught").split("|")
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {f[0]} | {f[1]} |")
p = V + "/DESIGN.md"; s = open(p).read(); t = "<!-- SEEDTABLE -->\n" + "\n".join(rows) + "\n<!-- /SEEDTABLE -->"
if "<!-- SEEDTABLE -->" in s: s = re.sub(r"<!-- SEEDTABLE -->.*?<!-- /SEEDTABLE -->", lambda _: t, s, flags=re.S)
else: s = s.replace("SEEDTABLE", t, 1)
open(p, "w").write(s)
