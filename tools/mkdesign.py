#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "DESIGN.md")
head = "| planted bug | caught by | what it takes to show |\n|---|---|---|\n"
s = open(D).read()
s = s[:s.index(head)] + head
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    s += "| %s | %s | %s |\n" % (f.split("/")[-2], m.get("caught_by", m["property"]), m["needs"].replace("|", "/").replace("\n", " "))
open(D, "w").write(s)
