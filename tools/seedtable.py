#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
rows = ["| bug | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/s*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['property']} {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
p = "/verif/DESIGN.md"
s = open(p).read()
a, b = s.index("| bug | breaks"), s.index("\n\nMissed at first")
open(p, "w").write(s[:a] + "\n".join(rows) + s[b:])
