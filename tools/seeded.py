#!/usr/bin/env python3
"""Puts the table of planted changes into DESIGN.md (caught/how comes from tools/seed/results.json)."""
import json, os, re, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(f"{HERE}/tools/seed/results.json"))
rows = ["| change | property | needs | check |", "|---|---|---|---|"]
for d in sorted(glob.glob(f"{HERE}/seeded/*")):
    i = os.path.basename(d)
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, 'not run')} |")
d = open(f"{HERE}/DESIGN.md").read()
d = re.sub(r"(<!-- seeded -->).*(<!-- end seeded -->)", lambda m: m.group(1) + "\n\n" + "\n".join(rows) + "\n\n" + m.group(2), d, flags=re.S)
open(f"{HERE}/DESIGN.md", "w").write(d)
