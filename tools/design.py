#!/usr/bin/env python3
"""Regenerates the per-property part of DESIGN.md from the table (between the two markers)."""
import json, os, re, subprocess, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(f"{HERE}/contracts/props.json"))
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
man = json.load(open(f"{HERE}/MANIFEST.json"))
notes = json.load(open(f"{HERE}/tools/design_notes.json"))
na = {n["property"]: n["reason"] for n in man["not_applicable"]}
lev = {c["property"]: c["level"] for c in man["checks"]}
out = []
for p in props:
    i = p["id"]
    if i in na:
        out.append(f"### {i} (not applicable) {p['title']}\n\n{na[i]}\n")
        continue
    c = conf[i]
    s = f"### {i} {p['title']}\n\n"
    s += f"*Level:* {lev[i]}. *Proved units:* {', '.join('`'+u+'`' for u in c['units']) or 'none'}"
    if c["focus"]:
        s += " (only failures in the functions this property rests on count; see `focus` in `contracts/props.json`)"
    s += ".\n\n"
    if i in notes:
        s += notes[i].strip() + "\n\n"
    s += f"*Bounded run (never counted as proved):* {c['bounded']}."
    if c["bounded_only"]:
        s += f" *Only bounded:* {'; '.join(c['bounded_only'])}."
    s += "\n\n*Assumed:* " + "; ".join(c["assumptions"][1:] or ["nothing beyond the common assumptions"]) + ".\n"
    out.append(s)
d = open(f"{HERE}/DESIGN.md").read()
d = re.sub(r"(<!-- properties -->).*(<!-- end properties -->)", lambda m: m.group(1) + "\n\n" + "\n".join(out) + "\n" + m.group(2), d, flags=re.S)
open(f"{HERE}/DESIGN.md", "w").write(d)
print("ok")
