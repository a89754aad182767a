#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md (from seeded/*/meta.json)."""
import glob, json, os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| bug | property | needs | caught by |", "|----|----|----|----|"]
MISSED = {}
p = os.path.join(ROOT, "seeded", "missed.json")
if os.path.exists(p): MISSED = json.load(open(p))
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); k = os.path.basename(os.path.dirname(d))
    rows.append(f"| {k} | {m['property']} | {m['needs']} | {MISSED.get(k, m['property'])} |")
f = os.path.join(ROOT, "DESIGN.md")
s = open(f).read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = re.sub(r"<!-- seeded -->.*?<!-- end -->", lambda _: t, s, flags=re.S) if "<!-- seeded -->" in s else s.replace("SEEDTABLE", t)
open(f, "w").write(s)
