#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json (documentation only)."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
i = s.index("## Planted bugs")
rows = []
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "\\|"), d.get("first", "caught")))
s = s[:i] + """## Planted bugs

Each passes the existing tests and breaks the property named; its check (and
often others) reports it. "strengthened" in the last column: the check missed it
at first and was extended.

| bug | caught by | needs | first run |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(p, "w").write(s)
