#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", i, "meta.json")))
    rows.append((m["property"], i, m["needs"]))
rows.sort()
t = "| property | change | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in rows)
p = os.path.join(H, "DESIGN.md"); s = open(p).read()
s = re.sub(r"\| property \| change \| needs \|\n\|---\|---\|---\|\n(\|.*\n)*", lambda m: t, s)
open(p, "w").write(s)
