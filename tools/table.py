#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from logs of tools/runseeds.sh (later logs win).
Usage: table.py LOG..."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
last, f = {}, os.path.join(V, "DESIGN.md")
text = open(f).read()
for m in re.finditer(r"^\| (\S+) \| (C\d+) \| (caught|missed), (\d+) s \|", text, re.M):
    last[m[1]] = (m[2], m[3], m[4])
for l in sys.argv[1:]:
    for x in open(l):
        m = re.match(r"(\S+)\s+(C\d+) rc=\d+ violation=\d+ (\d+)s\s+(\w+)", x)
        if m:
            last[m[1]] = (m[2], m[4].lower(), m[3])
rows = ["| planted bug | check | result (quick) | needs |", "|---|---|---|---|"]
where = {i: d for d in ("seeded", "seeded-extra") for i in os.listdir(f"{V}/{d}")}
for i in sorted(where):
    meta = json.load(open(f"{V}/{where[i]}/{i}/meta.json"))
    p, r, t = last.get(i, (meta["property"], "missed", "0"))
    n = meta["needs"].replace("|", "/").replace("\n", " ")
    rows.append(f"| {i} | {p} | {r}, {t} s | {n[:150]} |")
a, z = text.index("<!-- table -->"), text.index("<!-- /table -->")
open(f, "w").write(text[:a] + "<!-- table -->\n" + "\n".join(rows) + "\n" + text[z:])
print(sum(" caught, " in r for r in rows), "of", len(rows) - 2, "caught")
