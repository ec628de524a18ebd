#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json (documentation only)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    p = f"{root}/seeded/{d}/meta.json"
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append(f"| {d} | {m['property']} | {m['needs'].strip()} | {m.get('caught', 'own check')} |")
t = "<!-- matrix -->\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /matrix -->"
f = root + "/DESIGN.md"
s = open(f).read()
s = re.sub(r"<!-- matrix -->.*?<!-- /matrix -->", lambda _: t, s, flags=re.S)
open(f, "w").write(s)
print(len(rows))
