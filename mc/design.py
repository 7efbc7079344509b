#!/usr/bin/env python3
"""Refresh the table of planted bugs in DESIGN.md (run by hand)."""
import glob, json, os, re
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|-|-|-|"]
for f in sorted(glob.glob(base + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |")
p = base + '/DESIGN.md'
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, 'w').write(s)
