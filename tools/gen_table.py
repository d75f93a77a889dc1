#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {d.split('/')[-2]} | {m['needs']} | {m.get('caught_by', m['property'])} |")
s = open(R + "/DESIGN.md").read()
a, b = s.index("<!-- planted -->"), s.index("<!-- /planted -->")
open(R + "/DESIGN.md", "w").write(s[:a] + "<!-- planted -->\n" + "\n".join(rows) + "\n" + s[b:])
