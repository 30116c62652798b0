#!/usr/bin/env python3
"""Writes the table of planted bugs between the markers in DESIGN.md."""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[-2]
    rows.append("| %s | %s | %s | %s | %s |" % (i, m['property'], m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|'), m.get('caught_by', m['property'] + ' (quick)')))
d = open(R + '/DESIGN.md').read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
d = re.sub(r'(?s)<!-- planted -->.*<!-- /planted -->', lambda _: t, d) if '<!-- planted -->' in d else d.replace('SEEDTABLE', t)
open(R + '/DESIGN.md', 'w').write(d)
