#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, re
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob('seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append(f"| {d[7:]} | {m['property']} | {m['needs'].replace('|', '/')} | {m['property']} quick |")
s = open('DESIGN.md').read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open('DESIGN.md', 'w').write(s)
