#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (caught: found by tools/seed.py)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} – {m['what_it_breaks']} (needs: {m['needs']}) | {m['property']} | {m.get('caught', m['property'])} |")
p = root + '/DESIGN.md'
s = open(p).read()
head = '| planted bug | property | caught by |\n| --- | --- | --- |\n'
a = s.index(head) + len(head)
b = s.index('\n\n', a)
open(p, 'w').write(s[:a] + '\n'.join(rows) + s[b:])
