"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (all verified with the check named)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
    rows.append((m['property'], b, m['needs']))
s = open(os.path.join(V, 'DESIGN.md')).read()
mark = '<!-- planted -->\n'
s = s[:s.index(mark)] + mark + '| caught by | change | needs |\n|---|---|---|\n' + \
    ''.join(f'| {p} | {b} | {n} |\n' for p, b, n in sorted(rows))
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
