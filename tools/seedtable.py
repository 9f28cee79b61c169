#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(f'{H}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, m['needs']))
rows.sort()
t = '| caught by | change | needs |\n|---|---|---|\n' + ''.join(f'| {p} | {d} | {n} |\n' for p, d, n in rows)
f = H + '/DESIGN.md'
s = open(f).read()
s = re.sub(r'<!-- seeds -->.*?<!-- end -->', lambda _: f'<!-- seeds -->\n{len(rows)} changes:\n\n{t}<!-- end -->', s, flags=re.S)
open(f, 'w').write(s)
