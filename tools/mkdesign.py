#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = H + '/DESIGN.md'
s = open(p).read()
mark = '## Planted bugs'
i = s.index('\n\n', s.index('quick check of its property'))
missed = set(open(H + '/tools/missed.txt').read().split())
rows = ['| bug | needs | breaks |', '|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    rows.append('| %s%s | %s | %s |' % (d, '*' if d in missed else '', m['needs'], m['what_it_breaks']))
open(p, 'w').write(s[:i] + '\n\n' + '\n'.join(rows) + '\n')
