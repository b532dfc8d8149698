#!/usr/bin/env python3
"""Appends the table of planted bugs (from /verif/seeded/*/meta.json) to DESIGN.md; results come from seeded/results.json."""
import json, os, glob, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
R = json.load(open(H + '/seeded/results.json')) if os.path.exists(H + '/seeded/results.json') else {}
o = ['## Planted bugs and the checks that catch them', '', '| bug | property | needs | caught by (runs until found) |', '|---|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    i = d.split('/')[-2]; m = json.load(open(d))
    o.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), R.get(i, '?')))
s = open(H + '/DESIGN.md').read()
s = re.sub(r'\n## Planted bugs and the checks.*', '', s, flags=re.S).rstrip('\n')
open(H + '/DESIGN.md', 'w').write(s + '\n\n' + '\n'.join(o) + '\n')
