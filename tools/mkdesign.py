#!/usr/bin/env python3
"""DESIGN.md from tools/design.md and the planted changes with the last outcome of their checks (tools/seeds/outcome.json)."""
import json, os, glob
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = json.load(open(v + '/tools/seeds/outcome.json'))
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(v + '/seeded/*/meta.json')):
    i = d.split('/')[-2]; m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), o.get(i, '?')))
open(v + '/DESIGN.md', 'w').write(open(v + '/tools/design.md').read().replace('SEEDTABLE', '\n'.join(rows)))
