#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | change | needs | caught by |', '|---|---|---|---|---|']
R = {}
exec(open(V + '/tools/caught.py').read(), R)
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json')); i = os.path.basename(d)
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], R['CAUGHT'].get(i, '?')))
s = open(V + '/DESIGN.md').read()
b, e = '<!-- planted -->', '<!-- /planted -->'
s = s[:s.index(b) + len(b)] + '\n' + '\n'.join(rows) + '\n' + s[s.index(e):]
open(V + '/DESIGN.md', 'w').write(s)
