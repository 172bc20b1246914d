#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(f'{root}/tools/caught.json'))
rows = ['| planted bug | property | what it breaks | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '\\|'), caught.get(d, '?')))
p = f'{root}/DESIGN.md'
s = open(p).read()
mark = '<!-- planted bugs -->'
s = s[:s.index(mark)] + mark + '\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
