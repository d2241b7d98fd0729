#!/usr/bin/env python3
"""seedtable.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json; notes are kept."""
import json, os, re
d = '/verif/DESIGN.md'
s = open(d).read().split('\n')
i = next(k for k, l in enumerate(s) if l.startswith('| property | seed |'))
j = i + 2
notes = {}
while s[j].startswith('|'):
    c = [x.strip() for x in s[j].strip('|').split('|')]
    notes[c[1]] = c[3]
    j += 1
rows = []
for n in os.listdir('/verif/seeded'):
    m = json.load(open(f'/verif/seeded/{n}/meta.json'))
    rows.append((m['property'], n, m['what_it_breaks'].replace('|', '/'), notes.get(n, '')))
rows.sort()
s[i + 2:j] = ['| ' + ' | '.join(r) + ' |' for r in rows]
open(d, 'w').write('\n'.join(s))
