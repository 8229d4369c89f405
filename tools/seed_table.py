#!/usr/bin/env python3
"""Regenerates the table of planted bugs at the end of DESIGN.md."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
p = os.path.join(root, 'DESIGN.md')
d = os.path.join(root, 'seeded')
s = open(p).read()
h = '| id | property | file | breaks |\n|---|---|---|---|\n'
rows = []
for b in sorted(os.listdir(d)):
    m = json.load(open(f'{d}/{b}/meta.json'))
    f = re.findall(r'^\+\+\+ b/(\S+)', open(f'{d}/{b}/patch.diff').read(), re.M)
    rows.append(f"| {b} | {m['property']} | {', '.join(f)} | {m['what_it_breaks'].replace('|', chr(92) + '|')[:110]} |")
open(p, 'w').write(s[:s.index(h)] + h + '\n'.join(rows) + '\n')
