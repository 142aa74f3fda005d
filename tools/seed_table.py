#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(os.path.join(root, 'seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'].replace('|', '\\|').replace('\n', ' ')))
t = '| check | change | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % r for r in sorted(rows))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'\| check \| change \| needs \|\n(\|.*\n)+', lambda _: t, s)
open(p, 'w').write(s)
print(len(rows))
