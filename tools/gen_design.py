#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (documentation only)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(V + '/seeded/*/meta.json'):
    d = json.load(open(m))
    rows.append((d['property'], os.path.basename(os.path.dirname(m)), d['needs']))
p = V + '/DESIGN.md'
s = open(p).read()
i = s.index('| property | planted bug | needs |')
s = s[:i] + '| property | planted bug | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % r for r in sorted(rows))
open(p, 'w').write(s)
print(len(rows), 'planted bugs')
