#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d['what_it_breaks'], d.get('caught_by', d['property'])))
p = V + '/DESIGN.md'
s = open(p).read()
i = s.index('## Planted bugs')
s = s[:i] + '## Planted bugs\n\n| id | property | needs | breaks | caught by |\n|----|----------|-------|--------|-----------|\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
