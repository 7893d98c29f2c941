#!/usr/bin/env python3
"""Rewrites the table of the planted bugs at the end of DESIGN.md."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = '<!-- table written by tools/seeded_table.py -->\n'
rows = {}
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d['needs']))
out = [mark, '| caught by | planted bug | needs |\n', '|---|---|---|\n']
for p in sorted(rows):
    for n, needs in rows[p]:
        out.append('| %s | %s | %s |\n' % (p, n, ' '.join(needs.split()).replace('|', '/')[:160]))
f = root + '/DESIGN.md'
t = open(f).read().split(mark)[0]
open(f, 'w').write(t + ''.join(out))
