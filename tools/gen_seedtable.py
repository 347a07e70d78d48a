#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (documentation only; no check uses it)."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(root + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append((m['property'], os.path.basename(d[:-1]), m['needs'].replace('|', '/'), m.get('caught', '')))
rows.sort()
p = root + '/DESIGN.md'
head = open(p).read().split('<!-- seeds -->')[0]
with open(p, 'w') as f:
    f.write(head + '<!-- seeds -->\n\n| property | planted bug | needs | also caught by |\n|---|---|---|---|\n')
    for pr, i, n, c in rows:
        f.write('| %s | `%s` | %s | %s |\n' % (pr, i, n, c))
