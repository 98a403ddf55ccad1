#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and tools/catches.txt
(lines: id property rc, as measured with the quick checks)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(os.path.join(here, 'tools/catches.txt')):
    p = l.split()
    if len(p) >= 3:
        caught.setdefault(p[0], {})[p[1]] = p[2]
rows = []
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    c = caught.get(d, {})
    by = ', '.join(p for p in sorted(c) if c[p] == 'rc=1') or ('missed' if c else 'not run')
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/').strip(), by))
f = os.path.join(here, 'DESIGN.md')
s = open(f).read().split('\n## Planted changes')[0].rstrip('\n')
s += '\n\n## Planted changes\n\nEach compiles, passes the 51 tests and comes with a demonstration; "caught by" is the quick check with\nseed 1.\n\n| change | property | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(f, 'w').write(s)
