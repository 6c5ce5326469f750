#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(here + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(d[:-1]), m['property'], m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|')))
p = here + '/DESIGN.md'
t = open(p).read()
i = t.index('| planted bug |')
head = '| planted bug | caught by | needs | breaks |\n|--|--|--|--|\n'
open(p, 'w').write(t[:i] + head + '\n'.join(rows) + '\n')
