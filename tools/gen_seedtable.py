#!/usr/bin/env python3
"""Rewrites section 5 (planted bugs) of DESIGN.md from seeded/*/meta.json. Development aid, not used by any check."""
import json, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(H + '/DESIGN.md').read()
k = '\n## 5. Planted bugs'
if k in s: s = s[:s.index(k)]
s = s.rstrip() + '\n' + k + ''' and what catches them

Each was written from the property text and the code, confirmed by its demo, and run against the property's quick check
(`VERIF_SEED=1`). All listed ones are caught by the quick check of the property named.

| planted bug | caught by | needs | breaks |
|---|---|---|---|
'''
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    s += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['what_it_breaks'])
open(H + '/DESIGN.md', 'w').write(s)
