#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (between the BEGIN/END markers) from seeded/, mutants.py and refactors.py."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import mutants, refactors
also = {}
path = os.path.join(V, 'tools', 'seeds', 'caught.json')
if os.path.exists(path):
    also = json.load(open(path))
rows = ['| planted bug | needs | caught by |', '|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    n = os.path.basename(d)
    rows.append('| %s | %s | %s |' % (n, m['needs'], also.get(n, 'not yet run')))
by = {}
for m in mutants.M:
    for p in m[1]:
        by.setdefault(p, []).append(m[0])
mut = ['* %s: %s' % (p, ', '.join(by[p])) for p in sorted(by)]
keep = ', '.join(k[0] for k in refactors.KEEP)
s = open(os.path.join(V, 'DESIGN.md')).read()
for tag, text in (('SEEDS', '\n'.join(rows)), ('MUTANTS', '\n'.join(mut)), ('KEEP', keep)):
    s = re.sub('<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, text, tag), s, flags=re.S)
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
