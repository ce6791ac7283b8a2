#!/usr/bin/env python3
"""Rewrites section 4 of DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = d.split('/')[-2]
    rows.append('| %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/')))
first_missed = open(R + '/tools/seeds_missed_first.md').read()
s = '''## 4. Planted bugs

Each was written from the text of the property and the code; each compiles, passes the 65 tests and has a demonstration.
All %d are caught by the quick check of the property in the second column (exit 1, replay confirmed on the native build).

| change | caught by | needs |
|---|---|---|
%s

%s
''' % (len(rows), '\n'.join(rows), first_missed)
p = R + '/DESIGN.md'; t = open(p).read()
if 'SEEDTABLE' in t: t = t.replace('SEEDTABLE\n', s)
else: t = re.sub(r'## 4\. Planted bugs.*?(?=## 5\.)', lambda _: s + '\n', t, flags=re.S)
open(p, 'w').write(t)
