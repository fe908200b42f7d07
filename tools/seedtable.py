"""Prints section 6 of DESIGN.md's table from seeded/*/meta.json."""
import glob
import json
import os

by = {}
for p in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '..', 'seeded', '*', 'meta.json'))):
    m = json.load(open(p))
    by.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(p)), m))
print('| check | planted bug | what it needs | what it breaks |\n|---|---|---|---|')
for k in sorted(by):
    for i, (name, m) in enumerate(by[k]):
        print('| %s | %s | %s | %s |' % (k, name.split('-', 1)[1], m['needs'], m['what_it_breaks']))
