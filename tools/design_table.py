#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, glob, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| planted bug | property (= check that catches it) | needs |\n|---|---|---|')
for f in sorted(glob.glob(R + '/*/meta.json')):
    m = json.load(open(f))
    print('| %s | %s | %s |' % (f.split('/')[-2], m['property'], m['needs'].replace('|', '/')))
