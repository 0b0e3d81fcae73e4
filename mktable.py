"""Prints the table of planted bugs for DESIGN.md (run by hand; the outcome column comes from the file given)."""
import json
import os
import sys

res = {}
for line in open(sys.argv[1]):
    p = line.split(' ', 3)
    if len(p) >= 3 and p[1].startswith('C') and p[2].startswith(('CAUGHT', 'MISSED')):
        res[p[0]] = p[2]
print('| bug | property | needs | quick check |\n|---|---|---|---|')
for d in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % d))
    print('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), res.get(d, '?').lower()))
