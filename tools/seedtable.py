#!/usr/bin/env python3
"""seedtable.py LOG...: markdown table of the planted bugs; the logs are the
output of runs of the checks on them (id, property, rc=, VIOLATION line)."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for p in sys.argv[1:]:
    for l in open(p):
        m = re.match(r'(\S+)\s+(C\d\d) rc=(\d)(.*)', l)
        if m:
            x = 'missed' if m[3] != '1' else 'failed obligation' if 'no-failing-input-found' in m[4] else 'failing input'
            res[m[1]] = x
print('| bug | property | needs | what it breaks | reported with |\n|---|---|---|---|---|')
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, d)))
    print('| %s | %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks'], res.get(d, '?')))
