#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md and the planted bugs; not run by any check."""
import json, os
T = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(T)
st = json.load(open(T + '/seeded_status.json'))
first = json.load(open(T + '/seeded_missed_first.json'))
out = open(T + '/design_head.md').read()
bugs = sorted(os.listdir(R + '/seeded'))
res = {b: 'caught' if 'caught' in st.get(b, '') else 'missed' for b in bugs}
n = sum(r == 'caught' for r in res.values())
out += '''## 7. Planted bugs

%d bugs were planted (`seeded/`, made and confirmed by `tools/mkbug.py`); the check of
their property catches %d. %d were missed when first planted; what was
strengthened because of them is noted.

| bug | what it needs | caught by | note |
|---|---|---|---|
''' % (len(bugs), n, len([b for b in bugs if b in first]))
for b in bugs:
    m = json.load(open(R + '/seeded/' + b + '/meta.json'))
    out += '| %s | %s | %s | %s |\n' % (b, m['needs'].replace('|', '\\|'), m['property'] if res[b] == 'caught' else '**none**', ('first missed: ' + first[b]) if b in first else '')
open(R + '/DESIGN.md', 'w').write(out)
