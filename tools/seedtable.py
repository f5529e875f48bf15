#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.

The check that catches a bug is that of its property, as 'mkseed.py --check' confirmed when it was made."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}   # id -> note, for bugs the property's check does not catch
rows = ['| bug | caught by | breaks | needs |', '| --- | --- | --- | --- |']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (d, MISSED.get(d, m['property']), *(m[k].replace('|', '\\|') for k in ('what_it_breaks', 'needs'))))
p = V + '/DESIGN.md'
t = open(p).read().replace('SEEDTABLE', '<!-- seeds -->\n')
open(p, 'w').write(t[:t.index('<!-- seeds -->')] + '<!-- seeds -->\n\n' + '\n'.join(rows) + '\n')
