#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = 'TLC model checking of the TLA+ specification %s; %s'
CHECKS = {}


def check(p, technique, note):
    CHECKS[p] = {'property': p, 'quick_cmd': 'python3 check.py %s' % p,
                 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p,
                 'evidence_file': 'evidence/%s.json' % p, 'technique': technique, 'level': 'model_checking', 'level_note': note}


ROS = ('Driver.tla is model-checked for the property on all scripts and environments within bounds; generated ROS tests, compiled against '
       'a stand-in for roscpp, are run under every schedule of bounded length plus deviations from the scripted path and random walks, and '
       'every observation is checked by TLC against the same specification. Trusts g++, the stand-in and the log wording.')
for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06'):
    check(p, MC % ('Driver', 'its one-trace form (Position) proved with TLAPS for traces of any length and shown by TLC to be refined; '
                   'schedules replayed into the compiled generated tests and checked by TLC (TraceDriver)'), ROS)
check('C20', MC % ('Driver', 'animated programs run on typed schedules and checked by TLC (TraceDriver)'),
      ROS.replace('ROS tests, compiled against a stand-in for roscpp,', 'animated tests') + ' Values with white space cannot be typed in.')

exec(open(os.path.join(HERE, 'tools', 'manifest_more.py')).read())

props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [CHECKS[p] for p in props if p in CHECKS],
     'not_applicable': [{'property': p, 'reason': 'check under construction'} for p in props if p not in CHECKS],
     'notes': 'No hooks in /repo: tools are built from the working tree, internal packages are reached through a go build overlay.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
