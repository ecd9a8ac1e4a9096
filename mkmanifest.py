#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of finished checks."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
CLAIMED = json.load(open(os.path.join(HERE, 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append(dict(property=i,
                           quick_cmd='/opt/venv/bin/python check.py %s' % i,
                           thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python check.py %s' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='deterministic simulation with fault injection: ' + CLAIMED[i]['technique'],
                           level='exploration', level_note=CLAIMED[i]['note']))
    elif i.startswith('N'):
        na.append(dict(property=i, reason='pure function of its input: no schedule, clock, fault, crash, randomness '
                                          'or history enters, so it is not a simulation target'))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python check.py --setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: all seams are outside the library (see DESIGN.md).')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
