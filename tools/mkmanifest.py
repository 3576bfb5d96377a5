#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from manifest_notes import NOTES, NA
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTES:
        checks.append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='VERIF_TIER=thorough ./check %s' % i,
                           technique='TLA+ specification model-checked with TLC; behaviours replayed in the code, recorded traces decided by TLC',
                           level='model_checking', level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='TLA+ specifications in specs/, drivers in checks/, shared machinery in lib/vf.py; see DESIGN.md'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
