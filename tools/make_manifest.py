#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property that has a check module, the rest under not_applicable."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = {}
NOTE = {}
exec(open(V + '/tools/manifest_notes.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/mc/checks/%s.py' % (V, i.lower())) and i in TECH:
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'technique': TECH[i], 'level': 'model_checking', 'level_note': NOTE[i]})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
