#!/usr/bin/env python3
"""Writes MANIFEST.json from programs.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, H)
from programs import PROPERTIES, TECHNIQUE, NOTE
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPERTIES:
        checks.append({'property': i, 'quick_cmd': 'python3 run_check.py %s quick' % i,
                       'thorough_cmd': 'python3 run_check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': TECHNIQUE.get(i, TECHNIQUE['*']), 'level': 'model_checking',
                       'level_note': NOTE.get(i, NOTE['*'])})
    else:
        na.append({'property': i, 'reason': 'no check registered'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are compiled into /repo; every check drives the unmodified public API. The fix: commits in /repo are listed in KNOWN_FINDINGS.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
