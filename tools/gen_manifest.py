#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the configured checks and the property list."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from config import CHECKS, TECH  # noqa: E402
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
NOTE = ('Exploration: decides the executions it runs (seeded, reproducible, the number and kind are in the evidence file), no more. '
        'Trusts the compilers, sanitizer run-times, Eigen, and the reference written from the documentation in harness/ref.hpp.')
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: every monitor works through the public interface, so the checks run the code users run. '
              'Known findings and repaired defects are in known_findings.json.'}
for p in props:
    i = p['id']
    if i in CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i], 'level': 'exploration', 'level_note': NOTE})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'the check is not built yet'})
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not claimed')
