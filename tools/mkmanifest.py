#!/usr/bin/env python3
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i in props.CHECKS:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s' % i,
                       'technique': props.TECHNIQUE.get(i, 'TLA+ specification checked with TLC, model predictions replayed in the code and recorded traces validated by TLC'),
                       'level': 'model_checking', 'level_note': props.NOTES[i]})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': 'check not built yet'} for i in ids if i not in props.CHECKS],
     'notes': 'Every check builds the driver (driver/) against the working tree of /repo in a scratch directory, runs cases on the real code and lets TLC decide them with the specifications in spec/. No hooks in /repo are needed.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
