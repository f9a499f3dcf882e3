#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + the list of planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip('\n'), '', '| bug | check | needs |', '|---|---|---|']
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    out.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'].replace('|', '\\|')))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
