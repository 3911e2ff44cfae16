#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, CHECKS, TRUST
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i not in CHECKS:
        na.append(dict(property=i, reason='its monitor is not built yet'))
        continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd=f'python3 run.py check {i}', thorough_cmd=f'python3 run.py check {i} --tier thorough',
                       technique=p['technique'], level=p.get('level', 'exploration'), level_note=p['note'] + ' ' + TRUST))
m = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the monitors sit in the harness, in the compiler instrumentation and at interposed library calls. See DESIGN.md.')
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
