#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_*.py (run after editing a property)."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
props = []
for m in ('props_polygons', 'props_bspline', 'props_gmsh'):
    if os.path.exists(os.path.join(HERE, m + '.py')):
        props += importlib.import_module(m).PROPS
checks, na = [], []
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props:
        rec = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
               'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
               'anchors': {'files': p['files'], 'mechanism': p['mech']}}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(rec) + '\n')
        if p.get('na'):
            na.append({'property': p['id'], 'reason': p['na']})
        else:
            assert os.path.exists(os.path.join(ROOT, 'checks', p['id'] + '.py')), p['id']
            checks.append({'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'], 'thorough_cmd': './run.sh %s thorough' % p['id'],
                           'technique': p.get('tech', 'runtime monitoring: generated operation histories on the real code, online comparison with an exact independent oracle'),
                           'level': 'exploration',
                           'level_note': p.get('note', 'Held on the executions counted in the evidence file; assumes the oracle (exact rational arithmetic, written independently of the code) and the stated input regime.')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: all monitors observe public state from outside. Python code is imported from /repo/src directly, nothing is built.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
