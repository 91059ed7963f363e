#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
sys.dont_write_bytecode = True
import specs
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    s = specs.SPECS.get(p)
    if not s:
        continue
    checks.append({'property': p, 'quick_cmd': './check %s' % p, 'thorough_cmd': './check %s --tier thorough' % p,
                   'technique': s['technique'], 'level': s['level'], 'level_note': s['note']})
na = [{'property': p, 'reason': specs.NOT_BUILT.get(p, 'the check is not built yet')} for p in props if p not in specs.SPECS]
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'Each check compiles the library sources and its harnesses from /repo\'s working tree (headers included) '
              'into /verif/build, explores its bounded space and replays every failure before reporting it. '
              'No hooks are needed in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
