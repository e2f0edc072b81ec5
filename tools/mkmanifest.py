#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import suites
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in suites.CHECKS:
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    tech, note = suites.NOTES.get(i, ('TLA+ model and trace validation with TLC', ''))
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i,
                   'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': 'model_checking',
                   'level_note': note or suites.DEFAULT_NOTE})
m = {'version': 1, 'setup_cmd': 'python3 lib/build.py asan && python3 lib/build.py tsan harness && python3 lib/build.py soft harness', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every behaviour is observed through public functions and the command line tool.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
