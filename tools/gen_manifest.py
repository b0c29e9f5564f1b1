#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from lib/table.py and properties.jsonl (run by hand).
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lib import table
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in table.CHECKS:
        t = table.CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s' % i, 'thorough_cmd': 'python3 run.py %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': t.get('technique', 'property-based testing against an independent reference model, coverage-guided'),
                       'level': 'exploration',
                       'level_note': t.get('note', 'Random, grid and coverage-guided cases against an independent reference; no claim beyond the cases generated. Trusts g++, nasm, the references in lib/ref.cpp and the engine in lib/pbt.cpp.')})
    else:
        na.append({'property': i, 'reason': table.NOT_CLAIMED.get(i, 'The check is not built yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'run.py builds what a check needs from /repo (no hooks are used). KNOWN_FINDINGS.txt lists repaired and known defects.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
