#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules and the list of properties that are not claimed."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        m = importlib.import_module('checks.' + i.lower())
        checks.append({'property': i, 'quick_cmd': 'python3 checks/run.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 checks/run.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': m.TECHNIQUE if hasattr(m, 'TECHNIQUE') else
                       'abstract interpretation of the Python source (points-to, ownership, value numbering)',
                       'level': 'other',
                       'level_note': m.EXPLANATION + ' Assumes: ' + '; '.join(getattr(m, 'ASSUMPTIONS', [])) + '.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for this property yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'Known findings and repaired defects: known_findings.json. No hooks in /repo.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
