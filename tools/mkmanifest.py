#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(f'{R}/properties.jsonl')]
TECH = json.load(open(f'{R}/tools/technique.json'))
checks, na = [], []
for p in props:
    if os.path.exists(f'{R}/checks/{p}.py'):
        t, lvl, note = TECH[p]
        checks.append({'property': p, 'quick_cmd': f'python3 check.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p}',
                       'evidence_file': f'evidence/{p}.json', 'technique': t, 'level': lvl, 'level_note': note})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(f'{R}/MANIFEST.json', 'w'), indent=1)
