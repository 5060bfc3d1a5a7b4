#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties with a built check."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(root / 'properties.jsonl')]
NOTES = json.load(open(root / 'tools' / 'levels.json'))
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTES.get(i)
    if n is None:
        na.append({'property': i, 'reason': 'No check has been built for it yet.'})
    elif 'na' in n:
        na.append({'property': i, 'reason': n['na']})
    else:
        checks.append({
            'property': i,
            'quick_cmd': f'./check {i} quick',
            'thorough_cmd': f'./check {i} thorough',
            'technique': n['technique'],
            'level': n.get('level', 'model_checking'),
            'level_note': n['note'],
        })
json.dump({'version': 1, 'setup_cmd': './check build', 'checks': checks, 'not_applicable': na},
          open(root / 'MANIFEST.json', 'w'), indent=1)
