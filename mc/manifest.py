#!/usr/bin/env python3
# writes /verif/MANIFEST.json from properties.jsonl and the table below
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
T = {}
def c(i, tech, note, level='model_checking'): T[i] = (tech, level, note)
exec(open(R + '/mc/manifest_table.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in T and os.path.exists(f'{R}/mc/checks/{i}.cpp'):
        t, lv, n = T[i]
        checks.append({'property': i, 'quick_cmd': f'bash mc/check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough bash mc/check.sh {i}',
                       'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': lv, 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash mc/setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check rebuilds the implementation from /repo (AddressSanitizer) and explores it exhaustively within the bounds given in DESIGN.md. No hooks in /repo are needed.'},
          open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na], 'not')
