#!/usr/bin/env python3
"""Regenerate MANIFEST.json: a check per property that has harnesses, the rest not applicable."""
import json, os, re, glob
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {}
for f in sorted(glob.glob(D + '/harness/*/*.go')):
    for l in open(f):
        m = re.match(r'//verif:.*\bprop=([P0-9,]+)', l)
        if m:
            for p in m.group(1).split(','):
                have.setdefault(p, set()).add(os.path.basename(f))
notes = json.load(open(D + '/tools/notes.json'))
na_reason = json.load(open(D + '/tools/na.json'))
checks, na = [], []
for l in open(D + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in have and p not in na_reason:
        checks.append({
            'property': p,
            'quick_cmd': 'bash run.sh check ' + p,
            'thorough_cmd': 'VERIF_TIER=thorough bash run.sh check ' + p,
            'technique': 'bounded symbolic execution of the Go SSA of the current tree, decided by SMT (z3, cvc5)',
            'level': 'model_checking',
            'level_note': notes.get(p, 'All values of the symbolic inputs within the stated bounds; see DESIGN.md.'),
        })
    else:
        na.append({'property': p, 'reason': na_reason.get(p, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'bash run.sh build', 'checks': checks, 'not_applicable': na}
json.dump(m, open(D + '/MANIFEST.json', 'w'), indent=1)
open(D + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'n/a')
