#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
from props import PROPERTIES, NOT_APPLICABLE, HOOKS
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPERTIES:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 /verif/check.py setup', 'checks': [], 'not_applicable': []}
if HOOKS: m['hooks'] = HOOKS
for p in PROPERTIES:
    if p['id'] in NOT_APPLICABLE: m['not_applicable'].append({'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]}); continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 /verif/check.py run %s quick' % p['id'], 'thorough_cmd': 'python3 /verif/check.py run %s thorough' % p['id'],
        'technique': p.get('technique', 'symbolic execution of the LLVM bitcode compiled from the current sources (symx) with z3 deciding every assertion and branch; counterexamples replayed on a native ASan build'),
        'level': 'model_checking', 'level_note': p['level_note'], 'evidence_file': 'evidence/%s.json' % p['id']})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
