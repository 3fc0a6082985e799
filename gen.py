#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions in props/*.json."""
import json, os, glob
H = os.path.dirname(os.path.abspath(__file__))
TECH = 'contract-based deductive verification: obligations generated from the LLVM IR of the real code, discharged by normalisation and SMT (z3, cvc5)'
props = [json.load(open(f)) for f in sorted(glob.glob(H + '/props/*.json'))]
checks, na = [], []
with open(H + '/properties.jsonl', 'w') as out:
    for p in props:
        out.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        if 'not_applicable' in p:
            na.append({'property': p['id'], 'reason': p['not_applicable']})
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 engine/check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 engine/check.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH, 'level': p.get('level', 'proof'), 'level_note': p['level_note']})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile the unmodified sources', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'The repairs made in /repo are listed in known_findings.txt. See DESIGN.md.'}, open(H + '/MANIFEST.json', 'w'), indent=1)
for p in props: assert len(p['title']) <= 80, p['id']
