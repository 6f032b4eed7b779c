#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/ (what is claimed) and the reasons
below."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'level_notes.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOT:
        na.append({'property': i, 'reason': NOT[i]})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'bin/check %s' % i,
        'thorough_cmd': 'bin/check %s --thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract-based deductive verification of the source '
        '(pydv: symbolic execution with fold specifications and inferred '
        'inductive loop invariants, discharged by z3/cvc5)',
        'level': 'proof',
        'level_note': NOTES.get(i, NOTES['*'])})
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks,
           'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
