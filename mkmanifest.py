#!/usr/bin/env python3
"""Regenerates MANIFEST.json from ecv/props.py and properties.jsonl."""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ecv'))
import props
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
checks, na = [], []
for p in ids:
    if p in props.PROPS:
        P = props.PROPS[p]
        checks.append(dict(property=p, quick_cmd='python3-vt ecv/run.py %s' % p, thorough_cmd='python3-vt ecv/run.py %s' % p, evidence_file='evidence/%s.json' % p,
                           technique=P.get('technique', 'contract-based deductive verification of the C functions (weakest-precondition style obligations from the clang AST, z3/cvc5), concrete replay harness for failing inputs'),
                           level=P.get('level', 'proof'), level_note=P.get('note', 'Every obligation generated from the current source is discharged for all inputs; trusted: AST front end and translation, solver, listed axioms and external models; doubles as reals where stated.')))
    else:
        na.append(dict(property=p, reason=props.NA.get(p, 'not claimed yet')))
m = dict(version=1, setup_cmd='python3-vt -m compileall -q ecv', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
