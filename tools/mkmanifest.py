#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed if a harness decides it."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vcheck
V = vcheck.VERIF
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
hs = vcheck.load()
TECH = {'cbmc': 'bounded model checking of the real C sources with CBMC (SAT)',
    'symx': 'path-wise symbolic execution of the real code (LLVM IR from clang) with Z3 (SMT) deciding branches, assertions and memory accesses'}
checks, na = [], []
for p in props:
    mine = [h for h in hs if p in h.props]
    if not mine:
        na.append(dict(property=p, reason=NA.get(p, 'no check built yet')))
        continue
    src = sorted({s for h in mine for s in h.src})
    checks.append(dict(property=p,
        quick_cmd='python3 tools/vcheck.py %s --tier quick' % p,
        thorough_cmd='python3 tools/vcheck.py %s --tier thorough' % p,
        technique=' and '.join(TECH[e] for e in sorted({h.engine for h in mine})) +
            '; counterexamples and witnesses replayed through the natively compiled code',
        level='model_checking',
        level_note='Holds for every value within these bounds: ' +
            '; '.join(sorted({b for h in mine for b in h.bounds})) +
            '. Encodings regenerated from /repo on each run; exceeding a loop bound or time limit is never reported as success. '
            'Trusts the solver, the compiler front end and the environment models in /verif/lib (%s).' %
            ', '.join(sorted({l for h in mine for l in h.lib}) or ['none'])))
json.dump(dict(version=1,
    setup_cmd='python3 tools/vcheck.py --selftest',
    checks=checks, not_applicable=na,
    notes='No hooks in /repo are needed: the harnesses link the unmodified sources.'),
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', 'not claimed:', [x['property'] for x in na])
