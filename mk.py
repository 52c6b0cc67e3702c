#!/usr/bin/env python3
"""Regenerate MANIFEST.json (claimed checks = the properties that have harness entries in specs.py)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import specs
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
NA = getattr(specs, 'NOT_APPLICABLE', {})
checks, na = [], []
for p in props:
    i = p['id']
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
            technique='solver-based bounded symbolic execution of the LLVM IR compiled from /repo (engine/symx.cpp over z3), counterexamples replayed on an AddressSanitizer build',
            level='model_checking', level_note='Exhaustive over all values within: %s. Outside the claim: %s.' % (s['bounds'], s['outside'])))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='make -C engine', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
