#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from specs.registry import REGISTRY, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3-vt tools/selfcheck.py', 'checks': [], 'not_applicable': []}
for p in props:
    r = REGISTRY.get(p)
    if not r or p in NOT_APPLICABLE:
        m['not_applicable'].append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check has been built for it yet')})
        continue
    m['checks'].append({'property': p, 'quick_cmd': 'python3-vt run_check.py %s' % p,
                        'thorough_cmd': 'python3-vt run_check.py %s --tier thorough' % p,
                        'evidence_file': 'evidence/%s.json' % p,
                        'technique': r.get('technique', 'contract-based deductive verification of the real code (pyded: VCs generated from /repo sources on every run, discharged by z3), refutations replayed on the real code'),
                        'level': r.get('level', 'proof'), 'level_note': r['note']})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
