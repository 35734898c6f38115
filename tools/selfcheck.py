#!/usr/bin/env python3-vt
"""setup_cmd: nothing to build; makes sure the verifier, z3 and the application interpreter are usable."""
import importlib, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import z3
from specs.registry import REGISTRY
for p, r in REGISTRY.items():
    if r.get('spec'):
        getattr(importlib.import_module('specs.' + r['spec'][0]), r['spec'][1])
x = z3.Int('x')
s = z3.Solver()
s.add(x > 1, x < 1)
assert s.check() == z3.unsat
assert subprocess.call(['/opt/venv/bin/python', '-c', 'import sys']) == 0
for d in ('evidence', 'replay'):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
print('ok: %d properties, z3 %s' % (len(REGISTRY), z3.get_version_string()))
