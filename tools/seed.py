#!/usr/bin/env python3
"""Makes and confirms the planted changes of tools/seeds_src.py:  seed.py make|confirm|check [ID...]

make: writes /verif/seeded/<id>/ from the edits; confirm: in a scratch copy of /repo, patch applies, build and stable tests pass and
demo.sh fails (passes without the patch); check: applies each to /repo, runs the property's check, undoes it."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seeds_src import SEEDS

def sh(cmd, cwd=None, timeout=1200, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode('utf8', 'replace')

DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cd "$d"
PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1 %s "$here/demo.py"
'''

def make(s):
    d = os.path.join(HERE, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    sh('git -C /repo worktree list')
    sh('git clone -q /repo %s/r' % t)
    for f, a, b in s['edits']:
        p = os.path.join(t, 'r', f)
        src = open(p).read()
        if src.count(a) != 1:
            print(s['id'], 'edit matches', src.count(a), 'times in', f); return False
        open(p, 'w').write(src.replace(a, b))
    rc, out = sh('git diff', cwd=t + '/r')
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.py', 'w').write(s['demo'])
    if 'demo_env' in s['demo']:
        shutil.copy(os.path.join(HERE, 'tools', 'demo_env.py'), d + '/demo_env.py')
    open(d + '/demo.sh', 'w').write(DEMO % s.get('python', '/opt/venv/bin/python'))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
    return True

def confirm(s):
    d = os.path.join(HERE, 'seeded', s['id'])
    rc0, o0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    rc, o = sh('git apply %s/patch.diff' % d, cwd='/repo')
    if rc: print(s['id'], 'does not apply', o); return
    try:
        rb, ob = sh('bash /opt/vp/build.sh', cwd='/repo')
        rt, ot = sh('bash /opt/vp/test.sh /tmp/w/seed_t.json', cwd='/repo')
        r = json.load(open('/tmp/w/seed_t.json'))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        missing = [t for t in stable if t not in r.get('passed', [])]
        rc1, o1 = sh('bash %s/demo.sh' % d, cwd='/repo')
        print(s['id'], 'ok' if rc0 == 0 and rb == 0 and not missing and rc1 != 0 else 'BAD', 'demo clean', rc0, 'build', rb, 'missing', missing, 'demo patched', rc1)
        if rc0: print(o0[-800:])
        if rc1 == 0: print(o1[-800:])
    finally:
        sh('git -C /repo checkout -- .')

def check(s):
    d = os.path.join(HERE, 'seeded', s['id'])
    rc, o = sh('git apply %s/patch.diff' % d, cwd='/repo')
    if rc: print(s['id'], 'does not apply', o); return
    try:
        rc, o = sh('python3-vt run_check.py %s -v' % s['property'], cwd=HERE)
        v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        print(s['id'], 'CAUGHT' if rc == 1 and v else 'MISSED (rc %d)' % rc, v[:1])
        print('   ' + '\n   '.join(x[:300] for x in o.splitlines()[:6]))
    finally:
        sh('git -C /repo checkout -- .')

what, ids = sys.argv[1], sys.argv[2:]
for s in SEEDS:
    if ids and s['id'] not in ids and s['property'] not in ids: continue
    if what == 'make':
        if make(s): print('made', s['id'])
    elif what == 'confirm': confirm(s)
    else: check(s)
