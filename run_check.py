#!/usr/bin/env python3-vt
"""run_check.py <ID> [--tier quick|thorough] [--replay FILE]   decides one property on /repo's current working tree."""
import argparse
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
APP_PY = '/opt/venv/bin/python'
PYPY = '/opt/venv-pypy/bin/python'

# property -> (spec module, oracle module)
from specs.registry import REGISTRY  # noqa


def scratch_env(d):
    env = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': d, 'TMPDIR': d, 'PYTHONPATH': REPO, 'PYTHONDONTWRITEBYTECODE': '1',
           'PYTHONHASHSEED': '0', 'LC_ALL': 'C.UTF-8', 'VERIF_REPO': REPO}
    return env


def run_oracle(reg, prop, seed, tier, hints, budget, replay=None):
    d = tempfile.mkdtemp(prefix='vor')
    try:
        out = os.path.join(d, 'out.json')
        hp = os.path.join(d, 'hints.json')
        with open(hp, 'w') as f:
            json.dump(hints, f)
        cmd = [reg.get('python', APP_PY), os.path.join(HERE, 'oracles', 'lib.py'), reg['oracle'], prop, '--seed', str(seed), '--tier', tier,
               '--hints', hp, '--out', out, '--budget', str(budget)]
        if replay:
            cmd += ['--replay', os.path.abspath(replay)]
        try:
            p = subprocess.run(cmd, cwd=d, env=scratch_env(d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget + 120)
            txt = p.stdout.decode('utf8', 'replace')[-3000:]
        except subprocess.TimeoutExpired:
            txt = 'oracle process exceeded its time'
        if os.path.exists(out):
            r = json.load(open(out))
            r['output'] = txt
            return r
        return {'evaluations': 0, 'distinct': 0, 'samples': [], 'violations': [], 'known': {}, 'error': 'no result: ' + txt,
                'rule': '', 'completed': False, 'wall': 0}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def hints_of(results):
    ints, floats, strs = set(), set(), set()
    for r in results:
        for o in r['obligations']:
            if o['status'] == 'discharged' or not o.get('model'):
                continue
            for k, v in (o['model'].items() if isinstance(o['model'], dict) else []):
                v = str(v)
                if re.fullmatch(r'-?\d{1,300}', v):
                    ints.add(int(v))
                elif re.fullmatch(r'-?\d+/\d+', v):
                    a, b = v.split('/')
                    try:
                        floats.add(int(a) / int(b))
                    except OverflowError:
                        pass
                elif v.startswith('"') and v.endswith('"') and len(v) < 400:
                    s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), v[1:-1].replace('""', '"'))
                    if not any(0xD800 <= ord(c) < 0xE000 for c in s):
                        strs.add(s)
    return {'ints': sorted(ints)[:200], 'floats': sorted(floats)[:200], 'strs': sorted(strs)[:200]}


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--replay')
    ap.add_argument('--no-oracle', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    reg = REGISTRY[prop]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(a.seed) if str(a.seed).isdigit() else 1
    t0 = time.time()
    if a.replay:
        rp = json.load(open(a.replay))
        if rp.get('kind') == 'obligation':
            print(json.dumps(rp, indent=1)[:6000])
            a.no_oracle = True
        else:
            r = run_oracle(reg, prop, seed, tier, {}, 300, a.replay)
            for v in r['violations']:
                print('reproduced:', v['msg'])
            for k, vs in r['known'].items():
                print('reproduced known finding', k, ':', vs[0]['msg'])
            if r.get('error'):
                print('error:', r['error'])
            return 1 if r['violations'] else 0
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)

    # ---------------------------------------------------------------- replay harness alongside the deductive part
    kf = known_findings()
    listed = {f['id']: f for f in kf['findings'] if f['property'] == prop}
    orc = {'evaluations': 0, 'distinct': 0, 'samples': [], 'violations': [], 'known': {}, 'error': None, 'rule': '', 'completed': True, 'wall': 0}
    first = {}
    budget = reg.get('budget', 60) * (10 if tier == 'thorough' else 1)

    def side():
        first['r'] = run_oracle(reg, prop, seed, tier, hints_of([]), budget)
    th = None
    if not a.no_oracle:
        th = threading.Thread(target=side)
        th.start()

    def found():
        r = first.get('r')
        return bool(r and (r['violations'] or any(k not in listed for k in r['known'])))
    # ---------------------------------------------------------------- deductive part
    results = []
    spec_error = None
    if not a.no_proof and reg.get('spec'):
        from pyded.task import run_tasks
        mod, lst = reg['spec']
        try:
            tasks = getattr(importlib.import_module('specs.' + mod), lst)
            results = run_tasks(tasks, tier=tier, task_timeout=(1800 if tier == 'thorough' else 300),
                                total=(6000 if tier == 'thorough' else 520), stop=found)
        except Exception as ex:   # the machinery itself
            spec_error = repr(ex)
    obl = [o for r in results for o in r['obligations']]
    bad = [o for o in obl if o['status'] == 'refuted' and 'abstract' not in o['flags']]
    weak = [o for o in obl if o['status'] == 'unknown' or (o['status'] == 'refuted' and 'abstract' in o['flags'])]
    disch = [o for o in obl if o['status'] == 'discharged']
    und = [(r['task'], r['error']) for r in results if r['error']]
    vac = [r['task'] for r in results if not r['error'] and (not r['obligations'] or not r['covers'])]
    cc = None
    # ---------------------------------------------------------------- the verifier's counterexamples replayed on the real code
    if th is not None:
        th.join()
        orc = first.get('r') or dict(orc, error='replay harness gave nothing')
        if (bad or weak or und) and not found():
            left = (3000 if tier == 'thorough' else 850 - (time.time() - t0))
            o2 = run_oracle(reg, prop, seed + 1, tier, hints_of(results), max(20, min(budget * 3, left - 150)))
            orc = {'evaluations': orc['evaluations'] + o2['evaluations'], 'distinct': orc['distinct'] + o2['distinct'],
                   'samples': orc['samples'], 'violations': orc['violations'] + o2['violations'], 'known': dict(o2['known'], **orc['known']),
                   'error': orc.get('error') or o2.get('error'), 'rule': orc.get('rule') or o2.get('rule'), 'completed': o2.get('completed'),
                   'wall': orc.get('wall', 0) + o2.get('wall', 0), 'harness_error': orc.get('harness_error') or o2.get('harness_error')}
    viol = list(orc['violations'])
    lines = []
    for k, vs in sorted(orc['known'].items()):
        if k in listed:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, listed[k]['what']))
        else:
            viol += vs[:1]
    code = 0
    nviol = 0
    if viol:
        nviol = len(viol)
        code = 1
        p = os.path.join(HERE, 'replay', '%s.json' % prop)
        with open(p, 'w') as f:
            json.dump({'property': prop, 'kind': 'input', 'case': viol[0]['case'], 'failure': viol[0]['msg'],
                       'how': 'python3-vt %s/run_check.py %s --replay %s' % (HERE, prop, p),
                       'failed_obligations': [{k: o[k] for k in ('func', 'name', 'model')} for o in bad[:10]],
                       'other': viol[1:3]}, f, indent=1, default=repr)
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
    elif bad:
        nviol = len(bad)
        code = 1
        p = os.path.join(HERE, 'replay', '%s.json' % prop)
        with open(p, 'w') as f:
            json.dump({'property': prop, 'kind': 'obligation', 'failed_obligations': bad[:20],
                       'note': 'the verifier refuted these obligations of the current source; no concrete failing input was found'}, f, indent=1, default=repr)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
    # ---------------------------------------------------------------- evidence
    trusted = sorted({x for r in results for x in r['externals']})
    cov = {
        'obligations': len(obl), 'discharged': len(disch),
        'refuted': len(bad), 'undecided': len(weak),
        'checker_cmd': 'python3-vt run_check.py %s (pyded VC generator over /repo sources; %s)' % (prop, 'z3 %s' % z3v()),
        'trusted_base': ['pyded (the VC generator in /verif/pyded) and its model of Python', 'z3'] + trusted,
        'functions_under_contract': sorted({f for r in results for f in r['functions']}),
        'functions_inlined': sorted({f for r in results for f in r['inlined']}),
        'contracts_used_at_call_sites': sorted({f for r in results for f in r['contracts']}),
        'backends': _count(o['backend'] for o in disch),
        'solver_time_s': round(sum(r['solver_time'] for r in results), 2),
        'paths': sum(r['paths'] for r in results),
        'covers': {r['task']: r['covers'] for r in results},
        'tasks': {r['task']: {'obligations': len(r['obligations']), 'wall_s': r['wall']} for r in results},
        'tasks_not_decided': {t: '%s: %s' % (e['kind'], e['msg']) for t, e in und},
        'vacuous_tasks': vac,
        'bounded': sorted({b for r in results for b in r['bounded']}) + reg.get('bounded', []),
        'evaluations': orc['evaluations'], 'distinct_nontrivial': orc['distinct'],
        'rule': orc.get('rule', ''), 'samples': orc['samples'],
        'replay_harness_error': orc.get('error') or orc.get('harness_error'),
        'undecided_obligations': [{k: o[k] for k in ('func', 'name', 'status', 'reason')} for o in weak[:10]],
    }
    if spec_error:
        cov['spec_error'] = spec_error
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': reg.get('level', 'proof'), 'coverage': cov,
          'assumptions': sorted({x for r in results for x in r['assumptions']}) + reg.get('assumptions', []) +
          ['assumed contract: ' + t for t in trusted],
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    p = os.path.join(HERE, 'evidence', '%s.json' % prop)
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    os.rename(p + '.tmp', p)
    print('%s: %d obligations, %d discharged, %d refuted, %d undecided; %d tasks not decided; replay cases %d; %.1fs' % (
        prop, len(obl), len(disch), len(bad), len(weak), len(und), orc['evaluations'], time.time() - t0))
    if a.v:
        for o in bad + weak:
            print('  ', o['status'], o['func'], o['name'], o['reason'][:300], str(o['model'])[:300])
        for t, e in und:
            print('   task', t, e['kind'], e['msg'])
            if e['kind'] == 'internal':
                print(e['tb'])
        for v in viol:
            print('  ', v['msg'], json.dumps(v['case'])[:500])
        print('  oracle:', {k: orc[k] for k in orc if k in ('evaluations', 'error', 'harness_errors', 'harness_error', 'wall', 'completed', 'stopped')})
        if vac:
            print('  vacuous:', vac)
    elif orc.get('error'):
        print('  replay harness: ' + str(orc['error']).strip().splitlines()[-1])
    for ln in lines:
        print(ln)
    return code


def _count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


if __name__ == '__main__':
    sys.exit(main())
