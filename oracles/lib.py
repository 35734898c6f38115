"""Harness for replaying and searching against the real code (runs under /opt/venv/bin/python).

An oracle module defines, per property, `gen_<ID>(o)` - a generator of JSON-able cases - and `judge_<ID>(case)` which runs the real
code on one case and returns None (property held), SKIP (case does not apply) or a text saying what failed.
Optionally `finding_<ID>(case, msg)` names the known finding a failure belongs to.
"""
import ast
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
SKIP = object()


class TimeUp(BaseException):
    pass


class Oracle:
    def __init__(self, prop, seed, tier, hints):
        self.prop = prop
        self.rng = random.Random('%s/%s' % (prop, seed))
        self.tier = tier
        self.hints = hints or {}
        self.thorough = tier == 'thorough'
        self._mined = {}

    def mined(self, *files):
        """integers, floats and strings written in the named source files"""
        ints, floats, strs = set(), set(), set()
        for f in files:
            p = os.path.join(REPO, f)
            if not os.path.exists(p):
                continue
            try:
                t = ast.parse(open(p, encoding='utf8').read())
            except SyntaxError:
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant):
                    v = n.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int):
                        ints.add(v)
                    elif isinstance(v, float):
                        floats.add(v)
                    elif isinstance(v, str) and len(v) < 60:
                        strs.add(v)
                if isinstance(n, ast.BinOp):
                    try:
                        v = eval(compile(ast.Expression(n), 'x', 'eval'), {'__builtins__': {}})
                        if isinstance(v, int) and abs(v) < 10 ** 80:
                            ints.add(v)
                    except Exception:
                        pass
        for v in self.hints.get('ints', []):
            ints.add(int(v))
        for v in self.hints.get('floats', []):
            floats.add(float(v))
        for v in self.hints.get('strs', []):
            strs.add(v)
        return sorted(ints), sorted(floats), sorted(strs)


def stub_modules():
    """mysql connections and pandas are not available offline: stand-ins that only record"""
    if 'pandas' not in sys.modules:
        try:
            import pandas  # noqa
        except Exception:
            m = types.ModuleType('pandas')

            class DataFrame:
                def __init__(self, *a, **k):
                    self.a = a
            m.DataFrame = DataFrame
            sys.modules['pandas'] = m


def case_repr(c):
    s = json.dumps(c, ensure_ascii=True, default=repr)
    return s


def run(module, prop, seed, tier, hints, out, budget, replay=None):
    stub_modules()
    res = {'prop': prop, 'evaluations': 0, 'distinct': 0, 'nontrivial': 0, 'samples': [], 'violations': [], 'known': {}, 'error': None,
           'rule': getattr(module, 'rule_' + prop, ''), 'completed': False}
    o = Oracle(prop, seed, tier, hints)
    judge = getattr(module, 'judge_' + prop)
    fnd = getattr(module, 'finding_' + prop, None)
    seen = set()
    t0 = time.time()

    def flush():
        with open(out + '.tmp', 'w') as f:
            json.dump(res, f, default=repr)
        os.rename(out + '.tmp', out)

    def on_alarm(*a):
        raise TimeUp()
    signal.signal(signal.SIGPROF, on_alarm)

    def one(case):
        case = json.loads(json.dumps(case))
        k = hashlib.sha1(case_repr(case).encode()).hexdigest()
        if k in seen:
            return
        seen.add(k)
        signal.setitimer(signal.ITIMER_PROF, 60)
        try:
            msg = judge(case)
        except TimeUp:
            msg = 'no answer within 60 s of CPU time'
        except RecursionError:
            msg = 'RecursionError: ' + traceback.format_exc()[-600:]
        except Exception as ex:
            fr = [f.filename for f in traceback.extract_tb(ex.__traceback__)]
            if not any(f.startswith(REPO + '/') for f in fr):
                res['harness_errors'] = res.get('harness_errors', 0) + 1
                res['harness_error'] = traceback.format_exc()[-1500:]
                return
            msg = 'unexpected error: ' + traceback.format_exc()[-1500:]
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        if msg is SKIP:
            return
        res['evaluations'] += 1
        res['distinct'] = res['evaluations']
        if res['evaluations'] in (1, 7, 60, 300):
            res['samples'].append(case_repr(case)[:400])
        if msg:
            key = fnd(case, msg) if fnd else None
            if key:
                res['known'].setdefault(key, []).append({'case': case, 'msg': msg})
                if len(res['known'][key]) > 3:
                    res['known'][key].pop()
            else:
                res['violations'].append({'case': case, 'msg': msg})
    try:
        if replay is not None:
            one(replay)
        else:
            for case in getattr(module, 'gen_' + prop)(o):
                one(case)
                if len(res['violations']) >= 3:
                    break
                if time.time() - t0 > budget:
                    res['stopped'] = 'time budget'
                    break
        res['completed'] = True
    except Exception:
        res['error'] = traceback.format_exc()[-2500:]
    res['wall'] = round(time.time() - t0, 2)
    flush()


def main(argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('module')
    ap.add_argument('prop')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--hints')
    ap.add_argument('--out', required=True)
    ap.add_argument('--budget', type=float, default=120)
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    hints = json.load(open(a.hints)) if a.hints else {}
    replay = json.load(open(a.replay))['case'] if a.replay else None
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    try:
        stub_modules()
        m = importlib.import_module(a.module)
    except BaseException:
        with open(a.out, 'w') as f:
            json.dump({'prop': a.prop, 'evaluations': 0, 'distinct': 0, 'samples': [], 'violations': [], 'known': {},
                       'error': 'import: ' + traceback.format_exc()[-2500:], 'completed': False, 'rule': '', 'wall': 0}, f)
        return
    run(m, a.prop, a.seed, a.tier, hints, a.out, a.budget, replay)


if __name__ == '__main__':
    sys.path[0:0] = [os.path.dirname(os.path.abspath(__file__))]
    import lib
    lib.main(sys.argv[1:])
