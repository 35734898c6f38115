"""Running verification tasks (one or more functions under contract each) in bounded worker processes."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


class Ctx:
    def __init__(self, name, deadline, tier):
        self.name = name
        self.deadline = deadline
        self.tier = tier
        self.engines = []
        self.functions = []      # functions whose own body was verified in this task
        self.covers = {}
        self.assumptions = []
        self.bounded = []

    def engine(self, contracts=None, externals=None, opts=None, values=None, overrides=None):
        from .engine import Engine
        o = dict(opts or {})
        o.setdefault('deadline', self.deadline)
        if self.tier == 'thorough':
            o.setdefault('prove_ms', 120000)
        e = Engine(REPO, contracts, externals, values, o, overrides)
        self.engines.append(e)
        return e

    def func(self, e, mod, qual):
        """FuncVal of mod:qual from the current source"""
        parts = qual.split('.')
        v = e.get_global(mod, parts[0])
        for p in parts[1:]:
            from .values import ClassVal, UNSET
            v, _ = e.class_lookup(v, p)
            if v is UNSET:
                from .engine import Unsupported
                raise Unsupported('no %s in %s' % (qual, mod))
        self.functions.append(mod + ':' + qual)
        return v

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def explore(self, e, cur, run, onp):
        """explore with error classification"""
        e.cur = cur
        e.explore(run, onp)


def _child(fn, name, deadline, tier, q):
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)

    def body():
        t0 = time.time()
        out = {'task': name, 'error': None, 'obligations': [], 'functions': [], 'covers': {}, 'inlined': [], 'contracts': [],
               'externals': [], 'assumptions': [], 'bounded': [], 'solver_time': 0.0, 'queries': 0, 'paths': 0}
        ctx = Ctx(name, deadline, tier)
        try:
            fn(ctx)
        except Exception as ex:
            from .engine import Unsupported, Budget, CarriedRead
            kind = 'unsupported' if isinstance(ex, (Unsupported, CarriedRead)) else 'budget' if isinstance(ex, Budget) else 'internal'
            from .engine import PyRaise
            msg = str(ex)
            if isinstance(ex, CarriedRead):
                msg = 'read of a value carried out of a loop'
            if isinstance(ex, PyRaise):
                kind = 'unsupported'
                try:
                    o = ctx.engines[-1].obj(ex.val)
                    msg = 'uncaught %r %r' % (o.cls, o.attrs.get('args'))
                except Exception:
                    msg = 'uncaught exception'
            out['error'] = {'kind': kind, 'msg': msg[:500], 'tb': traceback.format_exc()[-2500:]}
        for e in ctx.engines:
            for o in e.obligations:
                out['obligations'].append({'func': o.func, 'name': o.name, 'status': o.status, 'time': round(o.time, 4),
                                           'model': o.model, 'reason': o.reason, 'flags': list(o.flags), 'backend': o.backend})
            out['inlined'] += sorted(e.inlined)
            out['contracts'] += sorted(e.used_contracts)
            out['externals'] += sorted(e.assumed)
            out['solver_time'] += e.solver_time
            out['queries'] += e.queries
            out['paths'] += e.npaths
        out['functions'] = sorted(set(ctx.functions))
        out['covers'] = ctx.covers
        out['assumptions'] = ctx.assumptions
        out['bounded'] = ctx.bounded
        out['wall'] = round(time.time() - t0, 2)
        for k in ('inlined', 'contracts', 'externals'):
            out[k] = sorted(set(out[k]))
        q.append(out)
    th = threading.Thread(target=body)
    th.start()
    th.join()


def _proc(fn, name, deadline, tier, path):
    q = []
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        _child(fn, name, deadline, tier, q)
        with open(path + '.tmp', 'w') as f:
            json.dump(q[0], f)
        os.rename(path + '.tmp', path)
    finally:
        os._exit(0)


def run_tasks(tasks, tier='quick', task_timeout=240, procs=8, total=780, stop=None):
    """tasks: list of (name, fn).  Returns list of result dicts."""
    import tempfile
    import shutil
    d = tempfile.mkdtemp(prefix='pyded')
    t_end = time.time() + total
    ctx = mp.get_context('fork')
    pending = list(enumerate(tasks))
    running = {}
    results = {}
    try:
        while pending or running:
            while pending and len(running) < procs and time.time() < t_end:
                i, (name, fn) = pending.pop(0)
                to = min(task_timeout, t_end - time.time())
                path = os.path.join(d, '%d.json' % i)
                p = ctx.Process(target=_proc, args=(fn, name, time.time() + to * 0.9, tier, path))
                p.start()
                running[i] = (p, name, time.time() + to, path)
            if not running and pending:
                for i, (name, fn) in pending:
                    results[i] = _err(name, 'budget', 'no time left')
                break
            for i, (p, name, dl, path) in list(running.items()):
                if not p.is_alive():
                    p.join()
                    if os.path.exists(path):
                        with open(path) as f:
                            results[i] = json.load(f)
                    else:
                        results[i] = _err(name, 'internal', 'worker ended without a result')
                    del running[i]
                elif time.time() > dl:
                    p.kill()
                    p.join()
                    results[i] = _err(name, 'budget', 'time limit')
                    del running[i]
            if stop is not None and stop():
                for i, (p, name, dl, path) in running.items():
                    results[i] = _err(name, 'budget', 'not needed: a failing input was found')
                for i, (name, fn) in pending:
                    results[i] = _err(name, 'budget', 'not needed: a failing input was found')
                break
            time.sleep(0.03)
    finally:
        for i, (p, *_r) in running.items():
            p.kill()
        shutil.rmtree(d, ignore_errors=True)
    return [results[i] for i in sorted(results)]


def _err(name, kind, msg):
    return {'task': name, 'error': {'kind': kind, 'msg': msg, 'tb': ''}, 'obligations': [], 'functions': [], 'covers': {},
            'inlined': [], 'contracts': [], 'externals': [], 'assumptions': [], 'bounded': [], 'solver_time': 0.0, 'queries': 0,
            'paths': 0, 'wall': 0}
