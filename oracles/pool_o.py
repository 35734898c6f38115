"""C15, C16 against the real dbutils code over a stand-in driver; C15 under a deterministic scheduler that can switch threads at every
line of dbutils and at every lock operation."""
import _thread
import gc
import importlib
import logging
import os
import random
import sys
import threading
import types

import lib
from lib import SKIP

logging.disable(logging.CRITICAL)
REPO = lib.REPO


class DBError(Exception):
    pass


class OperationalError(DBError):
    pass


class InterfaceError(DBError):
    pass


class InternalError(DBError):
    pass


class ProgrammingError(DBError):
    pass


FAIL = (OperationalError, InterfaceError, InternalError)
EXC = {c.__name__: c for c in (OperationalError, InterfaceError, InternalError, ProgrammingError, RuntimeError)}


class Driver:
    """a DB-API 2 driver module with injected failures"""

    def __init__(self, threadsafety, rates, seed, script=None, has_begin=False, ping_mode='ok'):
        self.threadsafety = threadsafety
        self.rates = rates
        self.rng = random.Random(seed)
        self.script = dict((tuple(k), v) for k, v in (script or []))
        self.n = {}
        self.raws = []
        self.log = []
        self.has_begin = has_begin
        self.ping_mode = ping_mode
        for c in EXC:
            setattr(self, c, EXC[c])
        self.quiet = False

    def hit(self, kind):
        n = self.n[kind] = self.n.get(kind, 0) + 1
        e = self.script.get((kind, n))
        if not e and not self.quiet and self.rates.get(kind, 0) and self.rng.random() < self.rates[kind]:
            e = self.rng.choice(sorted(EXC)) if self.rng.random() < .4 else 'OperationalError'
        if e:
            raise EXC[e]('injected %s %d' % (kind, n))

    def connect(self, *a, **k):
        self.hit('connect')
        r = Raw(self, a, k)
        self.raws.append(r)
        return r


class Raw:
    def __init__(self, drv, a, k):
        self.drv, self.a, self.k = drv, a, k
        self.closed = False
        self.dirty = []          # (handle id) of work neither committed nor rolled back
        self.calls = []
        if drv.has_begin:
            self.begin = self._begin

    def use(self, what):
        self.calls.append(what)
        self.drv.log.append((self, what))

    def _begin(self, *a, **k):
        self.use('begin')
        self.drv.hit('begin')

    def ping(self, *a, **k):
        self.use('ping')
        if self.drv.ping_mode == 'typeerror' and a:
            raise TypeError('no reconnect flag')
        if self.drv.ping_mode == 'dead':
            return False
        if self.drv.ping_mode == 'none':
            raise AttributeError('ping')
        if self.closed:
            raise OperationalError('closed')
        self.drv.hit('ping')
        return None

    def cursor(self, *a, **k):
        self.use('cursor')
        if self.closed:
            raise InterfaceError('closed')
        self.drv.hit('cursor')
        return Cur(self)

    def commit(self):
        self.use('commit')
        CTX.end(self, 'commit')
        if self.closed:
            raise InterfaceError('closed')
        self.drv.hit('commit')

    def rollback(self):
        self.use('rollback')
        CTX.end(self, 'rollback')
        if self.closed:
            raise InterfaceError('closed')
        self.drv.hit('rollback')

    def close(self):
        self.use('close')
        self.closed = True
        self.drv.hit('close')


class Cur:
    def __init__(self, raw):
        self.raw = raw
        self.closed = False

    def execute(self, s, *a):
        if self.raw.closed:
            raise InterfaceError('closed')
        if s != 'set x':
            CTX.work(self.raw)
        self.raw.drv.hit('execute')
        self.raw.drv.log.append((self.raw, 'sql', s))
        return s

    executemany = execute
    callproc = execute

    def fetchall(self):
        return []

    def close(self):
        self.closed = True

    def setinputsizes(self, *a):
        pass

    def setoutputsize(self, *a):
        pass


class Ctx:
    def end(self, raw, how):
        pass

    def work(self, raw):
        pass


CTX = Ctx()


# ------------------------------------------------------------------ scheduler
class Stop(BaseException):
    pass


class Sem:
    def __init__(self):
        self.l = _thread.allocate_lock()
        self.l.acquire()
        self.acquire, self.release = self.l.acquire, self.l.release


class Sched:
    def __init__(self, seed, p):
        self.rng = random.Random(seed)
        self.p = p
        self.th = {}           # ident -> state dict
        self.order = []
        self.stop = False
        self.done = threading.Event()
        self.main = threading.get_ident()
        self.stuck = False
        self.hook = None

    def me(self):
        return self.th.get(threading.get_ident())

    def runnable(self):
        return [s for s in self.order if not s['end'] and (s['blocked'] is None or s['blocked']())]

    def switch(self):
        """give the turn to a runnable thread (maybe this one)"""
        s = self.me()
        if s is None:
            return
        if self.hook:
            self.hook()
        while True:
            r = self.runnable()
            if not r:
                if not self.stop:
                    self.stuck = True       # everyone waits: end of this schedule
                    self.stop = True
                r = [x for x in self.order if not x['end']]
            if not r:
                self.done.set()
                return
            n = self.rng.choice(r)
            if n is s:
                break
            n['sem'].release()
            if s['end']:
                return
            s['sem'].acquire()
            break
        if self.stop and not s['end'] and not s['stopping']:
            s['stopping'] = True
            raise Stop()

    def trace(self, frame, ev, arg):
        if not frame.f_code.co_filename.startswith(REPO + '/dbutils/'):
            return None
        s = self.me()
        if s is None:
            return None
        if ev == 'line' and not s['stopping'] and self.rng.random() < self.p:
            self.switch()
        return self.trace

    def run(self, fns):
        ts = []
        for fn in fns:
            s = {'sem': Sem(), 'end': False, 'blocked': None, 'stopping': False}

            def body(fn=fn, s=s):
                self.th[threading.get_ident()] = s
                s['ready'].set()
                s['sem'].acquire()
                try:
                    if not self.stop:
                        sys.settrace(self.trace)
                        fn()
                except Stop:
                    pass
                finally:
                    sys.settrace(None)
                    s['end'] = True
                    try:
                        self.switch()
                    except Stop:
                        pass
            s['ready'] = threading.Event()
            t = threading.Thread(target=body, daemon=True)
            self.order.append(s)
            ts.append(t)
            t.start()
            s['ready'].wait(20)
        self.order[self.rng.randrange(len(self.order))]['sem'].release()
        if not self.done.wait(50):
            raise RuntimeError('scheduler did not finish')
        for t in ts:
            t.join(5)


class Cond:
    """threading.Condition under the scheduler"""
    cur = None

    def __init__(self, lock=None):
        self.owner = None
        self.depth = 0
        self.waiters = []
        Cond.made.append(self)

    made = []

    def acquire(self, blocking=True, timeout=-1):
        sc = Cond.cur
        t = threading.get_ident()
        if self.owner == t:
            self.depth += 1
            return True
        s = sc.me() if sc else None
        if s is not None:
            if not s['stopping']:
                sc.switch()
            while self.owner is not None:
                s['blocked'] = lambda: self.owner is None
                try:
                    if s['stopping']:
                        break
                    sc.switch()
                finally:
                    s['blocked'] = None
        self.owner = t
        self.depth = 1
        return True

    def release(self):
        if self.owner != threading.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            sc = Cond.cur
            s = sc.me() if sc else None
            if s is not None and not s['stopping']:
                sc.switch()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        if self.owner == threading.get_ident():
            self.release()

    def wait(self, timeout=None):
        if self.owner != threading.get_ident():
            raise RuntimeError('cannot wait on un-acquired lock')
        sc = Cond.cur
        s = sc.me() if sc else None
        if s is None:
            raise RuntimeError('wait outside the schedule')
        d, self.depth, self.owner = self.depth, 0, None
        w = [False]
        self.waiters.append(w)
        try:
            s['blocked'] = lambda: w[0]
            try:
                sc.switch()
            finally:
                s['blocked'] = None
                if w in self.waiters:
                    self.waiters.remove(w)
            if s['stopping']:
                raise Stop()
        finally:
            while self.owner is not None and not s['stopping']:
                s['blocked'] = lambda: self.owner is None
                try:
                    sc.switch()
                finally:
                    s['blocked'] = None
            self.owner, self.depth = threading.get_ident(), d
        return True

    def wait_for(self, pred, timeout=None):
        while not pred():
            self.wait()
        return True

    def notify(self, n=1):
        if self.owner != threading.get_ident():
            raise RuntimeError('cannot notify on un-acquired lock')
        for w in self.waiters[:n]:
            w[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


_POOL = None


def pool_module():
    global _POOL
    if _POOL is None:
        real = threading.Condition, threading.RLock, threading.Lock
        import dbutils.steady_db  # noqa
        threading.Condition = Cond
        try:
            import dbutils.pooled_db as P
        finally:
            threading.Condition = real[0]
        if getattr(P, 'Condition', None) is real[0]:
            P.Condition = Cond
        th = getattr(P, 'threading', None)
        if th is not None:
            ns = types.ModuleType('threading')
            ns.__dict__.update(th.__dict__)
            ns.Condition = ns.RLock = ns.Lock = Cond
            P.threading = ns
        for n in ('Lock', 'RLock'):
            if hasattr(P, n):
                setattr(P, n, Cond)
        _POOL = P
    return _POOL


rule_C15 = ('random pool configurations x 1-4 threads of open/close/del/begin/execute/commit scripts x injected driver failures x schedules switching at '
            'lock operations and at random lines; distinct = distinct (configuration, script, schedule seed)')
OPS15 = ['open', 'open', 'open', 'ded', 'close', 'close', 'close2', 'del', 'exec', 'exec', 'begin', 'commit', 'rollback', 'with']


def cfg15(o):
    return {'mincached': o.rng.choice([0, 0, 0, 1, 2]), 'maxcached': o.rng.choice([0, 0, 1, 1, 2, 3]), 'maxshared': o.rng.choice([0, 0, 0, 1, 2]),
            'maxconnections': o.rng.choice([0, 1, 2, 2, 3, 4]), 'blocking': o.rng.random() < 0.6, 'maxusage': o.rng.choice([None, None, 0, 1, 2]),
            'reset': o.rng.choice([True, True, True, False, None]), 'ping': o.rng.choice([1, 1, 0, 2, 4, 7]), 'setsession': o.rng.choice([None, None, ['set x']])}


def gen_C15(o):
    z = {'mincached': 0, 'maxcached': 0, 'maxshared': 0, 'maxconnections': 0, 'blocking': False, 'maxusage': None, 'reset': True, 'ping': 1, 'setsession': None}
    base = [dict(z, maxconnections=2), dict(z, maxcached=1), dict(z, mincached=2, maxcached=1), dict(z, mincached=2, maxcached=2, maxconnections=3),
            dict(z, maxshared=1, maxconnections=1), dict(z, maxshared=2), dict(z, maxshared=2, maxcached=1, maxconnections=3), dict(z, maxcached=3, maxconnections=2),
            dict(z, maxshared=3, maxconnections=2), dict(z, mincached=3, maxconnections=1), dict(z, mincached=None, maxcached=None, maxconnections=None),
            dict(z, maxconnections=1, reset=False), dict(z, maxcached=1, reset=None)]
    for c in base:
        for ts in (1, 2):
            for b in (False, True):
                c2 = dict(c, blocking=b)
                yield {'cfg': c2, 'ts': ts, 'threads': [['open', 'exec', 'close', 'open', 'exec', 'begin', 'exec', 'close2', 'open', 'commit', 'ded', 'exec', 'del', 'open', 'open', 'close', 'close']], 'rates': {}, 'seed': 1, 'p': 0}
                yield {'cfg': c2, 'ts': ts, 'threads': [['open', 'exec', 'close2', 'ded', 'exec', 'close'], ['open', 'exec', 'close', 'open'], ['ded', 'exec', 'del', 'open', 'close']], 'rates': {}, 'seed': 2, 'p': .1}
                for k in ('connect', 'ping', 'rollback', 'cursor', 'execute', 'close'):
                    yield {'cfg': c2, 'ts': ts, 'threads': [['open', 'exec', 'close', 'open', 'begin', 'exec', 'close', 'open', 'open', 'exec', 'close', 'close', 'ded']], 'rates': {k: .5}, 'seed': 3, 'p': 0}
                    yield {'cfg': c2, 'ts': ts, 'threads': [['open', 'exec', 'close', 'open', 'open', 'exec', 'close', 'close', 'ded']] * 2, 'rates': {k: 1}, 'seed': 4, 'p': .05}
    for i in range(20000 if o.thorough else 1500):
        nt = o.rng.choice([1, 1, 2, 2, 3, 4])
        threads = [[o.rng.choice(OPS15) for _ in range(o.rng.choice([3, 6, 10, 16]))] for _ in range(nt)]
        if nt == 1 and o.rng.random() < .3:
            threads[0].insert(o.rng.randrange(len(threads[0])), 'poolclose')
        rates = {}
        if o.rng.random() < .6:
            for k in o.rng.sample(['connect', 'ping', 'rollback', 'cursor', 'execute', 'close', 'commit'], o.rng.choice([1, 2, 3])):
                rates[k] = o.rng.choice([.1, .3, .6])
        yield {'cfg': cfg15(o), 'ts': o.rng.choice([1, 2, 2]), 'threads': threads, 'rates': rates, 'seed': o.rng.randrange(10 ** 9),
               'p': o.rng.choice([0, .02, .1, .3])}


class Handle:
    def __init__(self, h, shareable, epoch):
        self.h, self.shareable, self.epoch = h, shareable, epoch
        self.under = h.cursor.__self__
        self.tx = False


class Run15(Ctx):
    def __init__(self, case):
        self.case = case
        c = case['cfg']
        self.viol = []
        self.live = []
        self.busy = 0
        self.opening = 0
        self.epoch = 0
        mc, mx, ms, mn = (c['mincached'] or 0), (c['maxcached'] or 0), (c['maxshared'] or 0), (c['maxconnections'] or 0)
        if mx:
            mx = max(mx, mc)
        self.maxcached = mx
        self.maxconn = max(mn, mx, ms) if mn else 0
        self.closed_epoch = False
        self.sched = Sched(case['seed'], case['p'])
        self.cur_handle = {}

    def bad(self, msg):
        self.viol.append(msg)

    # --- driver callbacks
    def end(self, raw, how):
        h = self.cur_handle.get(threading.get_ident())
        if how == 'commit' and h is not None and self.stale(raw):
            self.bad('commit on a connection whose earlier borrower left uncommitted work that was never rolled back')
        raw.dirty = []

    def stale(self, raw):
        return [d for d in raw.dirty if d['returned'] and (self.case['cfg']['reset'] or (d['tx'] and not d['h'].shareable))]

    def work(self, raw):
        h = self.cur_handle.get(threading.get_ident())
        if h is None:
            return
        if self.stale(raw):
            self.bad('a connection was reused while the previous borrower\'s work had not been rolled back')
        raw.dirty.append({'h': h, 'returned': False, 'tx': h.tx, 'under': h.under})

    # --- checks
    def idle(self):
        return list(getattr(self.pool, '_idle_cache', []))

    def check(self):
        if self.sched.stop:
            return
        P = self.pool
        live = list(self.live)
        by = {}
        for h in live:
            by.setdefault(id(h.under), []).append(h)
        for hs in by.values():
            if len(hs) > 1 and not all(x.shareable for x in hs):
                self.bad('one connection lent to two borrowers at once, one of them exclusively')
        idle = {id(x) for x in self.idle()}
        for h in live:
            if id(h.under) in idle:
                self.bad('a lent connection is in the idle cache')
        if self.maxconn and len(by) > self.maxconn:
            self.bad('%d connections in use, maxconnections is %d' % (len(by), self.maxconn))
        lock = getattr(P, '_lock', None)
        if isinstance(lock, Cond) and lock.owner is None:
            n = getattr(P, '_connections', None)
            if n is not None:
                if n < 0:
                    self.bad('_connections is %d' % n)
                if self.maxconn and n > self.maxconn:
                    self.bad('_connections is %d, limit %d' % (n, self.maxconn))
            il = self.idle()
            if self.maxcached and len(il) > self.maxcached:
                self.bad('%d idle connections, maxcached is %d' % (len(il), self.maxcached))
            if len({id(x) for x in il}) != len(il):
                self.bad('a connection is in the idle cache twice')
        if self.busy == 0 and not self.sched.stop:
            n = getattr(P, '_connections', None)
            if n is not None and n != len(by):
                self.bad('_connections is %d but %d connections are lent' % (n, len(by)))

    def returned(self, h):
        """after the last borrower of a connection has closed it"""
        if not any(x.under is h.under for x in self.live) and not (h.shareable and self.busy > 1):
            for r in self.drv.raws:
                for d in r.dirty:
                    if d['under'] is h.under:
                        d['returned'] = True
                        d['tx'] = d['tx'] or h.tx

    def script(self, ops, rng):
        me = threading.get_ident()
        hs = []
        for op in ops:
            if self.viol or self.sched.stop:
                return
            self.busy += 1
            try:
                try:
                    if op in ('open', 'ded'):
                        sh = op == 'open'
                        e = self.epoch
                        self.opening += 1
                        intx = {id(x.under): x.under for x in self.live if getattr(x.under, '_transaction', False)} if len(self.case['threads']) == 1 else {}
                        p = self.pool.connection() if sh else self.pool.dedicated_connection()
                        h = Handle(p, sh and type(p).__name__ != 'PooledDedicatedDBConnection', e)
                        if id(h.under) in intx:
                            self.bad('a connection in the middle of the transaction of its borrower was lent to another one')
                        if self.epoch == e:
                            hs.append(h)
                            self.live.append(h)
                        else:
                            p.close()
                        p = None
                    elif op == 'poolclose':
                        self.epoch += 1
                        for h in list(self.live):
                            if h.shareable:
                                self.live.remove(h)      # closed with the pool
                                h.dead = True
                        self.pool.close()
                    elif hs:
                        h = hs[rng.randrange(len(hs))]
                        dead = getattr(h, 'dead', False)
                        if op in ('close', 'close2', 'del', 'with'):
                            hs.remove(h)
                            if h in self.live:
                                self.live.remove(h)
                                if not h.shareable:
                                    self.returned(h)
                            self.cur_handle.pop(me, None)
                            if op == 'del':
                                h.h = None
                            elif op == 'with':
                                with h.h:
                                    pass
                            else:
                                h.h.close()
                                if op == 'close2':
                                    h.h.close()
                            if h.shareable and not dead:
                                self.returned(h)
                        elif not dead:
                            self.cur_handle[me] = h
                            try:
                                if op == 'exec':
                                    c = h.h.cursor()
                                    c.execute('sql')
                                    c.close()
                                elif op == 'begin':
                                    h.h.begin()
                                    h.tx = True
                                elif op == 'commit':
                                    h.h.commit()
                                    h.tx = False
                                elif op == 'rollback':
                                    h.h.rollback()
                                    h.tx = False
                            finally:
                                self.cur_handle.pop(me, None)
                except Exception:
                    if op in ('commit', 'rollback', 'exec', 'begin') and hs:
                        h.tx = False       # the transaction may be over
            finally:
                self.busy -= 1
                if op in ('open', 'ded'):
                    self.opening -= 1
            self.check()
        # keep what is still open until the end
        self.keep.append(hs)

    def run(self):
        global CTX
        P = pool_module()
        CTX = self
        self.keep = []
        c = dict(self.case['cfg'])
        self.drv = Driver(self.case['ts'], {}, self.case['seed'])
        if self.maxconn and (c['mincached'] or 0) > self.maxconn:
            return SKIP
        try:
            self.pool = P.PooledDB(self.drv, **c)
        finally:
            self.drv.rates = self.case['rates']
        Cond.cur = self.sched
        self.sched.hook = lambda: self.viol or self.check()
        self.check()
        gc.disable()       # finalizers of earlier cases must not run inside this schedule
        try:
            self.sched.run([lambda ops=ops, i=i: self.script(ops, random.Random(self.case['seed'] + i)) for i, ops in enumerate(self.case['threads'])])
        finally:
            Cond.cur = None
            gc.enable()
            CTX = Ctx()
            self.drv.quiet = True
            lk = getattr(self.pool, '_lock', None)
            if isinstance(lk, Cond):
                lk.owner, lk.depth = None, 0
        if not self.sched.stop and not self.viol:
            self.check()
        v = self.viol[:1]
        for h in list(self.live):
            h.h = None
        self.keep = []
        return v[0] if v else None


def judge_C15(case):
    return Run15(case).run()


# =============================================================================================== C16
rule_C16 = ('random histories of begin/commit/rollback/cancel/cursor/execute/ping check/reset/close on one steady connection over a driver with injected '
            'failures (scripted single and double faults and random ones); distinct = distinct histories')
OPS16 = ['begin', 'commit', 'rollback', 'cancel', 'cursor', 'cursor', 'exec', 'exec', 'exec', 'execmany', 'ping', 'reset', 'freset', 'fetch', 'ccur', 'close', 'with', 'withx']


def gen_C16(o):
    z = {'maxusage': None, 'setsession': None, 'ping': 7, 'closeable': True, 'begin': False, 'ping_mode': 'ok'}
    hist = [['begin', 'cursor', 'exec', 'exec', 'commit'], ['cursor', 'begin', 'exec', 'exec', 'exec', 'rollback', 'exec'], ['begin', 'ping', 'cursor', 'exec', 'commit', 'ping', 'cursor', 'exec'],
            ['begin', 'cursor', 'exec', 'cursor', 'exec', 'commit', 'exec'], ['cursor', 'exec', 'commit', 'begin', 'exec', 'freset', 'exec', 'cursor', 'exec'],
            ['begin', 'exec', 'cursor', 'close', 'cursor', 'exec'], ['commit', 'cursor', 'exec'], ['rollback', 'cursor', 'exec', 'cursor'], ['begin', 'cursor', 'execmany', 'with', 'exec'],
            ['begin', 'cursor', 'exec', 'withx', 'cursor', 'exec'], ['begin', 'cursor', 'exec', 'cancel', 'exec', 'cursor']]
    for h in hist:
        for kind in ('cursor', 'execute', 'commit', 'rollback', 'ping', 'begin', 'connect', 'close'):
            for n in (1, 2, 3, 4):
                for e in ('OperationalError', 'ProgrammingError', 'InterfaceError'):
                    for z2 in (z, dict(z, maxusage=2), dict(z, ping=0, begin=True)):
                        yield {'cfg': z2, 'ops': h, 'script': [[[kind, n], e]], 'rates': {}, 'seed': 1}
                yield {'cfg': z, 'ops': h, 'script': [[[kind, n], 'OperationalError'], [['connect', 2], 'OperationalError']], 'rates': {}, 'seed': 1}
                yield {'cfg': z, 'ops': h, 'script': [[[kind, n], 'OperationalError'], [['cursor', n + 1], 'OperationalError']], 'rates': {}, 'seed': 1}
                yield {'cfg': z, 'ops': h, 'script': [[[kind, n], 'OperationalError'], [[kind, n + 1], 'OperationalError'], [[kind, n + 2], 'ProgrammingError']], 'rates': {}, 'seed': 1}
    for pm in ('typeerror', 'dead', 'none'):
        for h in hist:
            for mu in (None, 1, 2):
                yield {'cfg': dict(z, ping_mode=pm, maxusage=mu), 'ops': h + h, 'script': [], 'rates': {}, 'seed': 1}
    for i in range(60000 if o.thorough else 4000):
        cfg = {'maxusage': o.rng.choice([None, None, 1, 2, 3]), 'setsession': o.rng.choice([None, None, ['set a', 'set b']]), 'ping': o.rng.choice([0, 1, 2, 4, 7, None]),
               'closeable': o.rng.random() < .8, 'begin': o.rng.random() < .5, 'ping_mode': o.rng.choice(['ok', 'ok', 'typeerror', 'dead', 'none'])}
        rates = {k: o.rng.choice([.1, .3, .6]) for k in o.rng.sample(['connect', 'ping', 'rollback', 'cursor', 'execute', 'close', 'commit', 'begin'], o.rng.choice([0, 1, 2, 4]))}
        yield {'cfg': cfg, 'ops': [o.rng.choice(OPS16) for _ in range(o.rng.choice([4, 8, 14, 25]))], 'script': [], 'rates': rates, 'seed': o.rng.randrange(10 ** 9)}


def judge_C16(case):
    global CTX
    CTX = Ctx()
    import dbutils.steady_db as S
    c = case['cfg']
    drv = Driver(2, {}, case['seed'], None, c['begin'], c['ping_mode'])
    try:
        con = S.connect(drv, maxusage=c['maxusage'], setsession=c['setsession'], ping=c['ping'], closeable=c['closeable'])
    except Exception:
        return SKIP
    drv.rates = case['rates']
    drv.script = dict((tuple(k), v) for k, v in case['script'])
    drv.n = {}
    cur = None
    rng = random.Random(case['seed'])
    curs = []
    tx = None            # raw connection of the open transaction
    closed = False
    replaced = []

    def raw():
        return con._con
    for i, op in enumerate(case['ops']):
        before = raw()
        n0 = len(drv.raws)
        l0 = len(drv.log)
        marks = [(r, len(r.calls)) for r in replaced]
        err = None
        used = None
        try:
            if op == 'begin':
                con.begin()
            elif op in ('commit', 'rollback', 'cancel'):
                getattr(con, op)()
            elif op == 'cursor':
                cur = con.cursor()
                curs.append(cur)
                used = cur._cursor.raw
            elif op in ('exec', 'execmany', 'fetch', 'ccur'):
                if not curs:
                    continue
                cur = curs[rng.randrange(len(curs))]
                if op == 'exec':
                    cur.execute('s%d' % i)
                elif op == 'execmany':
                    cur.executemany('s%d' % i, [])
                elif op == 'ccur':
                    cur.close()
                    curs.remove(cur)
                else:
                    cur.fetchall()
                if op in ('exec', 'execmany'):
                    ex = [x[0] for x in drv.log[l0:] if x[1] == 'sql' and x[2] == 's%d' % i]
                    if not ex:
                        return 'step %d: execute returned normally without executing' % i
                    used = ex[-1]
                    if len(ex) > 1 and c['ping_mode'] is not None and len(set(map(id, ex))) != len(ex):
                        return 'step %d: statement executed twice on one connection' % i
            elif op == 'ping':
                con._ping_check()
            elif op == 'reset':
                con._reset()
            elif op == 'freset':
                con._reset(True)
            elif op == 'close':
                con.close()
            elif op == 'with':
                with con:
                    pass
            elif op == 'withx':
                try:
                    with con:
                        raise KeyError('body')
                except KeyError:
                    pass
        except Exception as ex:
            err = ex
        after = raw()
        for r, n in marks:
            for x in r.calls[n:]:
                if x != 'close':
                    return 'step %d (%s): %s() on a connection that had been replaced' % (i, op, x)
        if after is not before:
            if not before.closed:
                return 'step %d (%s): the connection was replaced and the old one left open' % (i, op)
            if after in replaced:
                return 'step %d (%s): a replaced connection came back' % (i, op)
            if after not in drv.raws[n0:]:
                return 'step %d (%s): replaced by a connection that is not fresh' % (i, op)
            replaced.append(before)
        if tx is not None and err is None and op not in ('commit', 'rollback', 'cancel', 'with', 'withx', 'close', 'freset', 'reset', 'ccur'):
            if after is not tx:
                return 'step %d (%s): inside a transaction the connection was replaced without an error' % (i, op)
            if used is not None and used is not tx:
                return 'step %d (%s): a statement of the transaction ran on another connection' % (i, op)
        if tx is None and op == 'cursor' and err is None and used is not after:
            return 'step %d: the cursor does not belong to the current connection' % i
        if tx is None and op == 'cursor' and err is None:
            tried = [x[0] for x in drv.log[l0:] if x[1] == 'cursor']
            if len(tried) > 1 and (used in tried[:-1] or used not in drv.raws[n0:]) and not (c['setsession']):
                return 'step %d: a failed cursor was retried on a connection that is not fresh' % i
        if op in ('commit', 'rollback', 'cancel', 'with', 'withx'):
            if getattr(con, '_transaction', False):
                return 'step %d: %s did not end the transaction' % (i, op)
        if op in ('commit', 'rollback') and err is None:
            done = [x[0] for x in drv.log[l0:] if x[1] == op]
            if done != [before]:
                return 'step %d: %s was called on %d connections' % (i, op, len(done))
        # expected state of the transaction
        if op == 'begin':
            tx = after if err is None else None
            if err is not None and tx is None:
                # not known whether it is open
                tx = None
        elif op in ('commit', 'rollback', 'cancel', 'with', 'withx'):
            tx = None
        elif op in ('close', 'freset', 'reset'):
            tx = None
        elif err is not None and tx is not None:
            if isinstance(err, FAIL) or after is not tx:
                tx = None
    return None
