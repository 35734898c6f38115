"""Contracts of the hardened connection (C16): dbutils/steady_db.py over a driver that may fail in any way at any call.

Every method is verified from an arbitrary state of the object (transaction open or not, connection closed or not, any usage count), so that the
per-method contracts carry over to every history by induction: the state relation assumed at entry is the one proved at exit."""
import z3
from pyded.values import *
from pyded.engine import Unsupported, PathEnd

SD = 'dbutils.steady_db'


class OperationalError(Exception):
    pass


class InterfaceError(Exception):
    pass


class InternalError(Exception):
    pass


class LostConnection(OperationalError):
    pass


class OtherError(Exception):
    pass


class Interrupt(BaseException):
    pass


FAILS = (OperationalError, InterfaceError, InternalError)


# ------------------------------------------------------------------ the driver
def log(e):
    return e.st.ghost.get('log', ())


def note(e, *ev):
    e.setghost('log', log(e) + (ev,))


def closed(e, rid):
    return rid in e.st.ghost.get('dead', frozenset())


def attempt(e, rid, what, kinds=(LostConnection, OtherError)):
    """one driver call on connection rid: it succeeds or fails in some way; a closed connection always fails"""
    n = len(log(e))
    i = e.choose([True] * (len(kinds) + 1))
    if i == 0:
        if closed(e, rid) and what != 'close':
            raise PathEnd()
        note(e, rid, what, True)
        return
    note(e, rid, what, False)
    x = e.make_exc(kinds[i - 1], '%s failed' % what)
    e.setghost('raised', e.st.ghost.get('raised', ()) + ((n, x),))
    raise_exc(x)


def raise_exc(x):
    from pyded.engine import PyRaise
    raise PyRaise(x)


ALL = (LostConnection, OtherError, Interrupt)


def raw(e, rid, features=()):
    """a connection of the driver"""
    at = {'closed_attrs': True, 'rid': rid}

    def meth(name, kinds, ret=None):
        def f(e, a, k):
            attempt(e, rid, name, kinds)
            return ret(e) if ret else None
        return Builtin(name, f)
    at['commit'] = meth('commit', ALL)
    at['rollback'] = meth('rollback', ALL)
    at['cursor'] = meth('cursor', ALL, lambda e: cursor(e, rid))

    def close(e, a, k):
        e.setghost('dead', e.st.ghost.get('dead', frozenset()) | {rid})
        attempt(e, rid, 'close', (OtherError,))
    at['close'] = Builtin('close', close)
    if 'begin' in features:
        at['begin'] = meth('begin', ALL)
    if 'cancel' in features:
        at['cancel'] = meth('cancel', ALL)
    if 'ping' in features:
        def ping(e, a, k):
            i = e.choose([True, True, True, True])
            if i == 0 and a:
                note(e, rid, 'ping', False)
                e.raise_(TypeError, 'no reconnect flag')
            if i == 1:
                note(e, rid, 'ping', False)
                raise_exc(e.make_exc(LostConnection, 'gone'))
            note(e, rid, 'ping', True)
            return None if i == 2 else e.fresh_sym('bool')
        at['ping'] = Builtin('ping', ping)
    return Opaque('raw%d' % rid, at)


def cursor(e, rid):
    cid = e.st.ghost.get('cursors', 0)
    e.setghost('cursors', cid + 1)
    at = {'closed_attrs': True, 'rid': rid, 'cid': cid}

    def meth(name):
        def f(e, a, k):
            attempt(e, rid, name, ALL)
            r = Opaque('result%d' % len(log(e)), {})
            e.setghost('results', e.st.ghost.get('results', ()) + ((r, rid, cid, name, tuple(a), tuple(sorted(k.items()))),))
            return r
        return Builtin(name, f)
    for n in ('execute', 'executemany', 'callproc'):
        at[n] = meth(n)

    def close(e, a, k):
        note(e, rid, 'close cursor', True)
        if e.choose([True, True]):
            x = e.make_exc(OtherError, 'close')
            e.setghost('raised', e.st.ghost.get('raised', ()) + ((len(log(e)), x),))
            raise_exc(x)
    at['close'] = Builtin('close', close)

    def sizes(name):
        def f(e, a, k):
            e.setghost('sizes', e.st.ghost.get('sizes', ()) + ((cid, name, tuple(a)),))
        return Builtin(name, f)
    at['setinputsizes'] = sizes('setinputsizes')
    at['setoutputsize'] = sizes('setoutputsize')
    return Opaque('cursor of raw%d' % rid, at)


def new_raw(e, features=('begin', 'ping', 'cancel')):
    rid = e.st.ghost.get('raws', 0)
    e.setghost('raws', rid + 1)
    return raw(e, rid, features)


def driver(e, features=('begin', 'ping', 'cancel')):
    def connect(e, a, k):
        n = e.choose([True, True, True])
        if n:
            note(e, None, 'connect', False)
            x = e.make_exc((LostConnection, OtherError)[n - 1], 'connect')
            e.setghost('raised', e.st.ghost.get('raised', ()) + ((len(log(e)), x),))
            raise_exc(x)
        r = new_raw(e, features)
        note(e, r.attrs['rid'], 'connect', True)
        e.setghost('connect args', (tuple(a), dict(k)))
        return r
    con = Builtin('connect', connect)
    return Opaque('driver', {'connect': con, 'OperationalError': ExtClass(OperationalError), 'InterfaceError': ExtClass(InterfaceError),
                             'InternalError': ExtClass(InternalError), 'threadsafety': 1, 'closed_attrs': True})


# ------------------------------------------------------------------ states of the object
FIELDS = {'_con', '_closed', '_creator', '_dbapi', '_threadsafety', '_maxusage', '_setsession_sql', '_failures', '_ping', '_closeable', '_args', '_kwargs', '_failure',
          '_transaction', '_usage'}
CFIELDS = {'_cursor', '_closed', '_con', '_args', '_kwargs', '_inputsizes', '_outputsizes'}


def k_create(e, f, a, k):
    """contract of _create: a fresh prepared connection, or an error and no connection left open"""
    i = e.choose([True, True, True])
    if i:
        note(e, None, 'connect', False)
        e.raise_((LostConnection, OtherError)[i - 1], 'cannot connect')
    r = new_raw(e)
    note(e, r.attrs['rid'], 'connect', True)
    return r


def eng(ctx, contracts=None, opts=None):
    e = ctx.engine(dict({SD + ':SteadyDBConnection._create': k_create}, **(contracts or {})), {}, dict({'max_paths': 400000, 'max_steps': 40000000}, **(opts or {})))
    ctx.assume('the driver: a closed connection fails every call; a call fails only by raising; its failure classes are OperationalError, InterfaceError and InternalError')
    return e


def pick(e, fixed):
    return e.choose([True, True]) == 0 if fixed is None else fixed


def steady(e, tx=None, shut=None, features=None):
    """a connection object in an arbitrary state"""
    cls = e.get_global(SD, 'SteadyDBConnection')
    save = e.contracts.get(SD + ':SteadyDBConnection._create')
    me = e.alloc(IObj(cls, {}))
    first = new_raw(e, ('begin', 'ping', 'cancel') if pick(e, features) else ())
    e.contracts[SD + ':SteadyDBConnection._create'] = lambda e, f, a, k: first
    try:
        r = e.outcomes(lambda: e.call(e.getattr_(me, '__init__'), [driver(e)], {}))
    finally:
        e.contracts[SD + ':SteadyDBConnection._create'] = save
    if r[0] != 'ok':
        raise Unsupported('constructor')
    have = set(e.obj(me).attrs)
    if have - FIELDS or (FIELDS - {'_failure'}) - have:
        raise Unsupported('fields of the connection: %s' % sorted(have ^ FIELDS))
    e.setattr_(me, '_failures', tuple(ExtClass(c) for c in FAILS))
    e.setattr_(me, '_failure', ExtClass(OperationalError))
    e.setattr_(me, '_transaction', pick(e, tx))
    if pick(e, shut):
        e.setattr_(me, '_closed', True)
        e.setghost('dead', frozenset({0}))
    us, mx = z3.Int('usage'), z3.Int('maxusage')
    e.assume(z3.And(us >= 0, mx >= 0))
    e.setattr_(me, '_usage', Sym('int', us))
    e.setattr_(me, '_maxusage', Sym('int', mx))
    e.setattr_(me, '_ping', Sym('int', z3.Int('ping')))
    e.setattr_(me, '_closeable', Sym('bool', z3.Bool('closeable')))
    e.setghost('log', ())
    return me


def field(e, me, n):
    at = e.obj(me).attrs
    if n not in at:
        raise Unsupported('field %s' % n)
    return e.resolve(at[n])


def rid_of(e, me):
    return field(e, me, '_con').attrs['rid']


def flag(e, me, n):
    return e.truth_term(field(e, me, n)) if hasattr(e, 'truth_term') else field(e, me, n)


def check_state(e, me, before, name='', stored=True):
    """what every method guarantees about the connection in use, whatever happened"""
    r0, t0 = before
    r1 = rid_of(e, me)
    ev = log(e)
    names = 'after %s: ' % name if name else ''

    def ok(cond, nm, info=''):
        (e.ok if cond else lambda n: e.fail(n, info or str(ev)))(names + nm)
    if r1 != r0:
        ok(any(x == (r1, 'connect', True) for x in ev), 'a connection is replaced only by a fresh one')
        ok(closed(e, r0), 'the connection that was replaced is closed')
        ok(not closed(e, r1), 'the fresh connection is open')
        e.oblige(names + 'a replaced connection is not in a transaction', z3.Not(zb(e, field(e, me, '_transaction'))))
        i = [n for n, x in enumerate(ev) if x[0] == r1 and x[1] == 'connect']
    for r in {x[0] for x in ev if x[1] == 'connect' and x[2]} if not interrupted(e) else ():
        ok(r == r1 or closed(e, r), 'no fresh connection is left open and forgotten')
    ok(zb_is(e, field(e, me, '_closed'), closed(e, r1)), 'the object knows whether its connection is closed')
    # after its close, a connection is only closed again
    dead = set()
    bad = None
    for x in ev:
        if x[0] in dead and x[1] in ('cursor', 'commit', 'rollback', 'begin', 'cancel', 'ping'):
            bad = x
        if x[1] == 'close':
            dead.add(x[0])
    ok(bad is None, 'a connection that was closed here is not used again', str(bad))
    return r1


def interrupted(e):
    return any(e.obj(x).cls == ExtClass(Interrupt) for _, x in e.st.ghost.get('raised', ()))


def first_error(e, x):
    r = [y for _, y in e.st.ghost.get('raised', ())]
    return bool(r) and (r[0] == x or interrupted(e) and r[-1] == x)


def zb(e, v):
    v = e.resolve(v)
    return v.t if isinstance(v, Sym) else z3.BoolVal(bool(v))


def zb_is(e, v, b):
    t = zb(e, v)
    return e.must(t if b else z3.Not(t))


def events(e, what, rid=Ellipsis):
    return [x for x in log(e) if x[1] == what and (rid is Ellipsis or x[0] == rid)]


def last_raised(e, n):
    return [x for i, x in e.st.ghost.get('raised', ()) if i == n]


# ------------------------------------------------------------------ commit, rollback, cancel, begin
def t_end(name):
    def t(ctx):
        e = eng(ctx)
        f = ctx.func(e, SD, 'SteadyDBConnection.' + name)

        def run():
            me = steady(e)
            b = (rid_of(e, me), field(e, me, '_transaction'))
            return (me, b), e.outcomes(lambda: e.call(e.getattr_(me, name), [], {}))

        def onp(c, r):
            me, b = c
            ctx.cover(r[0])
            e.oblige('%s ends the transaction' % name, z3.Not(zb(e, field(e, me, '_transaction'))))
            check_state(e, me, b)
            ev = [x for x in log(e) if x[1] == name]
            (e.ok if [x[0] for x in ev] == [b[0]] or name == 'cancel' and not ev and 'cancel' not in field(e, me, '_con').attrs else lambda n: e.fail(n, str(log(e))))(
                '%s is sent once, to the connection in use' % name)
            if r[0] == 'ok':
                (e.ok if all(x[2] for x in ev) else lambda n: e.fail(n, str(log(e))))('an error of %s reaches the caller' % name)
                (e.ok if rid_of(e, me) == b[0] else lambda n: e.fail(n, str(log(e))))('a %s that succeeded keeps its connection' % name)
            else:
                (e.ok if first_error(e, r[1]) else lambda n: e.fail(n, str(log(e))))('the error of %s is the one that reaches the caller' % name)
        ctx.explore(e, SD + ':SteadyDBConnection.' + name, run, onp)
    return t


def t_begin(ctx):
    e = eng(ctx)
    ctx.func(e, SD, 'SteadyDBConnection.begin')

    def run():
        me = steady(e)
        b = (rid_of(e, me), field(e, me, '_transaction'))
        return (me, b), e.outcomes(lambda: e.call(e.getattr_(me, 'begin'), ['x'], {}))

    def onp(c, r):
        me, b = c
        ctx.cover(r[0])
        if r[0] == 'ok':
            e.oblige('begin opens a transaction', zb(e, field(e, me, '_transaction')))
        check_state(e, me, b)
        (e.ok if rid_of(e, me) == b[0] else lambda n: e.fail(n, ''))('begin keeps the connection')
        (e.ok if 'begin' not in field(e, me, '_con').attrs or events(e, 'begin', b[0]) else lambda n: e.fail(n, ''))('the begin of the driver is called')
        if r[0] != 'ok':
            (e.ok if first_error(e, r[1]) else lambda n: e.fail(n, ''))('the error of begin reaches the caller')
    ctx.explore(e, SD + ':SteadyDBConnection.begin', run, onp)


def t_close(ctx):
    for name, args in (('_close', []), ('close', []), ('_reset', []), ('_reset', [True]), ('__del__', [])):
        e = eng(ctx)
        ctx.func(e, SD, 'SteadyDBConnection.' + name)

        def run():
            me = steady(e)
            b = (rid_of(e, me), field(e, me, '_transaction'), field(e, me, '_closed'))
            return (me, b), e.outcomes(lambda: e.call(e.getattr_(me, name), list(args), {}))

        def onp(c, r):
            me, b = c
            ctx.cover('%s %s' % (name, r[0]))
            check_state(e, me, b[:2])
            if r[0] != 'ok' and not e.is_subclass(e.obj(r[1]).cls, ExtClass(Exception)):
                return                         # interrupted
            (e.ok if r[0] == 'ok' else lambda n: e.fail(n, ''))('%s does not complain' % name)
            cl = field(e, me, '_closed')
            act = name in ('_close', '__del__')
            cond = z3.BoolVal(True) if act else z3.Bool('closeable') if name == 'close' else z3.BoolVal(False)
            if not zb_is(e, b[2], True):
                e.oblige('%s closes an open connection exactly when it may be closed' % name, zb(e, cl) == z3.Or(cond, zb(e, b[2])) if name != '_reset' else z3.BoolVal(True))
                t1 = field(e, me, '_transaction')
                e.oblige('%s leaves no transaction open' % name, z3.Not(zb(e, t1)))
                if name == '_reset':
                    want = bool(args) or zb_is(e, b[1], True)
                    (e.ok if bool(events(e, 'rollback', b[0])) == want else lambda n: e.fail(n, str(log(e))))('a reset rolls back exactly when forced or in a transaction')
                if name == 'close' and e.must(z3.Not(z3.Bool('closeable'))) and zb_is(e, b[1], True):
                    (e.ok if events(e, 'rollback', b[0]) else lambda n: e.fail(n, str(log(e))))('closing a connection that stays open rolls its transaction back')
            elif name == '_close':
                (e.ok if not events(e, 'close') else lambda n: e.fail(n, str(log(e))))('a closed connection is not closed twice')
        ctx.explore(e, SD + ':SteadyDBConnection.' + name, run, onp)


def t_with(ctx):
    for ex in (None, RuntimeError):
        e = eng(ctx)
        ctx.func(e, SD, 'SteadyDBConnection.__exit__')

        def run():
            me = steady(e)
            b = (rid_of(e, me), field(e, me, '_transaction'))
            r = e.outcomes(lambda: e.call(e.getattr_(me, '__enter__'), [], {}))
            if r[0] != 'ok' or r[1] != me:
                raise Unsupported('__enter__')
            a = [None, None, None] if ex is None else [ExtClass(ex), e.make_exc(ex, 'x'), None]
            return (me, b), e.outcomes(lambda: e.call(e.getattr_(me, '__exit__'), a, {}))

        def onp(c, r):
            me, b = c
            ctx.cover('%s %s' % (ex, r[0]))
            e.oblige('leaving the block ends the transaction', z3.Not(zb(e, field(e, me, '_transaction'))))
            check_state(e, me, b)
            want, other = ('commit', 'rollback') if ex is None else ('rollback', 'commit')
            (e.ok if events(e, want, b[0]) and not events(e, other) else lambda n: e.fail(n, str(log(e))))('a block commits when it succeeds and rolls back when it fails')
            if r[0] == 'ok':
                e.prove_eq('the error of the block is not swallowed', e.truth(r[1]), False)
        ctx.explore(e, SD + ':SteadyDBConnection.__exit__', run, onp)


# ------------------------------------------------------------------ _ping_check
def t_ping_check(ctx):
    e = eng(ctx)
    ctx.func(e, SD, 'SteadyDBConnection._ping_check')

    def run():
        me = steady(e)
        b = (rid_of(e, me), field(e, me, '_transaction'))
        e.setghost('us', field(e, me, '_usage'))
        p = [1, 2, 4][e.choose([True, True, True])]
        return (me, b), e.outcomes(lambda: e.call(e.getattr_(me, '_ping_check'), [p, Sym('bool', z3.Bool('reconnect'))], {}))

    def onp(c, r):
        me, b = c
        r1 = check_state(e, me, b)
        if r[0] != 'ok':
            if e.is_subclass(e.obj(r[1]).cls, ExtClass(Exception)):
                e.fail('a ping check does not raise', str(log(e)))
            return
        ctx.cover('replaced' if r1 != b[0] else 'kept')
        if zb_is(e, b[1], True):
            (e.ok if r1 == b[0] else lambda n: e.fail(n, str(log(e))))('inside a transaction a ping check does not replace the connection')
            (e.ok if not events(e, 'connect') else lambda n: e.fail(n, str(log(e))))('inside a transaction a ping check opens no connection')
        (e.ok if not [x for x in log(e) if x[1] not in ('ping', 'connect', 'close')] else lambda n: e.fail(n, str(log(e))))('a ping check sends nothing else')
        if r1 == b[0]:
            e.oblige('a ping check that keeps the connection keeps the transaction', zb(e, field(e, me, '_transaction')) == zb(e, b[1]))
        (e.ok if r1 == b[0] or not e.must(z3.Not(z3.Bool('reconnect'))) else lambda n: e.fail(n, ''))('a ping check reconnects only when asked to')
    ctx.explore(e, SD + ':SteadyDBConnection._ping_check', run, onp)


def k_ping_check(e, f, a, k):
    """contract proved by t_ping_check"""
    me = a[0]
    if e.truth(field(e, me, '_transaction')) or e.choose([True, True]) == 0:
        return None
    old = rid_of(e, me)
    r = new_raw(e)
    note(e, r.attrs['rid'], 'connect', True)
    if not closed(e, old):
        note(e, old, 'close', True)
        e.setghost('dead', e.st.ghost.get('dead', frozenset()) | {old})
    e.setattr_(me, '_con', r)
    e.setattr_(me, '_transaction', False)
    e.setattr_(me, '_closed', False)
    e.setattr_(me, '_usage', 0)
    return True


# ------------------------------------------------------------------ _cursor
def t_cursor(ctx):
    e = eng(ctx, {SD + ':SteadyDBConnection._ping_check': k_ping_check})
    ctx.func(e, SD, 'SteadyDBConnection._cursor')
    ctx.func(e, SD, 'SteadyDBConnection.cursor')
    ctx.func(e, SD, 'SteadyDBCursor.__init__')

    def run():
        me = steady(e)
        b = (rid_of(e, me), field(e, me, '_transaction'))
        if e.choose([True, True]) == 0:
            return (me, b), e.outcomes(lambda: e.call(e.getattr_(me, '_cursor'), ['arg'], {}))
        r = e.outcomes(lambda: e.call(e.getattr_(me, 'cursor'), ['arg'], {}))
        if r[0] == 'ok':
            o = e.resolve(r[1])
            (e.ok if zb_is(e, field(e, o, '_closed'), False) and field(e, o, '_con') == me else lambda n: e.fail(n, ''))('a new cursor is open and belongs to its connection')
            r = ('ok', field(e, o, '_cursor'))
        return (me, b), r

    def onp(c, r):
        me, b = c
        r1 = check_state(e, me, b)
        tries = events(e, 'cursor')
        if zb_is(e, b[1], True):
            ctx.cover('in a transaction ' + r[0])
            if r[0] == 'ok':
                (e.ok if r1 == b[0] else lambda n: e.fail(n, str(log(e))))('inside a transaction no connection is replaced silently by a cursor')
                (e.ok if len(tries) == 1 and tries[0] == (b[0], 'cursor', True) else lambda n: e.fail(n, str(log(e))))('inside a transaction a cursor is one of its connection')
                e.oblige('a cursor keeps the transaction open', zb(e, field(e, me, '_transaction')))
            else:
                (e.ok if first_error(e, r[1]) else lambda n: e.fail(n, str(log(e))))('inside a transaction the error of the cursor reaches the caller')
        if r[0] == 'ok':
            ctx.cover('cursor')
            cu = e.resolve(r[1])
            (e.ok if cu.attrs['rid'] == r1 else lambda n: e.fail(n, str(log(e))))('a cursor belongs to the connection in use')
            tried = [x[0] for x in tries]
            (e.ok if len(set(tried)) == len(tried) else lambda n: e.fail(n, str(log(e))))('a failed cursor is retried only on a fresh connection')
            lim = z3.And(z3.Int('maxusage') > 0, z3.Int('usage') >= z3.Int('maxusage'))
            if r1 == b[0] and zb_is(e, b[1], False):
                e.oblige('a connection is not used more often than allowed', z3.Not(lim))
        else:
            ctx.cover('refused')
    ctx.explore(e, SD + ':SteadyDBConnection._cursor', run, onp)


def k_cursor(e, f, a, k):
    """contract proved by t_cursor (called outside a transaction)"""
    me = a[0]
    if e.truth(field(e, me, '_transaction')):
        return e.inline(f, a, k)
    k_ping_check(e, None, [me], {}) if e.choose([True, True]) else None
    if closed(e, rid_of(e, me)) and e.choose([True, True]) == 0:
        raise PathEnd()
    i = e.choose([True, True, True])
    if i:
        note(e, rid_of(e, me), 'cursor', False)
        e.raise_((LostConnection, OtherError)[i - 1], 'no cursor')
    note(e, rid_of(e, me), 'cursor', True)
    return cursor(e, rid_of(e, me))


# ------------------------------------------------------------------ the hardened cursor methods
def t_tough(name, with_sizes, tx, shut, old):
    def t(ctx):
        e = eng(ctx, {SD + ':SteadyDBConnection._ping_check': k_ping_check, SD + ':SteadyDBConnection._cursor': k_cursor})
        ctx.func(e, SD, 'SteadyDBCursor._get_tough_method')
        ctx.func(e, SD, 'SteadyDBCursor.__getattr__')

        def run():
            me = steady(e, tx, shut, True)
            cls = e.get_global(SD, 'SteadyDBCursor')
            cu = e.alloc(IObj(cls, {}))
            save = dict(e.contracts)
            # the cursor may be one of a connection replaced since
            rid = rid_of(e, me)
            if old:
                rid = new_raw(e).attrs['rid']
                e.setghost('dead', e.st.ghost.get('dead', frozenset()) | {rid})
            own = cursor(e, rid)
            e.contracts[SD + ':SteadyDBConnection._cursor'] = lambda e, f, a, k: own
            try:
                e.call(e.getattr_(cu, '__init__'), [me, 'arg'], {})
            finally:
                e.contracts.clear()
                e.contracts.update(save)
            have = set(e.obj(cu).attrs)
            if have != CFIELDS:
                raise Unsupported('fields of the cursor: %s' % sorted(have ^ CFIELDS))
            if e.choose([True, True]):
                e.setattr_(cu, '_closed', True)
            if with_sizes:
                e.call(e.getattr_(cu, 'setinputsizes'), ['in'], {})
                e.call(e.getattr_(cu, 'setoutputsize'), [5, 'c'], {})
                e.call(e.getattr_(cu, 'setoutputsize'), [6], {})
            b = (rid_of(e, me), field(e, me, '_transaction'), own)
            e.setghost('log', ())
            return (me, cu, b), e.outcomes(lambda: e.call(e.getattr_(cu, name), ['statement', 'args'], {'kw': 1}))

        def onp(c, r):
            me, cu, b = c
            r1 = check_state(e, me, b[:2])
            ran = events(e, name)
            res = e.st.ghost.get('results', ())

            def ok(cond, nm):
                (e.ok if cond else lambda n: e.fail(n, str(log(e))))(nm)
            if zb_is(e, b[1], True):
                ctx.cover('in a transaction ' + r[0])
                ok(len(ran) <= 1 and all(x[0] == b[2].attrs['rid'] for x in ran), 'inside a transaction a statement is tried once, on the connection of its cursor')
                if r[0] == 'ok':
                    ok(r1 == b[0], 'inside a transaction no connection is replaced silently by a statement')
                    ok(b[2].attrs['rid'] == b[0], 'inside a transaction a statement runs on its connection')
                    e.oblige('a statement keeps the transaction open', zb(e, field(e, me, '_transaction')))
                else:
                    ok(first_error(e, r[1]), 'inside a transaction the error of the statement reaches the caller')
            good = [x for x in ran if x[2]]
            if r[0] == 'ok':
                ctx.cover('executed')
                ok(len(good) == 1, 'a statement that returns has been executed exactly once')
                ok(len(res) == 1 and r[1] is res[0][0] and res[0][4] == ('statement', 'args') and res[0][5] == (('kw', 1),), 'its result is the one of the driver, for the same arguments')
                ok(res and res[0][1] == r1, 'it was executed on the connection in use')
                ok(field(e, cu, '_cursor').attrs['cid'] == res[0][2], 'the cursor is the one that executed it')
                if with_sizes and name.startswith('execute'):
                    ss = [x for x in e.st.ghost.get('sizes', ()) if x[0] == res[0][2]]
                    ok([x[1:] for x in ss] == [('setinputsizes', ('in',)), ('setoutputsize', (5, 'c')), ('setoutputsize', (6,))], 'the sizes are set on the cursor that executes')
            else:
                ctx.cover('raised')
                ok(not good, 'a statement that was executed is not reported as failed')
            tried = [x[0] for x in ran]
            bad = False
            n = 0
            for i, x in enumerate(log(e)):
                if x[1] == name:
                    n += 1
            ok(n <= 3, 'a statement is tried at most three times')
        ctx.explore(e, SD + ':SteadyDBCursor.%s' % name, run, onp)
    return t


def t_cursor_close(ctx):
    for name in ('close', '__exit__', '__del__'):
        e = eng(ctx)
        ctx.func(e, SD, 'SteadyDBCursor.' + name)

        def run():
            me = steady(e)
            own = cursor(e, rid_of(e, me))
            cu = e.alloc(IObj(e.get_global(SD, 'SteadyDBCursor'), {'_cursor': own, '_closed': e.choose([True, True]) == 0, '_con': me, '_args': (), '_kwargs': e.alloc(DObj(None, None, [])),
                                                                   '_inputsizes': e.alloc(LObj(())), '_outputsizes': e.alloc(DObj(None, None, []))}))
            b = (rid_of(e, me), field(e, me, '_transaction'), field(e, cu, '_closed'))
            e.setghost('log', ())
            return (me, cu, b), e.outcomes(lambda: e.call(e.getattr_(cu, name), [None, None, None] if name == '__exit__' else [], {}))

        def onp(c, r):
            me, cu, b = c
            ctx.cover(name)
            check_state(e, me, b[:2])
            (e.ok if r[0] == 'ok' else lambda n: e.fail(n, ''))('closing a cursor does not complain')
            (e.ok if zb_is(e, field(e, cu, '_closed'), True) and len(events(e, 'close cursor')) == (0 if b[2] else 1) else lambda n: e.fail(n, str(log(e))))('a cursor is closed once')
            (e.ok if rid_of(e, me) == b[0] and not events(e, 'connect') else lambda n: e.fail(n, ''))('closing a cursor keeps the connection')
            e.oblige('closing a cursor keeps the transaction', zb(e, field(e, me, '_transaction')) == zb(e, b[1]))
        ctx.explore(e, SD + ':SteadyDBCursor.' + name, run, onp)


# ------------------------------------------------------------------ opening a connection
def t_create(ctx):
    """the constructor and _create: one fresh prepared connection, or an error with nothing left open"""
    for how in ('module', 'function'):
        for fails in ('default', 'tuple', 'class'):
            for session in (None, ['set a', 'set b']):
                e = eng(ctx)
                del e.contracts[SD + ':SteadyDBConnection._create']
                ctx.func(e, SD, 'SteadyDBConnection.__init__')
                ctx.func(e, SD, 'SteadyDBConnection._create')
                ctx.func(e, SD, 'SteadyDBConnection._setsession')
                ctx.func(e, SD, 'connect')

                def run(how=how, fails=fails, session=session):
                    d = driver(e)
                    cr = d
                    if how == 'function':
                        cr = Opaque('creator', {'__call__': d.attrs['connect'].fn, 'dbapi': d, 'closed_attrs': True, 'threadsafety': 1})
                    kw = {'maxusage': None, 'host': 'h'}
                    if session:
                        kw['setsession'] = e.alloc(LObj([Elem(s) for s in session]))
                    if fails != 'default':
                        kw['failures'] = (ExtClass(OtherError), ExtClass(InterfaceError)) if fails == 'tuple' else ExtClass(OtherError)
                    return None, e.outcomes(lambda: e.call(e.get_global(SD, 'connect'), [cr], kw))

                def onp(c, r, fails=fails, session=session):
                    opened = [x[0] for x in log(e) if x[1] == 'connect' and x[2]]
                    if r[0] != 'ok':
                        ctx.cover('refused')
                        if not e.is_subclass(e.obj(r[1]).cls, ExtClass(Exception)):
                            return
                        (e.ok if all(closed(e, x) for x in opened) else lambda n: e.fail(n, str(log(e))))('a connection that cannot be prepared is closed')
                        (e.ok if first_error(e, r[1]) or all(x[2] or x[1] == 'close' for x in log(e)) else lambda n: e.fail(n, '%s %s' % (log(e), e.obj(r[1]).attrs)))('the error of connecting reaches the caller')
                        return
                    ctx.cover('opened')
                    me = e.resolve(r[1])
                    rid = rid_of(e, me)
                    (e.ok if opened == [rid] and not closed(e, rid) else lambda n: e.fail(n, str(log(e))))('exactly one connection is opened')
                    (e.ok if e.st.ghost['connect args'][1] == {'host': 'h'} else lambda n: e.fail(n, str(e.st.ghost['connect args'])))('it is opened with the given parameters')
                    sent = [x[4] for x in e.st.ghost.get('results', ()) if x[1] == rid]
                    (e.ok if sent == [(s,) for s in session or []] else lambda n: e.fail(n, str(sent)))('the session is prepared on it')
                    e.oblige('a new connection is in no transaction', z3.Not(zb(e, field(e, me, '_transaction'))))
                    e.oblige('a new connection is open', z3.Not(zb(e, field(e, me, '_closed'))))
                    e.prove_eq('a new connection has not been used', field(e, me, '_usage'), 0)
                    fs = field(e, me, '_failures')
                    want = {'default': set(FAILS), 'tuple': {OtherError, InterfaceError}, 'class': {OtherError}}[fails]
                    (e.ok if {x.py for x in (fs if isinstance(fs, tuple) else (fs,))} == want else lambda n: e.fail(n, str(fs)))(
                        'the failures that are handled are the given ones, or those of the driver')
                ctx.explore(e, SD + ':connect', run, onp)


TOUGH = [('%s%s%s%s%s' % (n, ', sizes' if z else '', ', in a transaction' if tx else '', ', closed' if sh else '', ', old cursor' if old else ''), t_tough(n, z, tx, sh, old))
         for n, z in (('execute', False), ('execute', True), ('executemany', False), ('callproc', False)) for tx in (True, False) for sh in (False, True) for old in (False, True)
         if not (sh and old) and not ((z or n == 'executemany') and (sh or old))]
C16 = [('commit', t_end('commit')), ('rollback', t_end('rollback')), ('cancel', t_end('cancel')), ('begin', t_begin), ('close', t_close), ('with', t_with),
       ('ping check', t_ping_check), ('cursor', t_cursor), ('cursor close', t_cursor_close), ('create', t_create)] + TOUGH
