"""Contracts of the connection pool (C15): dbutils/pooled_db.py verified as a monitor.

Everything the pool shares between threads is protected by one lock.  Taking the lock gives an arbitrary state satisfying the monitor invariant;
releasing it (or waiting) has to establish the invariant again, so the obligations cover every interleaving of critical sections and every history.

 * a connection is a token with one owner: the idle cache, the shared cache, or a borrower.  Taking it out of a cache makes the running thread its
   owner, putting it into one requires owning it, and lending it hands it over.  Hence a connection that is lent is in no cache and lent once.
 * `_connections` counts permits: one for every dedicated connection that is lent, one for every connection in the shared cache.
   _connections == (permits of other threads) + (permits of this thread) + (size of the shared cache); permits of other threads are arbitrary >= 0.
 * a connection of the shared cache gets another borrower only when it was seen outside a transaction in the same critical section.
 * a connection enters the idle cache only after _reset(force=reset) (C16: that rolls it back)."""
import ast
import z3
from pyded.values import *
from pyded.engine import Unsupported, PathEnd
from pyded.interp import BreakEx, ContinueEx

PD = 'dbutils.pooled_db'


class ConnectError(Exception):
    pass


def G(e, k):
    return e.st.ghost[k]


def put(e, **kw):
    for k, v in kw.items():
        e.setghost(k, v)


def name(e, n):
    return n


def ok(e, cond, nm, info=''):
    if cond:
        e.ok(nm)
    else:
        e.fail(nm, info)


# ------------------------------------------------------------------ tokens: steady connections
def token(e, own, clean=True):
    i = e.st.ghost.get('ntok', 0)
    put(e, ntok=i + 1)
    at = {'id': i}

    def held(e, what):
        ok(e, tok(e, t)['own'], '%s is called only by the owner of a connection' % what, 'connection %d' % i)

    def ping(e, a, k):
        return None

    def reset(e, a, k):
        held(e, '_reset')
        force = a[0] if a else k.get('force', False)
        f = e.truth_term(force)
        f = z3.BoolVal(f) if isinstance(f, bool) else f
        if e.must(z3.Or(f, z3.Not(G(e, 'reset')))):
            settok(e, t, clean=True)
        return None

    def close(e, a, k):
        held(e, 'close')
        settok(e, t, closed=True)
        return None

    def rollback(e, a, k):
        if e.choose([True, True]):
            e.raise_(ConnectError, 'rollback')
        settok(e, t, clean=True)
    at['_ping_check'] = Builtin('_ping_check', ping)
    at['_reset'] = Builtin('_reset', reset)
    at['close'] = Builtin('close', close)
    at['_close'] = at['close']
    at['rollback'] = Builtin('rollback', rollback)
    at['threadsafety'] = Builtin('threadsafety', lambda e, a, k: Sym('int', z3.Int('level')))

    def transaction(e):
        b = e.fresh_sym('bool')
        settok(e, t, tx=b.t)
        return b
    at['getattr'] = lambda e, o, n: transaction(e) if n == '_transaction' else e.bi.NOTFOUND
    t = Opaque('connection %d' % i, at)
    put(e, tok=dict(e.st.ghost.get('tok', {}), **{str(i): {'own': own, 'closed': False, 'clean': clean}}))
    return t


def tok(e, t):
    return G(e, 'tok')[str(t.attrs['id'])]


def settok(e, t, **kw):
    d = dict(G(e, 'tok'))
    i = str(t.attrs['id'])
    d[i] = dict(d[i], **kw)
    put(e, tok=d)


def is_token(v):
    return isinstance(v, Opaque) and 'id' in v.attrs and '_ping_check' in v.attrs


def k_steady(e, f, a, k):
    """contract of steady_connection (C16): a fresh connection, or the error of the driver"""
    if e.choose([True, True]):
        e.raise_(ConnectError, 'cannot connect')
    return token(e, True)


# ------------------------------------------------------------------ the caches
def need_lock(e, what):
    ok(e, G(e, 'depth') > 0, 'the %s cache is used only with the lock held' % what)


def idle_total(e):
    return G(e, 'n_idle') + len(G(e, 'idle_in'))


def shared_total(e):
    return G(e, 'n_sh') + len(G(e, 'sh_in'))


def idle_cache():
    def length(e):
        need_lock(e, 'idle')
        return e.norm(Sym('int', idle_total(e)))

    def truth(e):
        need_lock(e, 'idle')
        return idle_total(e) > 0

    def pop(e, a, k):
        need_lock(e, 'idle')
        known = list(G(e, 'idle_in'))
        i = e.choose([G(e, 'n_idle') > 0, z3.And(G(e, 'n_idle') == 0, z3.BoolVal(not known))] + [True] * len(known))
        if i == 1:
            e.raise_(IndexError, 'pop from empty list')
        if i == 0:
            put(e, n_idle=G(e, 'n_idle') - 1)
            return token(e, True)
        c = known.pop(i - 2)
        put(e, idle_in=tuple(known))
        settok(e, c, own=True)
        return c

    def append(e, a, k):
        need_lock(e, 'idle')
        c = e.resolve(a[-1])
        if not is_token(c):
            raise Unsupported('element of the idle cache')
        ok(e, tok(e, c)['own'], 'a connection is put into the idle cache only by its owner')
        settok(e, c, own=False)
        put(e, idle_in=G(e, 'idle_in') + (c,))
    return Opaque('idle cache', {'len': length, 'truth': truth, 'pop': Builtin('pop', pop), 'append': Builtin('append', append), 'insert': Builtin('insert', append)})


def shared_info(e, s):
    return G(e, 'sh')[repr(s)]


def set_shared(e, s, **kw):
    d = dict(e.st.ghost.get('sh', {}))
    d[repr(s)] = dict(d.get(repr(s), {}), **kw)
    put(e, sh=d)


def shared_elem(e, own):
    """an element of the shared cache nothing is known about"""
    cls = e.get_global(PD, 'SharedDBConnection')
    c = token(e, own)
    settok(e, c, borrowed=True)
    s = e.call(cls, [c], {})
    if set(e.obj(s).attrs) != {'con', 'shared'}:
        raise Unsupported('fields of a shared connection')
    n = e.fresh(z3.IntSort(), 'shares')
    e.assume(n >= 1)
    e.setattr_(s, 'shared', e.norm(Sym('int', n)))
    set_shared(e, s, ref=s, others=n, mine=z3.IntVal(0), gone=False)
    return s


def is_shared(e, v):
    return isinstance(v, Ref) and isinstance(e.obj(v), IObj) and set(e.obj(v).attrs) == {'con', 'shared'}


def shared_cache():
    def length(e):
        need_lock(e, 'shared')
        return e.norm(Sym('int', shared_total(e)))

    def truth(e):
        need_lock(e, 'shared')
        return shared_total(e) > 0

    def take(e, s):
        put(e, sh_in=tuple(x for x in G(e, 'sh_in') if x != s))
        settok(e, e.resolve(e.obj(s).attrs['con']), own=True)
        return s

    def pop(e, a, k):
        need_lock(e, 'shared')
        known = list(G(e, 'sh_in'))
        i = e.choose([G(e, 'n_sh') > 0, z3.And(G(e, 'n_sh') == 0, z3.BoolVal(not known))] + [True] * len(known))
        if i == 1:
            e.raise_(IndexError, 'pop from empty list')
        if i == 0:
            put(e, n_sh=G(e, 'n_sh') - 1)
            return shared_elem(e, True)
        return take(e, known[i - 2])

    def remove(e, a, k):
        need_lock(e, 'shared')
        x = e.resolve(a[0])
        # list.remove takes the first element that is, or equals, x: some other element may come before x
        opts = [lambda: None]
        i = e.choose([True, G(e, 'n_sh') > 0] + [True] * len(G(e, 'sh_in')))
        if i == 1:
            y = shared_elem(e, False)
            put(e, n_sh=G(e, 'n_sh') - 1, sh_in=G(e, 'sh_in') + (y,))
        elif i > 1:
            y = G(e, 'sh_in')[i - 2]
        if i == 0:
            if x in G(e, 'sh_in'):
                raise PathEnd()           # it is there: found as itself
            e.raise_(ValueError, 'not in list')
        if y != x and not e.truth(e.call(e.getattr_(y, '__eq__'), [x], {})):
            raise PathEnd()
        take(e, y)

    def append(e, a, k):
        need_lock(e, 'shared')
        s = e.resolve(a[-1])
        if not is_shared(e, s):
            raise Unsupported('element of the shared cache')
        c = e.resolve(e.obj(s).attrs['con'])
        ok(e, tok(e, c)['own'] and s not in G(e, 'sh_in'), 'a connection is put into the shared cache only by its owner')
        settok(e, c, own=False)
        if repr(s) not in e.st.ghost.get('sh', {}):
            set_shared(e, s, ref=s, others=z3.IntVal(0), mine=z3.IntVal(0), gone=False)
        put(e, sh_in=G(e, 'sh_in') + (s,))

    def sort(e, a, k):
        need_lock(e, 'shared')
    return Opaque('shared cache', {'len': length, 'truth': truth, 'pop': Builtin('pop', pop), 'append': Builtin('append', append), 'insert': Builtin('insert', append),
                                   'remove': Builtin('remove', remove), 'sort': Builtin('sort', sort)})


# ------------------------------------------------------------------ the lock: the monitor invariant
def count(e):
    v = e.resolve(e.obj(G(e, 'pool')).attrs['_connections'])
    return e.num_term(v) if isinstance(v, Sym) else z3.IntVal(v)


def entitled(e):
    """permits this thread holds now"""
    return z3.simplify(count(e) - G(e, 'others') - shared_total(e))


def havoc(e, mine):
    put(e, tok={i: dict(x, tx=None) for i, x in G(e, 'tok').items()})          # other threads may begin and end transactions
    ni, ns, ot = (e.fresh(z3.IntSort(), n) for n in ('idle', 'shared', 'others'))
    known = tuple(x['ref'] for x in G(e, 'sh').values() if x.get('handle') and not x['gone'] and not e.must(x['mine'] == 0)) if e.st.ghost.get('sh') else ()
    kept = []
    for s in known:
        if e.choose([True, True]) == 1:
            set_shared(e, s, gone=True)       # the pool was closed meanwhile
        else:
            kept.append(s)
        n = e.fresh(z3.IntSort(), 'shares')
        e.assume(n >= 0)
        set_shared(e, s, others=n)
        e.setattr_(s, 'shared', e.norm(Sym('int', n + shared_info(e, s)['mine'])))
    put(e, n_idle=ni, n_sh=ns, others=ot, idle_in=(), sh_in=tuple(kept))
    e.assume(z3.And(ni >= 0, ns >= 0, ot >= 0))
    c = ot + mine + ns + len(kept)
    L = G(e, 'limits')
    e.assume(z3.Implies(L['max'] > 0, c <= L['max']))
    e.assume(z3.Implies(L['cached'] > 0, ni <= L['cached']))
    e.assume(ns + len(kept) <= L['shared'])
    e.setattr_(G(e, 'pool'), '_connections', e.norm(Sym('int', z3.simplify(c))))


def acquire(e):
    if G(e, 'depth') == 0:
        havoc(e, G(e, 'mine'))
    put(e, depth=G(e, 'depth') + 1)


def check(e):
    L = G(e, 'limits')
    c = count(e)
    m = entitled(e)
    e.oblige('every connection in use is counted', m >= 0)
    e.oblige('the connections in use do not exceed maxconnections', z3.Implies(L['max'] > 0, c <= L['max']))
    e.oblige('the connections in use are never negative', c >= 0)
    e.oblige('the idle cache does not exceed maxcached', z3.Implies(L['cached'] > 0, idle_total(e) <= L['cached']))
    e.oblige('the shared cache does not exceed maxshared', shared_total(e) <= L['shared'])
    for t in G(e, 'idle_in'):
        ok(e, tok(e, t)['clean'], 'a connection in the idle cache has been rolled back')
    put(e, mine=m)
    for s in G(e, 'sh_in'):
        n = e.num_term(e.resolve(e.obj(s).attrs['shared']))
        mine = z3.simplify(n - shared_info(e, s)['others'])
        e.oblige('a connection in the shared cache has a borrower', n >= 1)
        e.oblige('every borrower of a shared connection is counted', mine >= 0)
        set_shared(e, s, mine=mine)
    for x in list(G(e, 'sh').values()):
        s = x['ref']
        if x.get('handle') and s not in G(e, 'sh_in'):
            set_shared(e, s, mine=z3.simplify(e.num_term(e.resolve(e.obj(s).attrs['shared'])) - x['others']))


def release(e):
    if G(e, 'depth') <= 0:
        e.raise_(RuntimeError, 'cannot release un-acquired lock')
    put(e, depth=G(e, 'depth') - 1)
    if G(e, 'depth') == 0:
        put(e, depth=1)
        check(e)
        put(e, depth=0, n_idle=None)


def make_lock(e, a=None, k=None):
    def wait(e, a, k):
        if G(e, 'depth') <= 0:
            e.raise_(RuntimeError, 'cannot wait on un-acquired lock')
        d = G(e, 'depth')
        check(e)
        havoc(e, G(e, 'mine'))
        put(e, depth=d)
        return True
    nothing = Builtin('notify', lambda e, a, k: ok(e, G(e, 'depth') > 0, 'waiting threads are notified with the lock held'))
    return Opaque('lock', {'__enter__': Builtin('__enter__', lambda e, a, k: acquire(e)), '__exit__': Builtin('__exit__', lambda e, a, k: release(e)),
                           'acquire': Builtin('acquire', lambda e, a, k: (acquire(e), True)[1]), 'release': Builtin('release', lambda e, a, k: release(e)),
                           'wait': Builtin('wait', wait), 'notify': nothing, 'notify_all': nothing, 'notifyAll': nothing})


def hand(e):
    """what the running thread has taken out of the caches"""
    return sorted(i for i, t in G(e, 'tok').items() if t['own'] and not t['closed'])


def shared_hand(e):
    out = []
    for x in G(e, 'sh').values():
        s = x['ref']
        t = tok(e, e.resolve(e.obj(s).attrs['con']))
        if s not in G(e, 'sh_in') and t['own'] and not t['closed']:
            out.append(s)
    return out


def while_loop(e, s, env, test, body):
    """loop contract of every loop inside a critical section: the monitor invariant, with the same permits and as many connections in hand"""
    if e.st.ghost.get('depth', 0) <= 0:
        return False
    from specs.runtime import frame_values
    mine = entitled(e)
    h0 = hand(e)
    stored = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    fv = frame_values(e, env)
    # an arbitrary iteration
    for nm in stored & set(fv):
        v = e.resolve(fv[nm])
        if is_shared(e, v) and tok(e, e.resolve(e.obj(v).attrs['con']))['own']:
            settok(e, e.resolve(e.obj(v).attrs['con']), own=False)
            e.store_name(nm, shared_elem(e, True), env)
        elif is_token(v) and not tok(e, v)['own']:
            pass
        elif v is not None:
            raise Unsupported('loop variable %s' % nm)
    nh = len(shared_hand(e))
    e.oblige('a loop under the lock keeps room for the shared connections in hand', shared_total(e) + nh <= G(e, 'limits')['shared'])
    put(e, mine=mine)
    d = G(e, 'depth')
    havoc(e, mine)
    put(e, depth=d)
    h1 = hand(e)
    e.assume(shared_total(e) + nh <= G(e, 'limits')['shared'])
    if not test():
        return True
    try:
        body()
    except BreakEx:
        return True
    except ContinueEx:
        pass
    e.oblige('a loop under the lock keeps the permits of the thread', entitled(e) == mine)
    ok(e, len(hand(e)) == len(h1), 'a loop under the lock keeps the connections in hand')
    e.oblige('a loop under the lock keeps room for the shared connections in hand', shared_total(e) + nh <= G(e, 'limits')['shared'])
    d = G(e, 'depth')
    check(e)
    raise PathEnd()


# ------------------------------------------------------------------ the pool
FIELDS = {'_creator', '_args', '_kwargs', '_blocking', '_maxusage', '_setsession', '_reset', '_failures', '_ping', '_maxcached', '_maxshared', '_maxconnections', '_idle_cache',
          '_lock', '_connections'}


def eng(ctx):
    e = ctx.engine({PD + ':PooledDB.steady_connection': k_steady}, {'threading.Condition': make_lock, 'threading.RLock': make_lock, 'threading.Lock': make_lock},
                   {'while_loop': while_loop, 'max_paths': 40000, 'max_steps': 40000000})
    ctx.assume('one thread uses a lent handle at a time; the pool\'s state is changed only through its methods')
    ctx.assume('a pool that shares connections is used with connections that are thread-safe (otherwise every request for one is refused)')
    ctx.assume('contract of the steady connection (C16): _reset, close and _ping_check do not raise; _reset(True) rolls back')
    return e


def zmax(a, b):
    return z3.If(a >= b, a, b)


def new_pool(e):
    put(e, depth=0, mine=z3.IntVal(0), others=z3.IntVal(0), n_idle=z3.IntVal(0), n_sh=z3.IntVal(0), idle_in=(), sh_in=(), sh={}, tok={}, reset=z3.Bool('reset'))
    mc, ms, mx, ts = (z3.Int(n) for n in ('maxcached', 'maxshared', 'maxconnections', 'threadsafety'))
    lv = z3.Int('level')
    e.assume(z3.And(mc >= 0, ms >= 0, mx >= 0, ts >= 1, ts <= 3, lv >= 0, lv <= 3, z3.Implies(z3.And(ts > 1, ms > 0), lv > 1)))
    cr = Opaque('driver', {'threadsafety': Sym('int', ts), 'closed_attrs': True})
    opt = lambda t: None if e.branch(z3.And(t == 0, e.fresh(z3.BoolSort(), 'none'))) else Sym('int', t)
    r = e.outcomes(lambda: e.call(e.get_global(PD, 'PooledDB'), [cr], {'maxcached': opt(mc), 'maxshared': Sym('int', ms), 'maxconnections': opt(mx), 'blocking': Sym('bool', z3.Bool('blocking')),
                                                                      'reset': Sym('bool', z3.Bool('reset'))}))
    if r[0] != 'ok':
        raise Unsupported('constructor of the pool')
    p = e.resolve(r[1])
    have = set(e.obj(p).attrs)
    if have - FIELDS - {'_shared_cache'} or FIELDS - have:
        raise Unsupported('fields of the pool: %s' % sorted(have ^ FIELDS))
    sharing = '_shared_cache' in have
    return p, {'max': z3.If(mx > 0, zmax(mx, zmax(mc, ms)), 0), 'cached': mc, 'shared': z3.If(ts > 1, ms, 0)}, sharing


def arbitrary(e, p, limits, sharing):
    put(e, pool=p, limits=limits)
    e.setattr_(p, '_idle_cache', idle_cache())
    if sharing:
        e.setattr_(p, '_shared_cache', shared_cache())


def t_init(ctx):
    """the constructor establishes the invariant"""
    e = eng(ctx)
    ctx.func(e, PD, 'PooledDB.__init__')

    def run():
        return None, e.outcomes(lambda: new_pool(e))

    def onp(c, r):
        p, L, sharing = r[1]
        ctx.cover('sharing' if sharing else 'dedicated')
        at = e.obj(p).attrs
        e.prove_eq('a new pool has no connection in use', at['_connections'], 0)
        ok(e, not e.obj(e.resolve(at['_idle_cache'])).segs, 'a new pool has no idle connection')
        e.oblige('the idle cache is bounded by maxcached', e.num_term(e.resolve(at['_maxcached'])) == L['cached'])
        e.oblige('connections are bounded by maxconnections, or by maxcached or maxshared if those are more', e.num_term(e.resolve(at['_maxconnections'])) == L['max'])
        e.oblige('connections are shared only when the driver allows it', e.num_term(e.resolve(at['_maxshared'])) == L['shared'])
        (e.ok if sharing else lambda n: e.oblige(n, L['shared'] == 0))('a pool that shares has a shared cache')
    ctx.explore(e, PD + ':PooledDB.__init__', run, onp)


def t_connection(ctx):
    for api in ('connection', 'dedicated_connection'):
        e = eng(ctx)
        for q in ('PooledDB.connection', 'PooledDB._wait_lock', 'PooledDB.dedicated_connection', 'PooledDedicatedDBConnection.__init__', 'PooledSharedDBConnection.__init__',
                  'SharedDBConnection.__init__', 'SharedDBConnection.share'):
            ctx.func(e, PD, q)

        def run(api=api):
            arbitrary(e, *new_pool(e))
            a = [Sym('bool', z3.Bool('shareable'))] if api == 'connection' else []
            return None, e.outcomes(lambda: e.call(e.getattr_(G(e, 'pool'), api), a, {}))

        def onp(c, r, api=api):
            ok(e, G(e, 'depth') == 0, 'the lock is released')
            if G(e, 'depth'):
                return
            shares = [x for x in G(e, 'sh').values() if not e.must(x['mine'] == 0)]
            if r[0] != 'ok':
                ctx.cover('refused')
                e.oblige('a refused connection is not counted', G(e, 'mine') == 0)
                for x in G(e, 'sh').values():
                    e.oblige('a refused connection is not shared', x['mine'] == 0)
                return
            h = e.resolve(r[1])
            at = e.obj(h).attrs
            c = e.resolve(at['_con'])
            if e.obj(h).cls == e.get_global(PD, 'PooledDedicatedDBConnection'):
                ctx.cover('dedicated')
                ok(e, is_token(c) and tok(e, c)['own'], 'a connection lent exclusively is in no cache and lent to nobody else')
                ok(e, not tok(e, c)['closed'], 'a connection that is lent is open')
                e.oblige('a connection that is lent is counted once', G(e, 'mine') == 1)
                ok(e, not shares, 'a connection lent exclusively is not shared')
                if api == 'connection':
                    e.oblige('a shareable request is shared when the pool shares', z3.Not(z3.And(z3.Bool('shareable'), G(e, 'limits')['shared'] > 0)))
            elif e.obj(h).cls == e.get_global(PD, 'PooledSharedDBConnection'):
                ctx.cover('shared')
                e.oblige('a connection is shared only when asked for', z3.Bool('shareable') if api == 'connection' else z3.BoolVal(False))
                e.oblige('a shared connection is counted in the shared cache', G(e, 'mine') == 0)
                s = e.resolve(at['_shared_con'])
                ok(e, c is e.resolve(e.obj(s).attrs['con']), 'a shared handle uses the connection it shares')
                x = tok(e, c)
                if x.get('borrowed'):
                    nm = 'a connection somebody else has borrowed is lent again only when it was seen to be outside a transaction, under the same lock'
                    if x.get('tx') is None:
                        e.fail(nm, 'not looked at')
                    else:
                        e.oblige(nm, z3.Not(x['tx']))
                ok(e, [x['ref'] for x in shares] == [s], 'only the lent connection gets a borrower')
                e.oblige('a borrower of a shared connection is counted once', shared_info(e, s)['mine'] == 1)
            else:
                raise Unsupported('kind of handle')
        ctx.explore(e, PD + ':PooledDB.' + api, run, onp)


def t_close_dedicated(ctx):
    """a dedicated handle: returned once, however often and in whatever way it is closed"""
    for ways in (['close', 'close', '__del__'], ['__exit__', 'close'], ['__del__', 'close']):
        e = eng(ctx)
        for q in ('PooledDB.cache', 'PooledDedicatedDBConnection.close', 'PooledDedicatedDBConnection.__exit__', 'PooledDedicatedDBConnection.__del__',
                  'PooledDedicatedDBConnection.__getattr__'):
            ctx.func(e, PD, q)

        def run(ways=ways):
            arbitrary(e, *new_pool(e))
            p = G(e, 'pool')
            e.assume(z3.Int('level') > 0)
            c = token(e, True, clean=False)
            put(e, mine=z3.IntVal(1))
            h = e.call(e.get_global(PD, 'PooledDedicatedDBConnection'), [p, c], {})
            rs = []
            for w in ways:
                rs.append(e.outcomes(lambda: e.call(e.getattr_(h, w), [None, None, None] if w == '__exit__' else [], {})))
            use = e.outcomes(lambda: e.getattr_(h, 'cursor'))
            return c, (rs, use)

        def onp(c, ru):
            rs, use = ru
            ctx.cover('closed')
            ok(e, G(e, 'depth') == 0, 'the lock is released')
            ok(e, all(r[0] == 'ok' for r in rs), 'closing a handle does not complain')
            e.oblige('a connection that was returned is not counted any more', G(e, 'mine') == 0)
            ok(e, not tok(e, c)['own'] or tok(e, c)['closed'], 'a returned connection is idle or closed')
            ok(e, use[0] == 'raise' and e.obj(use[1]).cls == e.get_global(PD, 'InvalidConnection'), 'a closed handle cannot be used any more')
        ctx.explore(e, PD + ':PooledDedicatedDBConnection.close', run, onp)


def t_close_shared(ctx):
    for ways in (['close', 'close', '__del__'], ['__exit__', 'close'], ['__del__', 'close']):
        e = eng(ctx)
        for q in ('PooledDB.unshare', 'PooledDB.cache', 'PooledSharedDBConnection.close', 'PooledSharedDBConnection.__exit__', 'PooledSharedDBConnection.__del__',
                  'PooledSharedDBConnection.__getattr__', 'SharedDBConnection.unshare', 'SharedDBConnection.__eq__'):
            ctx.func(e, PD, q)

        def run(ways=ways):
            p, L, sharing = new_pool(e)
            if not sharing:
                raise PathEnd()
            arbitrary(e, p, L, sharing)
            e.assume(z3.And(z3.Int('threadsafety') > 1, z3.Int('maxshared') > 0))
            s = shared_elem(e, False)
            set_shared(e, s, mine=z3.IntVal(1), handle=True)
            settok(e, e.resolve(e.obj(s).attrs['con']), clean=False)
            h = e.call(e.get_global(PD, 'PooledSharedDBConnection'), [p, s], {})
            rs = []
            for w in ways:
                rs.append(e.outcomes(lambda: e.call(e.getattr_(h, w), [None, None, None] if w == '__exit__' else [], {})))
                if not rs[1:]:
                    set_shared(e, s, handle=False)
            use = e.outcomes(lambda: e.getattr_(h, 'cursor'))
            return s, (rs, use)

        def onp(s, ru):
            rs, use = ru
            c = e.resolve(e.obj(s).attrs['con'])
            x = shared_info(e, s)
            ctx.cover('pool closed' if x['gone'] else 'last' if tok(e, c)['closed'] or c in G(e, 'idle_in') else 'others')
            ok(e, G(e, 'depth') == 0, 'the lock is released')
            ok(e, all(r[0] == 'ok' for r in rs), 'closing a handle does not complain')
            e.oblige('a shared connection that was returned is not counted any more', G(e, 'mine') == 0)
            if not x['gone']:
                if s in G(e, 'sh_in'):
                    e.oblige('the borrower is not counted any more', x['mine'] == 0)
            e.oblige('exactly one borrower left', e.num_term(e.resolve(e.obj(s).attrs['shared'])) == x['others'])
            ok(e, not tok(e, c)['own'] or tok(e, c)['closed'], 'a returned connection is shared by others, idle or closed')
            ok(e, use[0] == 'raise' and e.obj(use[1]).cls == e.get_global(PD, 'InvalidConnection'), 'a closed handle cannot be used any more')
        ctx.explore(e, PD + ':PooledSharedDBConnection.close', run, onp)


def t_close_pool(ctx):
    for api in ('close', '__del__'):
        e = eng(ctx)
        ctx.func(e, PD, 'PooledDB.' + api)

        def run(api=api):
            arbitrary(e, *new_pool(e))
            return None, e.outcomes(lambda: e.call(e.getattr_(G(e, 'pool'), api), [], {}))

        def onp(c, r):
            ctx.cover('closed')
            ok(e, r[0] == 'ok', 'closing the pool does not complain')
            ok(e, G(e, 'depth') == 0, 'the lock is released')
            e.oblige('a closed pool counts the connections that are still lent', G(e, 'mine') == 0)
            ok(e, not hand(e), 'connections taken out by closing the pool are closed')
        ctx.explore(e, PD + ':PooledDB.' + api, run, onp)


def t_init_cached(ctx):
    """mincached connections at the start: the constructor opens and returns them (bounded: up to 3)"""
    ctx.bounded.append('PooledDB.__init__ with mincached: checked for 1, 2 and 3 (the loop only calls dedicated_connection and close, which are proved)')
    for n in (1, 2, 3):
        e = eng(ctx)
        e.opts['while_loop'] = None
        ctx.func(e, PD, 'PooledDB.__init__')
        quiet = Builtin('q', lambda e, a, k: None)
        e.externals['threading.Condition'] = lambda e, a, k: Opaque('lock', {k: quiet for k in ('__enter__', '__exit__', 'notify', 'notify_all')})

        def run(n=n):
            put(e, tok={}, reset=z3.BoolVal(True))
            mx = [0, 1, 2, 5][e.choose([True] * 4)]
            mc = [0, 1, 3][e.choose([True] * 3)]
            cr = Opaque('driver', {'threadsafety': 1, 'closed_attrs': True})
            e.assume(z3.Int('level') > 0)
            r = e.outcomes(lambda: e.call(e.get_global(PD, 'PooledDB'), [cr, n, mc, 0, mx], {}))
            return (n, mc, mx), r

        def onp(c, r):
            n, mc, mx = c
            if r[0] != 'ok':
                ctx.cover('refused')
                return
            ctx.cover('opened')
            at = e.obj(e.resolve(r[1])).attrs
            e.prove_eq('a new pool has no connection in use', at['_connections'], 0)
            idle = [e.resolve(x.v) for x in e.obj(e.resolve(at['_idle_cache'])).segs]
            ok(e, len(idle) == n and len({x.attrs['id'] for x in idle}) == n and all(tok(e, x)['clean'] and not tok(e, x)['closed'] for x in idle),
               'a new pool has mincached different idle connections', str(idle))
        ctx.explore(e, PD + ':PooledDB.__init__ (mincached)', run, onp)


C15 = [('constructor', t_init), ('connection', t_connection), ('dedicated handle', t_close_dedicated), ('shared handle', t_close_shared), ('close pool', t_close_pool),
       ('mincached', t_init_cached)]
