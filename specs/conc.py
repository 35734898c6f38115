"""C24: requests that run at the same time do not disturb each other.

Frame conditions of the request path: the functions that rewrite, execute and decrypt write nothing that the threads of the process share (module and class
state, and the metadata it holds), except through the monitors of the metadata (Delta.update_delta, delete_delta, __new__, under one lock), the connection
pools and the parser's lock.  With nothing shared written, a request depends on another one only through the recorded tables.  Every task below runs the
functions of another property's task, on the same arbitrary statements, metadata and answers, with every store checked against the frame."""
import z3
from pyded.values import *
from pyded.engine import Unsupported, simp, PathEnd
from specs import rewriting as rw, runtime as rt, formatting as fo, crypto as cr, ope
from specs.runtime import WEXT, WVAL, dct, log

MM, RX = rw.MM, rt.RX
FRAME = 'a request writes nothing that other requests see'
LIVE = 'a request does not go through tables one by one while another may add one'
MINE = (FRAME, LIVE)
GUARD = 'what the requests share is changed only with the lock of the metadata held'
CONN = 'the connection to the store is used by one request at a time'
ONE = 'a change of the metadata is one critical section'
WHOLE = 'a recorded table is complete when another request sees it'
FREE = 'the lock is released'


def describe(e, i, old, new):
    if isinstance(i, tuple):
        return 'module variable %s.%s' % (i[1], old)
    if isinstance(new, IObj):
        names = [k for k in new.attrs if k not in old.attrs or old.attrs[k] is not new.attrs[k]] if isinstance(old, IObj) else []
        for k, fr in list(e.st.heap.items()):
            if isinstance(k, tuple):
                for n, v in fr.items():
                    if isinstance(v, ClassVal) and v.ref.id == i:
                        return 'class attribute %s.%s' % (n, ', '.join(names))
        return 'attribute %s of a shared object' % ', '.join(names)
    for k, fr in list(e.st.heap.items()):
        if isinstance(k, tuple):
            for n, v in fr.items():
                if isinstance(v, Ref) and v.id == i:
                    return 'contents of %s.%s' % (k[1], n)
    return 'contents of a shared %s' % {'DObj': 'dict', 'LObj': 'list', 'SetObj': 'set'}.get(type(new).__name__, 'object')


def allowed(e, what):
    return what in e.opts.get('monitors', ())


def watch(e, i, old, new):
    what = describe(e, i, old, new)
    if allowed(e, what):
        return
    if isinstance(new, DObj) and not (isinstance(old, DObj) and old.base is not None) and not e.opts.get('strict'):
        raise Unsupported('%s: an entry is put into %s (a cache?)' % (FRAME, what))
    if e.st.ghost.get('deepcopied'):
        raise Unsupported('%s: after a deep copy of the metadata' % FRAME)
    if isinstance(i, tuple) or isinstance(new, IObj):
        v = new if isinstance(i, tuple) else [new.attrs[k] for k in new.attrs if k not in old.attrs or old.attrs[k] is not new.attrs[k]]
        if all(isinstance(x, (int, str, float, type(None), FuncVal, ClassVal)) for x in (v if isinstance(v, list) else [v])):
            raise Unsupported('%s: %s is set to a constant' % (FRAME, what))
    e.fail(FRAME, what)


def live(e, o):
    """a loop over a dict of the metadata itself: tables come and go, the columns of one do not"""
    v = o.shape.val if isinstance(o.shape, MapT) else None
    dbs = isinstance(v, MapT)
    t = v.val if dbs else v
    if isinstance(t, DictT) and 'columns' in t.req or isinstance(t, ObjT) and t.name == 'table':
        e.fail(LIVE, 'a loop over the recorded %s' % ('databases' if dbs else 'tables'))


class Framed:
    """runs another task's functions and keeps only the frame obligations"""

    def __init__(self, ctx, roots, monitors):
        self.ctx, self.roots, self.monitors = ctx, roots, monitors
        self.mine = []

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def engine(self, contracts=None, externals=None, opts=None, values=None, overrides=None):
        e = self.ctx.engine(contracts, externals, dict(opts or {}, watch=watch, live=live, shared_roots=self.roots, monitors=self.monitors), values, overrides)
        self.mine.append(e)
        # what the task proves about the values is its own property's matter
        fail, ok = e.fail, e.ok
        e.oblige = e.prove_eq = lambda *a, **k: None
        e.fail = lambda name, *a, **k: fail(name, *a, **k) if name in MINE else None
        e.ok = lambda name: ok(name) if name in MINE else None
        return e

    def cover(self, name):
        pass

    def assume(self, text):
        self.ctx.assume(text)

    def explore(self, e, cur, run, onp):
        def end(kind, val):
            self.ctx.cover(cur.split(':')[-1])
            for n in MINE:
                if not any(o.name == n and o.status != 'discharged' for o in e.obligations):
                    e.ok(n)

        def go():
            try:
                return run()
            except PathEnd:      # the end of a loop's arbitrary iteration
                end(None, None)
                raise
        self.ctx.explore(e, cur, go, end)


def framed(fn, roots=('meta', 'db_meta'), monitors=()):
    def task(ctx):
        f = Framed(ctx, roots, monitors)
        try:
            fn(f)
        finally:
            for e in f.mine:
                e.obligations[:] = [o for o in e.obligations if o.name in MINE]
    return task


# ------------------------------------------------------------------ the metadata as a monitor
def held(e):
    return {n for n, c in (e.st.ghost.get('held') or {}).items() if c and not n.startswith('private')}


def lock_name(e, me):
    """where the modules or classes hold the lock"""
    for k, fr in e.st.heap.items():
        if isinstance(k, tuple):
            for n, v in fr.items():
                if isinstance(v, Opaque) and v.name == me:
                    return '%s.%s' % (k[1], n)
                if isinstance(v, ClassVal):
                    for a, x in e.obj(v.ref).attrs.items():
                        if isinstance(x, Opaque) and x.name == me:
                            return '%s.%s.%s' % (k[1], n, a)
    return None


def section(e, name, what, locks):
    """what is done here needs the lock, and belongs to the critical section of the change"""
    h = {lock_name(e, x) for x in held(e)} - {None}
    if not h:
        e.fail(name, what)
        return
    e.ok(name)
    locks.append(frozenset(h))
    if e.st.ghost.get('one'):
        now = e.st.ghost.get('acquired', 0)
        first = e.st.ghost.get('section', now)
        e.setghost('section', first)
        (e.ok if first == now else lambda x: e.fail(x, what))(ONE)


def level(e, i):
    """0: the dict of databases, 1: a dict of tables"""
    M = e.obj(e.get_global(MM, 'Delta').ref).attrs.get('meta')
    if not isinstance(M, Ref):
        return None
    if M.id == i:
        return 0
    return 1 if any(isinstance(en, tuple) and isinstance(en[1], Ref) and en[1].id == i for en in e.obj(M).ents) else None


class Guarded(Framed):
    """runs another task's functions with every store to what the requests share, and every use of the store's connection, checked for the lock; before the
    lock is taken first another request may have changed the metadata"""

    def __init__(self, ctx, keep=None, fails=None, locks=None):
        Framed.__init__(self, ctx, (), ())
        self.keep, self.fails, self.locks = keep, fails, locks if locks is not None else []

    def engine(self, contracts=None, externals=None, opts=None, values=None, overrides=None):
        def guard(e, i, old, new):
            what = describe(e, i, old, new)
            section(e, GUARD, what, self.locks)
            if isinstance(new, DObj) and level(e, i) is None:
                e.fail(WHOLE, what)

        def on_log(e, ev):
            if ev[0] in ('sent', 'many', 'commit'):
                section(e, CONN, ev[0], self.locks)
                if self.fails == ev[0]:
                    e.raise_(RuntimeError, 'the store fails')

        def on_acquire(e, l):
            if e.st.ghost.get('peeking'):
                raise Waits()
            e.setghost('acquired', e.st.ghost.get('acquired', 0) + 1)
            p = e.st.ghost.get('pending')
            if p and not l.startswith('private'):
                e.setghost('pending', None)
                p(e)

        def on_enter(e):
            cls = e.get_global(MM, 'Delta')
            if e.st.ghost.get('entered') or not e.st.ghost.get('store'):
                return
            e.setghost('entered', True)
            e.setghost('one', True)
            e.setghost('shared', tuple(Ref(k) for k, v in e.st.heap.items() if isinstance(v, IObj) and v.cls is cls))
            e.mark_shared()
            at = e.obj(cls.ref).attrs
            M = at.get('meta')
            if not isinstance(M, Ref):
                return
            o = e.obj(M)
            states = [None]
            if o.ents or o.base is not None:
                states.append((cls.ref.id, IObj(cls.ref and e.obj(cls.ref).cls, dict(at, meta=None))))
            if o.ents:
                states.append((M.id, DObj(o.base, o.shape, [], tuple(o.absent) + tuple(en[0] for en in o.ents if isinstance(en, tuple)))))
            s = states[e.choose([True] * len(states))]
            if s is not None:
                now = e.st.heap[s[0]]
                e.st.heap[s[0]] = s[1]
                if isinstance(now, IObj):     # another request has recorded the first table
                    e.setghost('pending', lambda e: e.st.heap.update({s[0]: IObj(now.cls, dict(e.st.heap[s[0]].attrs, meta=now.attrs['meta']))}))
                else:
                    e.setghost('pending', lambda e: e.st.heap.update({s[0]: now}))
        e = self.ctx.engine(contracts, externals, dict(opts or {}, watch=guard, remark=True, on_log=on_log, on_acquire=on_acquire, on_enter=on_enter), values,
                            dict(overrides or {}))
        self.mine.append(e)
        if self.keep is not None:
            fail, ok = e.fail, e.ok
            e.oblige = e.prove_eq = lambda *a, **k: None
            e.fail = lambda name, *a, **k: fail(name, *a, **k) if name in self.keep else None
            e.ok = lambda name: ok(name) if name in self.keep else None
        return e

    def cover(self, name):
        self.ctx.cover(name)

    def explore(self, e, cur, run, onp):
        def go():
            e.setghost('store', True)
            return run()

        def end(c, r):
            h = [n for n, k in (e.st.ghost.get('held') or {}).items() if k]
            (e.ok if not h else lambda x: e.fail(x, str(h)))(FREE)
            if self.keep is None:
                onp(c, r)
            else:
                self.ctx.cover('the store fails' if r[0] != 'ok' else 'the store works')
        self.ctx.explore(e, cur, go, end)


class Waits(Exception):
    """the other request waits for a lock"""


def the_lock(ctx, locks):
    e = ctx.engines[-1]
    e.cur = MM + ':Delta'
    names = set.intersection(*[set(x) for x in locks]) if locks else set()
    (e.ok if names else lambda x: e.fail(x, str(set(locks))))('it is the same lock everywhere')


def t_monitor(ctx):
    """update_delta, delete_delta, __new__: one lock; check-then-act outside it fails"""
    locks = []
    rt.t_record(Guarded(ctx, locks=locks))
    rt.t_delete(Guarded(ctx, locks=locks))
    for f in ('sent', 'many', 'commit'):
        rt.t_record(Guarded(ctx, keep=(GUARD, CONN, ONE, WHOLE, FREE), fails=f, locks=locks))
    for f in ('sent', 'commit'):
        rt.t_delete(Guarded(ctx, keep=(GUARD, CONN, ONE, WHOLE, FREE), fails=f, locks=locks))
    publish(ctx, locks)
    the_lock(ctx, locks)


def publish(ctx, locks):
    """Delta(): whoever gets the instance, with or without waiting, finds the metadata loaded, once"""
    nm = 'a request that gets the metadata finds it loaded'

    def new(e):
        cls = e.get_global(MM, 'Delta')
        return e.call(e.getattr_(cls, '__new__'), [cls], {})

    def meta(e):
        return e.resolve(e.getattr_(e.get_global(MM, 'Delta'), 'meta'))

    def guard(e, i, old, new_):
        section(e, GUARD, describe(e, i, old, new_), locks)

    def peek(e):
        """another request asks for the metadata just now"""
        if e.st.ghost.get('peeking'):
            return
        now = e.st
        e.st = now.copy()
        e.setghost('peeking', True)
        e.setghost('held', {})
        try:
            e.resolve(new(e))
            (e.ok if meta(e) is not None and meta(e) == e.st.ghost.get('loaded') else lambda x: e.fail(x, 'the instance is there before'))(nm)
            c = e.getattr_(e.get_global(MM, 'Delta'), 'db_conn')
            (e.ok if isinstance(c, Opaque) else lambda x: e.fail(x, 'no connection'))(nm)
        except Waits:
            e.ok(nm)
        finally:
            e.st = now

    def on_acquire(e, l):
        if e.st.ghost.get('peeking'):
            raise Waits()
        p = e.st.ghost.get('pending')
        if p and not l.startswith('private'):
            e.setghost('pending', None)
            p(e)

    def load(e, f, a, k):
        log(e, 'sent', 'load')
        r = dct(e)
        e.setghost('loads', e.st.ghost.get('loads', 0) + 1)
        e.setghost('loaded', r)
        return r

    def on_log(e, ev):
        section(e, CONN, 'loading', locks)
    e = ctx.engine({MM + ':Delta.load_delta': load}, WEXT, {'watch': guard, 'remark': True, 'after': peek, 'on_acquire': on_acquire, 'on_log': on_log}, WVAL,
                   {MM + ':db_conn': lambda e: rt.store_conn(e)})
    ctx.func(e, MM, 'Delta.__new__')

    def state(e):
        cls = e.get_global(MM, 'Delta')
        return {k: v for k, v in e.st.heap.items() if k == cls.ref.id or isinstance(k, tuple)}

    def run():
        cls = e.get_global(MM, 'Delta')
        e.getattr_(cls, 'meta')
        first = state(e)
        a = e.outcomes(lambda: e.resolve(new(e)))
        if a[0] != 'ok':
            return None, a
        done, loaded = state(e), e.st.ghost.get('loaded')
        locks_ = {k: v for k, v in e.st.heap.items() if isinstance(k, tuple)}
        cls0 = first[cls.ref.id]
        # a second request that came while the first one was loading
        e.st.heap[cls.ref.id] = IObj(cls0.cls, {n: (done[cls.ref.id].attrs[n] if isinstance(v, Opaque) else v) for n, v in cls0.attrs.items()})
        e.setghost('pending', lambda e: e.st.heap.update(done))
        b = e.outcomes(lambda: e.resolve(new(e)))
        mb = meta(e)
        # a third one, afterwards
        c = e.outcomes(lambda: e.resolve(new(e)))
        return (a, b, c, loaded, mb, meta(e)), a

    def onp(c, r):
        if r[0] != 'ok':
            e.fail('getting the metadata does not fail', 'raises %r' % (e.obj(r[1]).cls,))
            return
        a, b, c3, loaded, mb, mc = c
        ctx.cover('published')
        for x in (b, c3):
            (e.ok if x[0] == 'ok' and x[1] == a[1] else lambda x_: e.fail(x_, str(x)))('every request gets the same metadata object')
        for x in (mb, mc):
            (e.ok if x is not None and x == loaded else lambda x_: e.fail(x_, str(x)))(nm)
        (e.ok if e.st.ghost.get('loads') == 1 else lambda x: e.fail(x, str(e.st.ghost.get('loads'))))('the metadata is loaded once')
        h = [n for n, k in (e.st.ghost.get('held') or {}).items() if k]
        (e.ok if not h else lambda x: e.fail(x, str(h)))(FREE)
    ctx.explore(e, MM + ':Delta.__new__', run, onp)


# ------------------------------------------------------------------ the parser's lock
SP = 'sql_parsing'


def t_parser(ctx):
    """the parser keeps what it has read in module variables: one statement at a time"""
    nm = 'the parser is used by one request at a time'

    def need(e, what):
        h = {lock_name(e, x) for x in held(e)} - {None}
        if h:
            locks.append(frozenset(h))
        (e.ok if h else lambda x: e.fail(x, what))(nm)
    locks = []

    def make(what):
        def f(e, fn, a, k):
            need(e, what)
            return Opaque('a grammar', {'parse_string': Builtin('parse_string', parse_string)})
        return f

    def parse_string(e, a, k):
        need(e, 'parse_string')
        if e.choose([True, True]) == 1:
            e.raise_(ValueError, 'no statement')
        return Opaque('what is read')

    def scrubbed(e, fn, a, k):
        need(e, 'scrub')
        return dct(e)
    SQ = SP + '.sql_parser'
    for f in ('parse', 'parse_mysql', 'parse_sqlserver'):
        e = ctx.engine({SQ + ':common_parser': make('grammar'), SQ + ':mysql_parser': make('grammar'), SQ + ':sqlserver_parser': make('grammar'),
                        SP + '.utils:scrub': scrubbed, SQ + ':scrub': scrubbed}, WEXT,
                       {'watch': lambda e, i, old, new: need(e, describe(e, i, old, new)), 'remark': True}, WVAL)
        fn = ctx.func(e, SP, f)

        def run(fn=fn, e=e):
            sql = Sym('str', z3.Const('sql', S))
            a = e.outcomes(lambda: e.call(fn, [sql], {}))
            b = e.outcomes(lambda: e.call(fn, [sql], {})) if a[0] != 'ok' else None
            return (a, b), a

        def onp(c, r, e=e):
            ctx.cover('read' if r[0] == 'ok' else 'refused')
            h = [n for n, k in (e.st.ghost.get('held') or {}).items() if k]
            (e.ok if not h else lambda x: e.fail(x, str(h)))(FREE)
        ctx.explore(e, SP + ':' + f, run, onp)
    e = ctx.engines[-1]
    names = set.intersection(*[set(x) for x in locks]) if locks else set()
    (e.ok if names else lambda x: e.fail(x, str(set(locks))))('it is the same lock everywhere')


POOLS = ('contents of scheduler.backend.executors.remote_executor.connection_pool', 'contents of scheduler.backend.execution_context.id_sql_map')
SOURCES = [(m, l) for m, l in ((rw, 'C07'), (rw, 'C08'), (rw, 'C09'), (rw, 'C10'), (rw, 'C11'), (rw, 'C12'), (rw, 'C21'), (rw, 'C05'), (rt, 'C06'), (rt, 'C14'), (rt, 'C22'), (fo, 'C17'), (fo, 'C18'),
                                        (cr, 'C03'), (cr, 'C04'), (ope, 'C01'), (ope, 'C02'))]
_seen = set()
LONG = ('monotone double', 'column float one', 'column int none', 'column varchar one')     # the others run the same functions
def t_tables(ctx):
    """from its beginning to its end a request goes by the tables as they were when it began: what another request drops or creates anew in between does
    not reach its answer (the tables its rows are decrypted with, the moduli its aggregates are taken with)"""
    KEPT = 'a request goes by the tables it began with'
    ctx.assume('an entry of the metadata is not changed once it is recorded (frame conditions and the monitor above)')
    for what in ('decryption', 'proxy', 'aggregate'):
        e = ctx.engine({}, WEXT, {}, WVAL)
        for f in ('get_db_meta',) + (('inject_procedure',) if what == 'aggregate' else ()):
            ctx.func(e, RX, ('ConvertExecutor.' if what == 'proxy' else 'RemoteExecutor.') + f)
        ctx.func(e, rw.CL + 'sql_clause', 'Clause.__init__')

        def feature(e, f, a, k):
            log(e, 'aggregate', e.resolve(a[-2]))
        e.contracts.update({MM + ':Delta.set_sum_feature': feature, MM + ':Delta.set_total_feature_num': lambda e, f, a, k: None,
                            MM + ':Delta.modify_sum_query': lambda e, f, a, k: e.fresh_sym('str'), MM + ':Delta.modify_avg_query': lambda e, f, a, k: e.fresh_sym('str'),
                            'sql_parsing:format': lambda e, f, a, k: e.fresh_sym('str')})
        e.externals['re.search'] = lambda e, a, k: Opaque('m', {'span': Builtin('span', lambda e, a, k: (e.fresh_sym('int'), e.fresh_sym('int')))})

        def rewrite(e, f, a, k):
            e.set_inst_attr(a[0], 'table_json', dct(e, ('select', dct(e, ('value', dct(e, ('sum', 'c5'))))), ('from', 'table_first')))
            return 'rewritten', 't'
        e.contracts[rw.RW + ':Rewriter.rewrite_query'] = rewrite

        def entry(e, nm):
            p, q = (Sym('int', z3.Int('%s_%s' % (nm, x))) for x in 'pq')
            h = e.alloc(LObj([Elem(p), Elem(q)]))
            col = dct(e, ('enc-cols', dct(e, ('arithmetic', 'c5'))), ('plaintext', False), ('type', 'int'), ('key', Sym('str', z3.Const(nm + '_key', z3.StringSort()))),
                      ('homomorphic_key', h))
            return dct(e, ('anonymous', 'table_' + nm), ('columns', dct(e, ('age', col)))), p.t * q.t * (p.t * q.t)

        def run():
            delta = e.get_global(MM, 'Delta')
            inst = e.alloc(IObj(delta, {}))
            e.contracts[MM + ':Delta'] = lambda e, c, a, k: inst
            (t0, n0), (t1, _n) = entry(e, 'first'), entry(e, 'second')
            e.setattr_(delta, 'meta', dct(e, ('d', dct(e, ('t', t0)))))
            me = e.alloc(IObj(e.get_global(RX, 'ConvertExecutor' if what == 'proxy' else 'RemoteExecutor'), {}))
            for k_, v in (('conn_info', dct(e, ('db', 'd'))), ('str_db', 'd'), ('conn', rt.conn_of(e)), ('table', None), ('result', None),
                          ('rewriter', None), ('encrypted_cols', None)):
                if k_ != ('conn_info' if what == 'proxy' else 'str_db'):
                    e.set_inst_attr(me, k_, v)
            if what == 'proxy':
                e.call(e.getattr_(me, 'dispatch'), ['d', 'a statement'], {})
            else:
                e.set_inst_attr(me, 'table', e.resolve(e.resolve(e.call(e.getattr_(me, 'dispatch'), ['a statement'], {}))[1]))
            # another request in between
            live = e.resolve(e.getitem(e.resolve(e.getattr_(delta, 'meta')), 'd'))
            other = e.choose([True] * 4)
            if other in (1, 2):
                e.call(e.getattr_(live, 'pop'), ['t', None], {})
            if other >= 2:
                e.call(e.getattr_(live, 'update'), [dct(e, ('t', t1))], {})
            ctx.cover('%s %d' % (what, other))
            if what == 'aggregate':
                e.setghost('trace', ())
                q = z3.Const('query', z3.StringSort())
                e.assume(z3.Contains(q, z3.StringVal(' SUM(')))
                return (t0, n0), e.outcomes(lambda: e.call(e.getattr_(me, 'inject_procedure'), [Sym('str', q)], {}))
            return (t0, n0), e.outcomes(lambda: e.call(e.getattr_(me, 'get_db_meta'), [], {}))

        def onp(c, r):
            t0, n0 = c
            if r[0] != 'ok':
                if what == 'aggregate' and any(x[0].endswith('failed') for x in rt.trace(e)):
                    return
                if 'AttributeError' in repr(e.obj(r[1]).cls):
                    raise Unsupported('an attribute that the request sets elsewhere')
                e.fail(KEPT, 'raises %r' % (e.obj(r[1]).cls,))
                return
            if what != 'aggregate':
                tables = e.resolve(e.resolve(r[1])[0])
                f, v = e.dict_lookup(tables, 't')
                (e.ok if f and e.resolve(v) == t0 else lambda x: e.fail(x, 'the rows are decrypted with another table'))(KEPT)
                return
            agg = [e.resolve(x[1]) for x in rt.trace(e) if x[0] == 'aggregate']
            if len(agg) != 1:
                e.fail(KEPT, 'not aggregated')
                return
            e.oblige(KEPT, e.num_term(e.resolve(agg[0][1])) == n0)
        ctx.explore(e, RX + ':%s of a request' % what, run, onp)


def t_forget(ctx):
    """DROP TABLE, and a CREATE TABLE that the database refuses, take the entry of their own table out of the metadata: one that another request has
    recorded under the same name meanwhile stays, in memory and in the store"""
    OTHERS, OWN = 'a table created anew by another request stays recorded', 'the dropped or refused table is taken out of the metadata'
    for name in ('DROP', 'CREATE'):
        e = rt.store_engine(ctx, 'mysql')
        ctx.func(e, RX, 'RemoteExecutor.call')
        ctx.func(e, MM, 'Delta.delete_delta')

        def run():
            e.setghost('sqls', rt.store_sql('mysql'))
            delta = e.get_global(MM, 'Delta')
            inst = e.alloc(IObj(delta, {}))
            e.contracts[MM + ':Delta'] = lambda e, c, a, k: inst
            t = Sym('str', z3.Const('table', z3.StringSort()))
            anon, newer = (Sym('str', z3.Const(n, z3.StringSort())) for n in ('anonymous', 'anonymous_of_the_other'))
            e.assume(anon.t != newer.t)
            first, second = dct(e, ('anonymous', anon)), dct(e, ('anonymous', newer))
            e.setattr_(delta, 'meta', dct(e, ('d', dct(e, (t, first)) if name == 'DROP' else dct(e))))
            e.setattr_(delta, 'db_conn', rt.store_conn(e))
            meet = e.choose([True, True]) == 1

            def rewrite(e, f, a, k):
                if name == 'DROP':
                    return 'rewritten', dct(e, ('table', t))
                live = e.resolve(e.getitem(e.resolve(e.getattr_(delta, 'meta')), 'd'))
                e.call(e.getattr_(live, 'update'), [dct(e, (t, first))], {})
                return 'rewritten', dct(e, ('table', t), ('anonymous', anon))

            def execute(e, a, k):
                if meet:
                    live = e.resolve(e.getitem(e.resolve(e.getattr_(delta, 'meta')), 'd'))
                    e.call(e.getattr_(live, 'update'), [dct(e, (t, second))], {})
                if name == 'CREATE':
                    e.raise_(RuntimeError, 'refused by the database')
            e.contracts[rw.RW + ':Rewriter.rewrite_query'] = rewrite
            cur = Opaque('cursor', {'execute': Builtin('execute', execute), 'close': Builtin('close', lambda e, a, k: None)})
            conn = Opaque('connection', {n: Builtin(n, (lambda e, a, k: cur) if n == 'cursor' else (lambda e, a, k: None)) for n in ('cursor', 'commit', 'close', 'rollback')})
            me = e.alloc(IObj(e.get_global(RX, 'RemoteExecutor'), {}))
            for k_, v in (('conn_info', dct(e, ('db', 'd'))), ('conn', conn), ('table', None), ('result', None), ('rewriter', None), ('encrypted_cols', None), ('meta', inst)):
                e.set_inst_attr(me, k_, v)
            qt = [v for n, v in rt.query_types(e) if n == name][0]
            r = e.outcomes(lambda: e.call(e.getattr_(me, 'call'), ['sql text', Opaque('parser', {'query_type': qt}), None], {}))
            return (t, second, meet), r

        def onp(c, r):
            t, second, meet = c
            if r[0] != ('ok' if name == 'DROP' else 'raise') or 'AttributeError' in (repr(e.obj(r[1]).cls) if r[0] == 'raise' else ''):
                raise Unsupported('%s ends with %s' % (name, r[0]))
            ctx.cover('%s %d' % (name, meet))
            live = e.resolve(e.getitem(e.resolve(e.getattr_(e.get_global(MM, 'Delta'), 'meta')), 'd'))
            f, v = e.dict_lookup(live, t)
            sent = [x for x in rt.trace(e) if x[0] == 'sent']
            if meet:
                (e.ok if f and e.resolve(v) == second and not sent else lambda x: e.fail(x, '%s: gone from %s' % (name, 'the store' if f else 'memory')))(OTHERS)
            else:
                (e.ok if not f and len(sent) == 1 else lambda x: e.fail(x, name))(OWN)
        ctx.explore(e, RX + ':RemoteExecutor.call (%s, the name taken by another request)' % name, run, onp)


C24 = []
for _m, _l in SOURCES:
    for _n, _f in getattr(_m, _l):
        if id(_f) not in _seen and _n != 'query ids' and not _n.startswith('width') and _n not in LONG:
            _seen.add(id(_f))
            C24.append(('frame of %s: %s' % (_l, _n), framed(_f, monitors=POOLS)))
C24 += [('the metadata is a monitor', t_monitor), ('the parser has a lock', t_parser), ('the tables of a request', t_tables), ('a name taken by another request', t_forget)]
