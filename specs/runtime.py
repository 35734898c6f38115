"""Contracts of the executor, the execution context and the metadata store (C06 server side, C13, C14, C22)."""
import re
import z3
from pyded.values import *
from pyded.engine import Unsupported, simp, PathEnd, LazyVal
from pyded import builtins_ as bi

MM = 'scheduler.schema.metadata'
RX = 'scheduler.backend.executors.remote_executor'
EC = 'scheduler.backend.execution_context'
KW = 'scheduler.compile.keywords_lists'


# ------------------------------------------------------------------ world model
def log(e, *ev):
    h = e.opts.get('on_log')
    if h is not None:
        h(e, ev)
    e.setghost('trace', e.st.ghost.get('trace', ()) + (ev,))


def trace(e):
    return e.st.ghost.get('trace', ())


def noop(e, a, k):
    return None


def logger(e):
    return Opaque('logger', {n: Builtin(n, noop) for n in ('info', 'debug', 'error', 'warning', 'exception', 'setLevel', 'addHandler')})


def mutex(kind):
    """a lock of the threading module; what is held by the running thread: ghost 'held' (lock -> how often)"""
    def new(e, a, k):
        # one that the modules or classes hold, or one that a function has made for itself
        me = '%slock %d' % ('' if e.lazy or not e.depth else 'private ', e.st.next_id)
        e.alloc(IObj(None, {}))

        def held(e):
            return dict(e.st.ghost.get('held') or {})

        def acquire(e, a, k):
            h = held(e)
            if kind == 'Lock' and h.get(me):
                e.fail('a request does not wait for a lock it holds itself', me)
                raise PathEnd()
            if not h.get(me):
                e.opts.get('on_acquire', lambda e, l: None)(e, me)
            h[me] = h.get(me, 0) + 1
            e.setghost('held', h)
            return True

        def release(e, a, k):
            h = held(e)
            if not h.get(me):
                e.raise_(RuntimeError, 'cannot release un-acquired lock')
            h[me] -= 1
            e.setghost('held', h)
        return Opaque(me, {'__enter__': Builtin('__enter__', acquire), '__exit__': Builtin('__exit__', release), 'acquire': Builtin('acquire', acquire),
                           'release': Builtin('release', release)})
    return new


WEXT = {'threading.RLock': mutex('RLock'), 'threading.Lock': mutex('Lock'), 'logging.getLogger': lambda e, a, k: logger(e), 'logging.FileHandler': lambda e, a, k: logger(e), 'logging.info': noop,
        'logging.debug': noop, 'logging.error': noop, 'logging.warning': noop, 'time.time': lambda e, a, k: e.fresh_sym('real'),
        'copy.deepcopy': lambda e, a, k: a[0], 'print': noop}
WVAL = {'logging.INFO': lambda e: 20, 'mysql.connector': lambda e: Opaque('mysql.connector')}


def failing(e, name, what):
    """an outside call: succeeds, or raises an error of its own"""
    log(e, name)
    if e.choose([True, True]) == 1:
        log(e, name + ' failed')
        e.raise_(RuntimeError, what)


def cursor_of(e, tag=''):
    def execute(e, a, k):
        log(e, 'sent', a[0], a[1] if len(a) > 1 else None)
        failing(e, 'execute', 'rejected by the database')

    def fetchall(e, a, k):
        failing(e, 'fetchall', 'lost')
        rows = Opaque('rows of the database')
        e.setghost('rows', rows)
        return rows
    return Opaque('cursor' + tag, {'execute': Builtin('execute', execute), 'fetchall': Builtin('fetchall', fetchall), 'close': Builtin('close', noop),
                                   'rowcount': 0})


def conn_of(e):
    def cursor(e, a, k):
        failing(e, 'cursor', 'no cursor')
        return cursor_of(e)

    def commit(e, a, k):
        failing(e, 'commit', 'commit failed')

    def close(e, a, k):
        log(e, 'close')

    def rollback(e, a, k):
        log(e, 'rollback')
    return Opaque('connection', {'cursor': Builtin('cursor', cursor), 'commit': Builtin('commit', commit), 'close': Builtin('close', close),
                                 'rollback': Builtin('rollback', rollback)})


def dct(e, *kv):
    return e.alloc(DObj(None, None, list(kv)))


# ------------------------------------------------------------------ C06: the aggregation statements
COL = DictT({'enc-cols': DictT({}, {'arithmetic': StrT, 'symmetric': StrT, 'order-preserving': StrT}), 'homomorphic_key': TupT([IntT, IntT])})


def flat_concat(t):
    t = simp(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for c in t.children() for x in flat_concat(c)]
    return [t]


def marked(e, v, marks):
    """text of a symbolic string with the given terms replaced by markers"""
    if isinstance(v, str):
        return v
    out = []
    for p in flat_concat(e.str_term(v)):
        if z3.is_string_value(p):
            out.append(bi.zs(p) if hasattr(bi, 'zs') else p.as_string())
            continue
        for nm, t in marks.items():
            if z3.eq(simp(t), p):
                out.append(nm)
                break
        else:
            out.append('<?>')
    return ''.join(out)


def t_paillier_info(ctx):
    ctx.assume('a physical column name belongs to one column of a table (C12)')
    for fn in ('sum', 'avg', 'both'):
        def span(e, a, k):
            return (e.fresh_sym('int'), e.fresh_sym('int'))
        e = ctx.engine({}, dict(WEXT, **{'re.search': lambda e, a, k: Opaque('m', {'span': Builtin('span', span)})}), {}, WVAL)
        e.contracts['sql_parsing:format'] = lambda e, f, a, k: e.fresh_sym('str')
        ctx.func(e, MM, 'Delta.get_paillier_procedure_info')

        def run():
            cls = e.get_global(MM, 'Delta')
            cv = z3.Const('columns', V)
            cols = e.from_V(cv, MapT(COL))
            meta = dct(e, ('d', dct(e, ('t', dct(e, ('columns', cols))))))
            feats = []

            def item(f, nm):
                t = z3.Const(nm, S)
                feats.append((f, t))
                return dct(e, ('value', dct(e, (f, Sym('str', t)))))
            if fn == 'both':
                # items of a list carry their value under 'value' only when aliased; the function reads the plain form
                sel = e.alloc(LObj([Elem(dct(e, ('sum', Sym('str', z3.Const('f0', S))))), Elem(dct(e, ('avg', Sym('str', z3.Const('f1', S)))))]))
            else:
                sel = item(fn, 'f0')
            e.setattr_(cls, 'meta', meta)
            rec = dct(e, ('select', sel), ('from', 'physical'))
            return cv, e.outcomes(lambda: e.call(e.getattr_(cls, 'get_paillier_procedure_info'), [e.fresh_sym('str'), 'd', 't', rec], {}))

        def onp(cv, r):
            if r[0] != 'ok':
                e.fail('the aggregation columns are found', 'raises %r' % (e.obj(r[1]).cls,))
                return
            ls = e.resolve(r[1])
            kk = z3.Const('anycol', V)
            ent = dget(cv, kk)
            e.assume(z3.ForAll([kk], z3.Implies(dhas(cv, kk), z3.And(NSQ(V.sv(dget(dget(ent, VS('enc-cols')), VS('arithmetic')))) == sq(cv, kk))),
                               patterns=[ent]))
            ix = z3.Int('ix')
            e.assume(z3.ForAll([ix], z3.Implies(z3.And(ix >= 0, ix < dlen(cv)), dhas(cv, dkey(cv, ix))), patterns=[dkey(cv, ix)]))
            for li, f in ((0, 'sum'), (1, 'avg')):
                for seg in e.obj(e.resolve(ls[li])).segs:
                    nm, n2 = e.resolve(seg.v)
                    ctx.cover(f)
                    name = e.str_term(e.resolve(e.getitem(bi_split(e, nm), -1)))
                    e.oblige('each aggregated column is paired with n^2 of its own key (%s)' % f, e.num_term(e.resolve(n2)) == NSQ(name))
        ctx.explore(e, MM + ':Delta.get_paillier_procedure_info', run, onp)


NSQ = z3.Function('n_square_of_physical_column', S, I)


def VS(s):
    return V.VStr(z3.StringVal(s))


def iv_(v):
    return V.iv(v)


def sq(cv, c):
    k = dget(dget(cv, c), VS('homomorphic_key'))
    n = V.iv(lget(k, 0)) * V.iv(lget(k, 1))
    return n * n


def bi_split(e, s):
    return e.call(e.getattr_(s, 'split'), ['.'], {})


def t_aggregate_statements(ctx):
    """set_sum_feature: the statement multiplies exactly the feature column modulo exactly the given n^2"""
    e = ctx.engine({}, WEXT, {}, WVAL)
    f = ctx.func(e, MM, 'Delta.set_sum_feature')

    def run():
        cls = e.get_global(MM, 'Delta')
        n2 = z3.Int('n_square')
        F, T = z3.Const('feature', S), z3.Const('from_rest', S)
        e.assume(z3.Not(z3.Contains(F, z3.StringVal('.'))))
        r = e.outcomes(lambda: e.call(e.getattr_(cls, 'set_sum_feature'), [cursor_of(e), (Sym('str', F), Sym('int', n2)), Sym('str', T)], {}))
        return (F, n2, T), r

    def onp(c, r):
        F, n2, T = c
        texts = [marked(e, x[1], {'<F>': F, '<N>': strint(n2), '<T>': T}) for x in trace(e) if x[0] == 'sent']
        if r[0] != 'ok':
            return
        ctx.cover('statements')
        agg = [t for t in texts if '<F>' in t and '*' in t]
        ok = len(agg) == 1 and re.search(r'@sum\s*:=\s*\(\s*@sum\s*\*\s*<F>\s*\)\s*%\s*<N>', agg[0]) and '<T>' in agg[0] and \
            agg[0].count('<N>') == 1
        if ok:
            e.ok('the aggregation statement multiplies the column modulo the given n^2')
        else:
            e.fail('the aggregation statement multiplies the column modulo the given n^2', repr(texts)[:300])
        seed = [t for t in texts if re.fullmatch(r'\s*SET\s+@sum\s*:?=\s*1\s*;?\s*', t, re.I)]
        if seed and texts.index(seed[0]) < texts.index(agg[0] if agg else seed[0]):
            e.ok('the product starts at 1')
        else:
            e.fail('the product starts at 1', repr(texts)[:300])
    ctx.explore(e, MM + ':Delta.set_sum_feature', run, onp)

    # the query reads the session variables these statements set
    for m in ('set_total_feature_num', 'modify_sum_query', 'modify_avg_query'):
        ctx.func(e, MM, 'Delta.' + m)

    def run2():
        cls = e.get_global(MM, 'Delta')
        F, T, Q = z3.Const('feature', S), z3.Const('from_rest', S), z3.Const('query', S)
        e.assume(z3.Not(z3.Contains(F, z3.StringVal('.'))))
        call = lambda m, *a: e.outcomes(lambda: e.call(e.getattr_(cls, m), list(a), {}))
        f_, q_ = Sym('str', F), Sym('str', Q)
        r = [call('set_sum_feature', cursor_of(e), (f_, Sym('int', z3.Int('n_square'))), Sym('str', T)),
             call('set_total_feature_num', cursor_of(e), Sym('str', T)),
             call('modify_sum_query', q_, f_, True), call('modify_avg_query', q_, f_, True, 'TotalFeature'), call('modify_avg_query', q_, f_, True)]
        return (F, T, Q), r

    def onp2(c, r):
        F, T, Q = c
        if any(x[0] != 'ok' for x in r):
            if not any(x[0].endswith('failed') for x in trace(e)):
                e.fail('the statements of an aggregate are written', 'raises')
            return
        ctx.cover('variables')
        G = e.call(e.getattr_(Sym('str', F), 'replace'), ['.', '_'], {})
        texts = [marked(e, x[1], {'<F>': F, '<G>': e.str_term(G), '<N>': strint(z3.Int('n_square')), '<T>': T}) for x in trace(e) if x[0] == 'sent']
        if any('<?>' in t for t in texts):
            raise Unsupported('a statement with unknown parts')
        sm = [m.group(1) for m in (re.match(r'(?is)\s*set\s+@(\w*<[FG]>\w*)\s*:?=\s*\(?select.*\*\s*<F>', t) for t in texts) if m]
        nm = [m.group(1) for m in (re.match(r'(?is)\s*set\s+@(\w+)\s*:?=\s*\(\s*select\s+count\(\*\)\s+from\s+<T>\s*\)\s*;?\s*$', t) for t in texts) if m]
        if len(sm) != 1 or len(nm) != 1:
            e.fail('the aggregate and the row count are kept in session variables', repr(texts)[:300])
            return
        e.ok('the aggregate and the row count are kept in session variables')
        var = e.mkrope('str', ['@'] + [{'<F>': Sym('str', F), '<G>': G}.get(y, y) for y in re.split('(<[FG]>)', sm[0])])

        def replaced(f, *by):
            return e.call(e.getattr_(Sym('str', Q), 'replace'), [e.mkrope('str', [f + '(', Sym('str', F), ')']), e.mkrope('str', list(by))], {})
        e.prove_eq('SUM of the column is read from the variable its aggregation sets', r[2][1], replaced('SUM', var))
        for x in r[3:]:
            e.prove_eq('AVG of the column is read from the variables of its aggregation and of the row count', x[1],
                       replaced('AVG', 'concat(', var, ", ',',@%s)" % nm[0]))
    ctx.explore(e, MM + ':Delta.modify_sum_query', run2, onp2)


class Record(dict):
    """attributes of the rewriter of a request: the record of its statement, under whatever name"""

    def __init__(self, v):
        dict.__init__(self)
        self.v = v

    def __bool__(self):
        return True

    def get(self, name, default=None):
        return default if name.startswith('__') else self.v

    def __contains__(self, name):
        return not name.startswith('__')

    def __getitem__(self, name):
        return self.v


class Known(Record):
    """attributes of the rewriter of a request: the known ones, and one more under whatever name"""

    def __init__(self, known, v):
        Record.__init__(self, v)
        self.known = known

    def get(self, name, default=None):
        return self.known[name] if name in self.known else Record.get(self, name, default)

    def __getitem__(self, name):
        return self.get(name)


def t_inject(ctx):
    """inject_procedure: every SUM and AVG column found is aggregated by the server under exactly its own modulus and over the right table,
    and the query sent reads what was aggregated (get_paillier_procedure_info, set_sum_feature, modify_*_query by contract)"""
    e = ctx.engine({}, WEXT, {}, WVAL)
    f = ctx.func(e, RX, 'RemoteExecutor.inject_procedure')
    FROM, ENCQ = z3.Const('from_rest', S), z3.Const('formatted_sql', S)
    MOD = {x: z3.Function('modify_%s_query' % x, S, S, B, S, S) for x in ('sum', 'avg')}

    def info(e, f, a, k):
        sh = e.st.ghost['shape']
        feats = e.st.ghost['feats']
        ls = [e.alloc(LObj([Elem(feats[i]) for i in x])) for x in sh]
        return (ls[0], ls[1], len(sh[0]) + len(sh[1]), Sym('str', FROM), Sym('str', ENCQ))

    def setsum(e, f, a, k):
        a = a[-3:]
        log(e, 'aggregate', e.resolve(a[1]), e.resolve(a[2]))

    def total(e, f, a, k):
        log(e, 'total', e.resolve(a[-1]))

    def modify(x):
        def m(e, f, a, k):
            names = ['enc_query', 'feature_name', 'use_cursor'] + (['total_feature'] if x == 'avg' else [])
            v = dict(zip(names, [y for y in a if not isinstance(e.resolve(y), type(e.get_global(MM, 'Delta')))][-len(names):] if len(a) > len(names) else a))
            v.update(k)
            tot = e.resolve(v.get('total_feature')) or 'TotalFeature'
            log(e, 'modify', x, e.resolve(v['feature_name']), tot)
            t = e.truth_term(v['use_cursor'])
            return Sym('str', MOD[x](e.str_term(e.resolve(v['enc_query'])), e.str_term(e.resolve(v["feature_name"])), t if z3.is_expr(t) else z3.BoolVal(t),
                                     e.str_term(tot)))
        return m
    for nm, c in (('get_paillier_procedure_info', info), ('set_sum_feature', setsum), ('set_total_feature_num', total),
                  ('modify_sum_query', modify('sum')), ('modify_avg_query', modify('avg'))):
        e.contracts[MM + ':Delta.' + nm] = c
    SHAPES = [((), ()), ((0,), ()), ((), (0,)), ((0,), (0,)), ((0,), (1,)), ((0, 1), ()), ((), (0, 1)), ((0, 0), (1,)), ((1,), (0, 0)), ((0, 1), (2, 3)), ((0, 1), (1, 2)),
              ((0, 1, 2), (3, 4))]

    def run():
        shape = SHAPES[e.choose([True] * len(SHAPES))]
        e.setghost('shape', shape)
        feats = [(Sym('str', z3.Const('F%d' % i, S)), Sym('int', z3.Int('N%d' % i))) for i in range(5)]
        used = sorted(set(shape[0] + shape[1]))
        for i in used:
            for j in used:
                if i < j:
                    e.assume(z3.Const('F%d' % i, S) != z3.Const('F%d' % j, S))
        e.setghost('feats', feats)
        cls = e.get_global(RX, 'RemoteExecutor')
        me = e.alloc(IObj(cls, {}))
        for k_, v in (('conn_info', dct(e, ('db', 'd'))), ('conn', conn_of(e)), ('table', 't'), ('result', None), ('rewriter', Opaque('rewriter', Record(dct(e, ('select', 'whatever')))))):
            e.set_inst_attr(me, k_, v)
        q = z3.Const('sql', S)
        want = z3.Or(z3.Contains(q, z3.StringVal(' SUM(')), z3.Contains(q, z3.StringVal(' AVG(')))
        if shape != ((), ()):
            e.assume(want)          # the formatter writes an aggregate of the select list as ' SUM(' or ' AVG(' (C17)
        uc = Sym('bool', z3.Bool('use_cursor'))
        return (shape, feats, q), e.outcomes(lambda: e.call(e.getattr_(me, 'inject_procedure'), [Sym('str', q), uc], {}))

    def onp(c, r):
        shape, feats, q = c
        tr = trace(e)
        failed = any(x[0].endswith('failed') for x in tr)
        if r[0] != 'ok':
            if failed:
                e.ok('a failing database connection is the only refusal')
            else:
                e.fail('a failing database connection is the only refusal', 'raises %r' % (e.obj(r[1]).cls,))
            return
        ctx.cover(str(shape))
        agg = [x[1] for x in tr if x[0] == 'aggregate']
        want = sorted(set(shape[0] + shape[1]))

        def index(v):
            v = e.resolve(v)
            n, m = (e.resolve(y) for y in v)
            return [i for i in want if e.must(e.str_term(n) == e.str_term(feats[i][0])) and e.must(e.num_term(m) == feats[i][1].t)]
        got = [index(v) for v in agg]
        if all(len(g) == 1 for g in got) and sorted({g[0] for g in got}) == want:
            e.ok('exactly the columns found are aggregated, each modulo its own n^2')
        else:
            e.fail('exactly the columns found are aggregated, each modulo its own n^2', '%s aggregated as %s' % (shape, got))
        for x in tr:
            if x[0] == 'aggregate':
                e.oblige('the aggregation runs over the rows the query selects', e.str_term(x[2]) == FROM)
            if x[0] == 'total':
                e.oblige('the row count runs over the rows the query selects', e.str_term(x[1]) == FROM)
        if bool(shape[1]) <= any(x[0] == 'total' for x in tr):
            e.ok('AVG has its row count')
        else:
            e.fail('AVG has its row count', str(shape))
        mods = [(x[1], [i for i in want if e.must(e.str_term(x[2]) == e.str_term(feats[i][0]))]) for x in tr if x[0] == 'modify']
        wm = {('sum', i) for i in shape[0]} | {('avg', i) for i in shape[1]}
        if all(len(i) == 1 for _x, i in mods) and {(x, i[0]) for x, i in mods} == wm:
            e.ok('the query reads the aggregate of every column found')
        else:
            e.fail('the query reads the aggregate of every column found', '%s: %s' % (shape, mods))
        for x in tr:
            if x[0] == 'modify' and x[1] == 'avg':
                e.oblige('AVG reads the row count that was set', e.str_term(x[3]) == z3.StringVal('TotalFeature'))
    ctx.explore(e, RX + ':RemoteExecutor.inject_procedure', run, onp)


from specs.crypto import C06 as _C06  # noqa
C06 = _C06 + [('paillier info', t_paillier_info), ('aggregation statements', t_aggregate_statements), ('inject_procedure', t_inject)]


# ------------------------------------------------------------------ C14: the life of one statement
def query_types(e):
    c = e.get_global(KW, 'QueryType')
    return [(n, e.getattr_(c, n)) for n in ('CREATE', 'SELECT', 'INSERT', 'DELETE', 'UPDATE', 'DROP', 'ALTER', 'REPLACE')]


def t_call(ctx):
    ctx.assume('the database driver either performs execute/commit/fetchall/cursor or raises')
    e = ctx.engine({RX + ':RemoteExecutor.dispatch': None, RX + ':RemoteExecutor.inject_procedure': None}, WEXT, {}, WVAL)
    ctx.func(e, RX, 'RemoteExecutor.call')

    def dispatch(e, f, a, k):
        if e.choose([True, True]) == 1:
            log(e, 'refused')
            e.raise_(ValueError, 'refused by the rewriter')
        if e.st.ghost['qt'] in ('CREATE', 'DROP'):
            return Sym('str', z3.Const('physical_sql', S)), e.st.ghost['tab']
        return Sym('str', z3.Const('physical_sql', S)), ('t' if e.choose([True, True]) == 0 else dct(e, ('value', 'x')))

    def inject(e, f, a, k):
        if e.choose([True, True]) == 1:
            log(e, 'refused')
            e.raise_(ValueError, 'aggregation statements failed')
        return Sym('str', z3.Const('injected_sql', S))
    e.contracts[RX + ':RemoteExecutor.dispatch'] = dispatch
    e.contracts[RX + ':RemoteExecutor.inject_procedure'] = inject

    def delete_delta(e, a, k):
        log(e, 'dropped', a[0], a[1], *([a[2]] if len(a) > 2 else list(k.values())))

    def run():
        qts = query_types(e)
        i = e.choose([True] * len(qts))
        name, qv = qts[i]
        e.setghost('qt', name)
        tn = Sym('str', z3.Const('table', S))
        anon = Sym('str', z3.Const('anonymous', S))
        # what the rewriter returns for CREATE (C12) and for DROP, and the tables it went by
        e.setghost('tab', dct(e, ('table', tn), ('anonymous', anon)) if name == 'CREATE' else dct(e, ('table', tn)))
        tables = dct(e, (tn, dct(e, ('anonymous', anon if name == 'DROP' else Sym('str', z3.Const('earlier', S))))))
        cls = e.get_global(RX, 'RemoteExecutor')
        db = Sym('str', z3.Const('db', S))
        me = e.alloc(IObj(cls, {}))
        for k_, v in (('conn_info', dct(e, ('db', db), ('host', 'h'), ('port', 3306))), ('conn', conn_of(e)), ('result', None), ('encrypted_cols', None),
                      ('rewriter', Opaque('rewriter', Known({}, tables))), ('meta', Opaque('meta', {'delete_delta': Builtin('delete_delta', delete_delta)})), ('table', None)):
            e.set_inst_attr(me, k_, v)
        r = e.outcomes(lambda: e.call(e.getattr_(me, 'call'), ['sql text', Opaque('parser', {'query_type': qv}), None], {}))
        return (name, me, db, tn), r

    def onp(c, r):
        name, me, db, tn = c
        tr = trace(e)
        kinds = [x[0] for x in tr]
        sent = [x for x in tr if x[0] == 'sent']
        drops = [x for x in tr if x[0] == 'dropped']
        rejected = 'execute failed' in kinds or 'cursor failed' in kinds

        def must(nm, c):
            if c:
                e.ok(nm)
            else:
                e.fail(nm, '%s: %s' % (name, kinds))
        if rejected:
            ctx.cover('rejected ' + name)
            must('a rejected statement raises', r[0] == 'raise')
            must('a rejected statement is not committed', 'commit' not in kinds)
            must('metadata is dropped after a rejection exactly for CREATE', len(drops) == (1 if name == 'CREATE' else 0))
        elif 'refused' in kinds or name == 'REPLACE':
            must('a statement the rewriter refuses raises', r[0] == 'raise')
            must('a refused statement changes nothing', not sent and not drops and 'commit' not in kinds)
        elif 'fetchall failed' in kinds or 'commit failed' in kinds:
            must('a failed fetch or commit raises', r[0] == 'raise')
            must('a failed fetch or commit drops no metadata', not drops)
        else:
            ctx.cover('accepted ' + name)
            must('an accepted statement is reported as such', r[0] == 'ok')
            must('exactly one statement is sent', len(sent) == 1)
            must('metadata is dropped after success exactly for DROP', len(drops) == (1 if name == 'DROP' else 0))
            if name == 'SELECT':
                must('SELECT fetches the rows', kinds.count('fetchall') == 1 and kinds.index('fetchall') > kinds.index('execute'))
                must('the result is exactly the fetched rows', e.resolve(e.getattr_(me, 'result')) is e.st.ghost.get('rows'))
            if name in ('INSERT', 'UPDATE', 'DELETE'):
                must('a data-changing statement is committed after it was executed',
                     'commit' in kinds and kinds.index('commit') > kinds.index('execute'))
                must('the connection is not given back before the commit', 'close' not in kinds or kinds.index('close') > kinds.index('commit'))
        for d in drops:
            e.prove_eq('the entry dropped is that of this database', d[1], db)
            e.prove_eq('the entry dropped is that of this table', d[2], tn)
            if len(d) > 3 and d[3] is not None:
                e.prove_eq('the entry dropped is the one this request has recorded or read', d[3], Sym('str', z3.Const('anonymous', S)))
        if sent:
            ok = sent[0][1]
            t = e.str_term(e.resolve(ok))
            must('the statement sent is the rewritten one', z3.eq(t, z3.Const('physical_sql', S)) or
                 (name == 'SELECT' and z3.eq(t, z3.Const('injected_sql', S))))
    ctx.explore(e, RX + ':RemoteExecutor.call', run, onp)


def t_invoke(ctx):
    """execution_context.invoke: an error of the statement reaches the caller; the rows decrypted are the rows fetched"""
    e = ctx.engine({}, WEXT, {}, WVAL)
    f = ctx.func(e, EC, 'invoke')
    ctx.func(e, 'scheduler.backend.executors.decrypt_executor', 'DecryptQueryExecutor.decrypt')

    def call(e, fn, a, k):
        me = a[0]
        if e.choose([True, True]) == 1:
            log(e, 'failed')
            e.raise_(RuntimeError, 'rejected')
        i = e.choose([True, True, True])
        rows = [None, e.alloc(LObj([])), e.from_V(z3.Const('rows', V), ListT(TupT([IntT])))][i]
        if i == 2:
            e.assume(llen(z3.Const('rows', V)) >= 1)
        e.setghost('rows', rows)
        e.set_inst_attr(me, 'result', rows)

    def decrypt(e, fn, a, k):
        me, result, cols, meta, table = a
        log(e, 'decrypted', result, cols, meta, table)
        return Opaque('plain rows')

    def new(e, fn, a, k):
        me = a[0]
        e.set_inst_attr(me, 'conn_info', a[1])
        e.set_inst_attr(me, 'result', None)
    P = RX + ':RemoteExecutor.'
    e.contracts.update({P + '__init__': new, P + 'call': call, P + 'get_select_columns': lambda e, f, a, k: Opaque('columns'),
                        P + 'get_select_types': lambda e, f, a, k: Opaque('types'), P + 'get_db_meta': lambda e, f, a, k: (Opaque('db meta'), Opaque('table')),
                        'scheduler.compile.parser:Parser': lambda e, c, a, k: Opaque('parser'),
                        'scheduler.handers.decrypt_handler:DecryptHandler.decrypt': decrypt})

    def run():
        info = dct(e, ('db', 'd'), ('host', 'h'), ('port', 3306))
        if e.choose([True, True]) == 1:
            info = dct(e, ('db', 'd'), ('host', 'h'), ('port', 3306), ('ciphertext', Sym('bool', z3.Bool('want_ciphertext'))))
            e.setghost('asked', True)
        ci = Sym('bool', z3.Bool('columns_info'))
        r = e.outcomes(lambda: e.call(f, [info, 'sql text', None, ci], {}))
        return None, r

    def onp(_, r):
        tr = trace(e)
        rows = e.st.ghost.get('rows')
        if any(x[0] == 'failed' for x in tr):
            ctx.cover('error')
            if r[0] == 'raise':
                e.ok('a failed statement reaches the caller as an error')
            else:
                e.fail('a failed statement reaches the caller as an error', 'returns a result')
            return
        if r[0] != 'ok':
            e.fail('a successful statement is reported as such', 'raises %r' % (e.obj(r[1]).cls,))
            return
        v = e.resolve(r[1])
        if e.branch(z3.Bool('columns_info')):
            segs = e.obj(v).segs
            v, info = e.resolve(segs[0].v), e.resolve(segs[1].v)
            names = [getattr(e.resolve(s.v), 'name', None) for s in e.obj(info).segs]
            (e.ok if names == ['columns', 'types'] else lambda n: e.fail(n, str(names)))('the reported columns and types are those of the statement')
        dec = [x for x in tr if x[0] == 'decrypted']
        ctx.cover('ok')
        empty = rows is None or (isinstance(e.obj(rows), LObj) and not e.obj(rows).segs)
        if empty:
            good = isinstance(v, Ref) and isinstance(e.obj(v), LObj) and not e.obj(v).segs
            (e.ok if good else lambda n: e.fail(n, str(v)))('no rows give an empty result')
        elif e.st.ghost.get('asked') and e.branch(z3.Bool('want_ciphertext')):
            e.prove_eq('ciphertext asked for: the rows themselves', v, rows)
        else:
            good = len(dec) == 1 and getattr(v, 'name', '') == 'plain rows' and [getattr(x, 'name', '') for x in dec[0][2:]] == ['columns', 'db meta', 'table']
            (e.ok if good else lambda n: e.fail(n, str(v)))('the rows are decrypted with the columns, metadata and table of the statement')
            if dec:
                e.prove_eq('exactly the fetched rows are decrypted', dec[0][1], rows)
    ctx.explore(e, EC + ':invoke', run, onp)


C14 = [('RemoteExecutor.call', t_call), ('invoke', t_invoke)]


# ------------------------------------------------------------------ C22
def creds(e, nm):
    f = {k: Sym('str', z3.Const('%s_%s' % (nm, k), S)) for k in ('host', 'db', 'user', 'password')}
    # a port may be given as a number or as text
    if e.choose([True, True]) == 0:
        f['port'] = Sym('int', z3.Int(nm + '_port'))
        e.assume(z3.Int(nm + '_port') >= 0)
        f['_ports'] = strint(z3.Int(nm + '_port'))
    else:
        f['port'] = Sym('str', z3.Const(nm + '_ports', S))
        f['_ports'] = z3.Const(nm + '_ports', S)
    return f


def t_connect(ctx):
    ctx.assume('str(int) of different non-negative integers differ')
    e = ctx.engine({}, WEXT, {}, WVAL)
    f = ctx.func(e, RX, 'RemoteExecutor.connect_db')

    def pooled(e, cls, a, k):
        names = ['creator', 'mincached']
        kw = dict(k)
        for n, v in zip(names, a):
            kw[n] = v
        log(e, 'opened pool', kw)
        me = Opaque('pool')
        me.attrs.update({'kw': kw})
        me.attrs['connection'] = Builtin('connection', lambda e, a, k: Opaque('connection', {'pool': me}))
        return me
    e.contracts['dbutils.pooled_db:PooledDB'] = pooled

    def run():
        c1, c2 = creds(e, 'first'), creds(e, 'second')
        d = [dct(e, *[(k, v) for k, v in c.items() if k[0] != '_']) for c in (c1, c2)]
        out = []
        for x in d:
            out.append(e.outcomes(lambda: e.call(f, [x], {})))
        out.append(e.outcomes(lambda: e.call(f, [d[0]], {})))
        return (c1, c2), out

    def onp(c, out):
        for i, (cc, r) in enumerate(zip((c[0], c[1], c[0]), out)):
            if r[0] != 'ok':
                e.fail('a connection is given for every request', 'raises %r' % (e.obj(r[1]).cls,))
                continue
            v = e.resolve(r[1])
            if getattr(v, 'name', '') != 'connection':
                e.fail('a request gets a connection of a pool', str(v))
                continue
            kw = v.attrs['pool'].attrs['kw']
            ctx.cover('request %d' % i)
            for k, p in (('host', 'host'), ('user', 'user'), ('password', ('passwd', 'password')), ('db', ('db', 'database'))):
                got = [kw[x] for x in ((p,) if isinstance(p, str) else p) if x in kw]
                if len(got) != 1:
                    e.fail('the pool is opened with the %s' % k, str(sorted(kw)))
                    continue
                e.oblige('the connection was opened with the request\'s own %s' % k, e.str_term(e.resolve(got[0])) == cc[k].t)
            if 'port' not in kw:
                e.fail('the pool is opened with the port', str(sorted(kw)))
            else:
                e.oblige('the connection was opened with the request\'s own port', e.str_term(bi.py_str(e, kw['port'])) == cc['_ports'])
    ctx.explore(e, RX + ':RemoteExecutor.connect_db', run, onp)


def t_ids(ctx):
    ctx.assume('uuid.uuid4().hex: 32 lower-case hexadecimal digits, different on every call')
    e = ctx.engine({}, dict(WEXT), {}, WVAL)
    ctx.func(e, EC, 'encrypt_sql2')
    ctx.func(e, EC, 'decrypt_data')
    ctx.func(e, 'scheduler.backend.executors.decrypt_executor', 'DecryptQueryExecutor.decrypt1')
    ctx.func(e, RX, 'ConvertExecutor.get_db_meta')

    def uuid4(e, a, k):
        h = e.fresh(S, 'uuid')
        e.assume(z3.Length(h) == 32)
        e.assume(z3.Not(z3.Contains(h, z3.StringVal('-'))))
        for o in e.st.ghost.get('uuids', ()):
            e.assume(h != o)
        e.setghost('uuids', e.st.ghost.get('uuids', ()) + (h,))
        return Opaque('uuid', {'hex': Sym('str', h)})
    e.externals['uuid.uuid4'] = uuid4

    def mk(nm):
        return Opaque(nm)

    def dispatch(e, fn, a, k):
        me, db, sql = a
        n = e.st.ghost.get('req', 0)
        e.setghost('req', n + 1)
        rec = {'columns': mk('columns %d' % n), 'types': mk('types %d' % n), 'state': mk('state %d' % n), 'table': 'tab%d' % n}
        e.setghost('rec%d' % n, rec)
        e.set_inst_attr(me, 'str_db', db)
        e.set_inst_attr(me, 'table', rec['table'])
        # Clause.__init__: the tables as they are when the request begins (C24's task 'the tables of a request')
        o = e.obj(e.resolve(e.getitem(e.resolve(e.getattr_(e.get_global(MM, 'Delta'), 'meta')), db)))
        tables = e.alloc(DObj(o.base, o.shape, list(o.ents), o.absent))
        e.set_inst_attr(me, 'rewriter', Opaque('rewriter', Known({'select': Opaque('select', {'select_columns': rec['columns'], 'select_types': rec['types'],
                                                                                      'select_state': rec['state']})}, tables)))
        return Sym('str', e.fresh(S, 'enc')), rec['table']

    def decrypt1(e, fn, a, k):
        me, data, cols, meta, table, state = a
        log(e, 'decrypt', data, cols, meta, table, state)
        return Opaque('plain')

    def init(e, fn, a, k):
        e.set_inst_attr(a[0], 'result', e.alloc(LObj([])))
    e.contracts.update({RX + ':ConvertExecutor.dispatch': dispatch, MM + ':Delta.update_db_meta': lambda e, f, a, k: None,
                        MM + ':test_connection': lambda e, f, a, k: a[0],
                        'scheduler.handers.decrypt_handler:DecryptHandler.decrypt1': decrypt1,
                        'scheduler.handers.decrypt_handler:DecryptHandler.__init__': init})
    e.overrides = {MM + ':config': lambda e: dct(e, ('meta', dct(e, ('type', 'mysql'))))} if not getattr(e, 'overrides', None) else e.overrides

    def run():
        delta = e.get_global(MM, 'Delta')
        inst = e.alloc(IObj(delta, {}))
        t0, t1 = mk('table entry 0'), mk('table entry 1')
        meta = dct(e, ('d', dct(e, ('tab0', t0), ('tab1', t1))))
        e.setattr_(delta, 'meta', meta)
        e.contracts[MM + ':Delta'] = lambda e, c, a, k: inst
        conv = e.get_global(EC, 'encrypt_sql2')
        dec = e.get_global(EC, 'decrypt_data')
        r0 = e.call(conv, ['d', 'sql0'], {})
        r1 = e.call(conv, ['d', 'sql1'], {})
        # meanwhile the first table is created anew, another one added
        up = e.getattr_(inst, 'update_delta')
        e.call(up, ['d', dct(e, ('tab0', mk('replaced')))], {})
        e.call(up, ['d', dct(e, ('other', mk('new')))], {})
        ids = [e.resolve(e.resolve(r)[2]) for r in (r0, r1)]
        data = mk('data')
        outs = [e.outcomes(lambda i=i: e.call(dec, [data, i], {})) for i in (ids[0], ids[1], ids[0])]
        return (ids, data, t0, t1), outs

    def onp(c, outs):
        ids, data, t0, t1 = c
        e.oblige('two requests get different ids', e.str_term(ids[0]) != e.str_term(ids[1]))
        ds = [x for x in trace(e) if x[0] == 'decrypt']
        if any(r[0] != 'ok' for r in outs) or len(ds) != 3:
            e.fail('every issued id can be decrypted', str([r[0] for r in outs]))
            return
        ctx.cover('two requests')
        for n, d in zip((0, 1, 0), ds):
            rec = e.st.ghost['rec%d' % n]
            ok = d[1] is data and d[2] is rec['columns'] and d[4] == rec['table'] and d[5] is rec['state']
            (e.ok if ok else lambda nm: e.fail(nm, str(d)))('decryption by id uses the columns, table and states recorded for it')
            f, v = e.dict_lookup(e.resolve(d[3]), rec['table'])
            (e.ok if f and v is (t0, t1)[n] else lambda nm: e.fail(nm, str(v)))('decryption by id uses the metadata recorded for it')
    ctx.explore(e, EC + ':encrypt_sql2', run, onp)

    # whatever was recorded before: a request leaves the record of every other id alone, and its own id is new or its record replaced
    def run2():
        delta = e.get_global(MM, 'Delta')
        inst = e.alloc(IObj(delta, {}))
        e.setattr_(delta, 'meta', dct(e, ('d', dct(e, ('tab0', mk('table entry 0'))))))
        e.contracts[MM + ':Delta'] = lambda e, c, a, k: inst
        mv = z3.Const('recorded', V)
        m = e.from_V(mv, MapT(IntT))
        e.overrides[EC + ':id_sql_map'] = lambda e: m
        old = z3.Const('earlier_id', S)
        e.assume(dhas(mv, V.VStr(old)))
        r = e.outcomes(lambda: e.call(e.get_global(EC, 'encrypt_sql2'), ['d', 'sql0'], {}))
        return (m, mv, old), r

    def onp2(c, r):
        m, mv, old = c
        if r[0] != 'ok':
            e.fail('a request after any others is served', 'raises %r' % (e.obj(r[1]).cls,))
            return
        new = e.str_term(e.resolve(e.resolve(r[1])[2]))
        if not e.branch(new != old):
            return
        ctx.cover('an earlier request')
        f, v = e.dict_lookup(m, Sym('str', old))
        if not f:
            e.fail('a request leaves the records of the others', 'the record is gone')
            return
        v = e.resolve(v)
        if e.kind(v) == 'int':
            e.oblige('a request leaves the records of the others', e.num_term(v) == V.iv(dget(mv, V.VStr(old))))
        else:
            e.fail('a request leaves the records of the others', 'the record was replaced')
    ctx.explore(e, EC + ':encrypt_sql2', run2, onp2)
    e.overrides.pop(EC + ':id_sql_map', None)


C22 = [('connect_db', t_connect), ('query ids', t_ids)]


# ------------------------------------------------------------------ C13
CE = ShapeAny = None


def sym_json(e, nm):
    return e.from_V(z3.Const(nm, V), MapT(JsonT) if 'JsonT' in globals() else MapT(StrT))


def m_dumps(e, a, k):
    """json.dumps of a dict; json.loads of that text gives an equal value"""
    o = e.obj(e.resolve(a[0]))
    t = e.fresh(S, 'json')
    g = dict(e.st.ghost.get('json', {}))
    g[t.get_id()] = (t, [x for x in o.ents])
    e.setghost('json', g)
    return Sym('str', t)


def t_load(ctx):
    """load_delta row by row: loop invariant and frame"""
    ctx.assume('json.loads(json.dumps(x)) equals x (metadata: dicts with text keys, texts, numbers, booleans, lists)')
    ctx.assume('the store returns the rows that were inserted and not deleted, in insertion order')
    for case in ('empty', 'new database', 'new table', 'known table'):
        def run(case=case):
            names = {n: z3.Const(n, S) for n in ('row_db', 'row_table', 'row_anon', 'col', 'other_db', 'other_table')}
            colinfo = Opaque('column info')
            row = (Sym('str', names['row_db']), 'mysql', Sym('str', names['row_table']), Sym('str', names['row_anon']), Opaque('stored json'), '')
            state = {'names': names, 'colinfo': colinfo, 'row': row}
            rest = e.from_V(z3.Const('rest_of_meta', V), MapT(MapT(StrT)))   # tables of other databases, contents opaque
            others = e.from_V(z3.Const('other_tables', V), MapT(StrT))
            oldcols = e.from_V(z3.Const('earlier_columns', V), MapT(StrT))
            state.update(rest=rest, others=others, oldcols=oldcols)
            e.setghost('state', state)
            cls = e.get_global(MM, 'Delta')
            e.setattr_(cls, 'db_conn', Opaque('store', {'cursor': Builtin('cursor', lambda e, a, k: Opaque('cursor', {
                'execute': Builtin('execute', lambda e, a, k: log(e, 'sent', a[0])), 'fetchall': Builtin('fetchall', lambda e, a, k: Opaque('rows'))}))}))
            r = e.outcomes(lambda: e.call(e.getattr_(cls, 'load_delta'), [], {}))
            return None, r

        def hook(e, it, bind, body, env, case=case):
            it = e.resolve(it)
            if not (isinstance(it, Opaque) and it.name == 'rows'):
                return False
            if case == 'empty':
                return True
            loc = [v for v in (e.resolve(x) for x in frame_values(e, env)) if isinstance(v, Ref) and isinstance(e.obj(v), DObj)]
            if len(loc) != 1:
                raise Unsupported('which local is the metadata under construction')
            M = loc[0]
            if e.obj(M).ents:
                e.fail('loading starts from nothing', str(e.obj(M)))
            st = e.st.ghost['state']
            n = st['names']
            db, tab = Sym('str', n['row_db']), Sym('str', n['row_table'])
            rb = e.obj(st['rest'])
            if case == 'new database':
                e.setobj(M, DObj(rb.base, rb.shape, [], (db,)))
            else:
                ob = e.obj(st['others'])
                if case == 'new table':
                    D = e.alloc(DObj(ob.base, ob.shape, [], (tab,)))
                else:
                    oc = e.obj(st['oldcols'])
                    C = e.alloc(DObj(oc.base, oc.shape, []))
                    D = e.alloc(DObj(ob.base, ob.shape, [(tab, dct(e, ('anonymous', Sym('str', n['row_anon'])), ('columns', C)))]))
                e.setobj(M, DObj(rb.base, rb.shape, [(db, D)]))
            pre = {'other db': look(e, M, n['other_db'])}
            e.assume(n['other_db'] != n['row_db'])
            e.assume(n['other_table'] != n['row_table'])
            if case != 'new database':
                pre['other table'] = look(e, D, n['other_table'])
            bind(st['row'])
            body()
            ctx.cover(case)
            f, D2 = e.dict_lookup(M, db)
            if not f:
                e.fail('a stored row brings back its database', case)
                raise PathEnd()
            D2 = e.resolve(D2)
            f, T = e.dict_lookup(D2, tab)
            if not f:
                e.fail('a stored row brings back its table', case)
                raise PathEnd()
            T = e.resolve(T)
            f, an = e.dict_lookup(T, 'anonymous')
            if f:
                e.prove_eq('the physical table name is brought back', an, Sym('str', n['row_anon']))
            else:
                e.fail('the physical table name is brought back', case)
            f, C2 = e.dict_lookup(T, 'columns')
            C2 = e.resolve(C2) if f else None
            if not f:
                e.fail('the columns are brought back', case)
                raise PathEnd()
            f, ci = e.dict_lookup(C2, Sym('str', n['col']))
            (e.ok if f and e.resolve(ci) is st['colinfo'] else lambda x: e.fail(x, case))('the column of a stored row is brought back with exactly its information')
            if case == 'known table':
                oc = z3.Const('other_col', S)
                e.assume(oc != n['col'])
                same(e, 'a row leaves the earlier columns of its table as they were', look(e, st['oldcols'], oc), look(e, C2, oc))
            else:
                k_ = [x for x in e.obj(C2).ents]
                (e.ok if len(k_) == 1 and e.obj(C2).base is None else lambda x: e.fail(x, case))('a new table has exactly the columns of its rows')
                k_ = [x for x in e.obj(T).ents]
                (e.ok if len(k_) == 2 and e.obj(T).base is None else lambda x: e.fail(x, str(k_)))('a table entry has a name and columns')
                if case == 'new database':
                    (e.ok if len(e.obj(D2).ents) == 1 and e.obj(D2).base is None else lambda x: e.fail(x, case))('a new database has exactly the tables of its rows')
            same(e, 'a row leaves every other database as it was', pre['other db'], look(e, M, n['other_db']))
            if case != 'new database':
                same(e, 'a row leaves every other table as it was', pre['other table'], look(e, D2, n['other_table']))
            raise PathEnd()

        e = ctx.engine({}, dict(WEXT, **{'json.loads': lambda e, a, k: dct(e, (Sym('str', e.st.ghost['state']['names']['col']), e.st.ghost['state']['colinfo']))}),
                       {'for_inv': hook}, WVAL)
        ctx.func(e, MM, 'Delta.load_delta')

        def onp(_, r, case=case):
            if r[0] != 'ok':
                e.fail('loading does not fail', 'raises %r' % (e.obj(r[1]).cls,))
                return
            ctx.cover('loaded')
            q = [x[1] for x in trace(e) if x[0] == 'sent']
            ok = len(q) == 1 and isinstance(q[0], str) and re.fullmatch(r'\s*select\s+\*\s+from\s+p_db_meta\s*;?\s*', q[0], re.I)
            (e.ok if ok else lambda x: e.fail(x, str(q)))('every row of the store is read')
            if case == 'empty':
                o = e.obj(e.resolve(r[1]))
                (e.ok if isinstance(o, DObj) and not o.ents and o.base is None else lambda x: e.fail(x, str(o)))('an empty store loads as no metadata')
        ctx.explore(e, MM + ':Delta.load_delta', run, onp)


def frame_values(e, env):
    return [v for v in dict(e.st.heap[env.fid]).values() if not isinstance(v, (LazyVal,))]


def look(e, ref, t):
    f, v = e.dict_lookup(ref, Sym('str', t))
    return (f, e.resolve(v) if f else None)


def same(e, nm, a, b):
    if a[0] != b[0]:
        e.fail(nm, '%s / %s' % (a, b))
    elif not a[0]:
        e.ok(nm)
    elif isinstance(a[1], Ref) and isinstance(b[1], Ref) and a[1].id == b[1].id:
        e.ok(nm)
    else:
        e.prove_eq(nm, a[1], b[1])



def store_conn(e):
    def execute(e, a, k):
        log(e, 'sent', a[0], a[1] if len(a) > 1 else None)

    def many(e, a, k):
        log(e, 'many', a[0], a[1])

    def commit(e, a, k):
        log(e, 'commit')
    c = Opaque('store', {})
    cur = Opaque('cursor', {'execute': Builtin('execute', execute), 'executemany': Builtin('executemany', many),
                            'connection': Opaque('store', {'commit': Builtin('commit', commit)})})
    c.attrs.update({'cursor': Builtin('cursor', lambda e, a, k: cur), 'commit': Builtin('commit', commit), 'ping': Builtin('ping', noop)})
    return c


INSERT = re.compile(r'\s*insert\s+into\s+p_db_meta\s+values\s*\(\s*(%s|\?)(\s*,\s*(%s|\?)){5}\s*\)\s*;?\s*', re.I)
DELETE = re.compile(r'\s*delete\s+from\s+p_db_meta\s+where\s+(?P<a>database_name|table_name)\s*=\s*(%s|\?)\s+and\s+(?P<b>database_name|table_name)\s*=\s*(%s|\?)\s*;?\s*', re.I)


def store_engine(ctx, kind):
    e = ctx.engine({MM + ':test_connection': lambda e, f, a, k: a[0]}, dict(WEXT, **{'json.dumps': m_dumps}), {}, WVAL, {
        MM + ':config': lambda e: dct(e, ('meta', dct(e, ('type', kind)))),
        MM + ':insert_sql': lambda e: e.st.ghost['sqls'][0], MM + ':delete_sql': lambda e: e.st.ghost['sqls'][1]})
    return e


def store_sql(kind):
    """the two statements as the source defines them for this kind of store"""
    import ast
    import os
    from pyded.task import REPO
    tree = ast.parse(open(os.path.join(REPO, 'scheduler/schema/metadata.py'), encoding='utf8').read())
    got = {'insert_sql': [], 'delete_sql': []}
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in got \
                and isinstance(n.value, ast.Constant):
            got[n.targets[0].id].append(n.value.value)
    for k in got:
        if len(got[k]) != 2:
            raise Unsupported('definition of ' + k)
    i = 0 if kind == 'mysql' else 1
    pick = lambda l: [x for x in l if ('%s' in x) == (kind == 'mysql')]
    r = [pick(got[k]) for k in ('insert_sql', 'delete_sql')]
    if any(len(x) != 1 for x in r):
        raise Unsupported('statements of the store')
    return r[0][0], r[1][0]


def check_delete(e, x, db, tab, nm):
    """x: a 'sent' event; the statement deletes exactly the rows of (db, tab)"""
    m = DELETE.fullmatch(x[1]) if isinstance(x[1], str) else None
    if not m or m.group('a').lower() == m.group('b').lower() or x[2] is None:
        e.fail(nm, str(x[1]))
        return
    p = e.resolve(x[2])
    vals = p if isinstance(p, tuple) else tuple(s.v for s in e.obj(p).segs)
    if len(vals) != 2:
        e.fail(nm, 'parameters')
        return
    d = {m.group('a').lower(): vals[0], m.group('b').lower(): vals[1]}
    e.prove_eq(nm + ' (database)', d['database_name'], db)
    e.prove_eq(nm + ' (table)', d['table_name'], tab)


def t_record(ctx):
    """update_delta / update_db_meta: the rows written for a table, the entry in memory, the frame"""
    ctx.bounded.append('update_db_meta: one table per call (every caller records one table at a time)')
    for kind in ('mysql', 'sqlite'):
        sqls = store_sql(kind)
        for case in ('nothing recorded', 'new database', 'known database'):
            e = store_engine(ctx, kind)
            ctx.func(e, MM, 'Delta.update_db_meta')
            ctx.func(e, MM, 'Delta.update_delta')

            def run(case=case, sqls=sqls):
                e.setghost('sqls', sqls)
                cls = e.get_global(MM, 'Delta')
                me = e.alloc(IObj(cls, {}))
                db, tab, anon = (Sym('str', z3.Const(n, S)) for n in ('db', 'table', 'anon'))
                cols = e.from_V(z3.Const('columns', V), MapT(MapT(StrT)))
                entry = dct(e, ('anonymous', anon), ('columns', cols), ('comment', None))
                tm = dct(e, (tab, entry))
                odb, otab = z3.Const('other_db', S), z3.Const('other_table', S)
                e.assume(odb != db.t)
                e.assume(otab != tab.t)
                pre = {}
                rb = e.obj(e.from_V(z3.Const('rest_of_meta', V), MapT(MapT(StrT))))
                if case == 'nothing recorded':
                    M = [None, dct(e)][e.choose([True, True])]
                elif case == 'new database':
                    e.assume(z3.Const('third_db', S) != db.t)
                    M = e.alloc(DObj(rb.base, rb.shape, [(Sym('str', z3.Const('third_db', S)), Opaque('tables of the third db'))], (db,)))
                else:
                    ob = e.obj(e.from_V(z3.Const('other_tables', V), MapT(StrT)))
                    D = e.alloc(DObj(ob.base, ob.shape, []))
                    M = e.alloc(DObj(rb.base, rb.shape, [(db, D)]))
                    pre['table'] = look(e, D, otab)
                if M is not None and case != 'nothing recorded':
                    pre['db'] = look(e, M, odb)
                e.setattr_(cls, 'meta', M)
                e.setattr_(cls, 'db_conn', store_conn(e))
                r = e.outcomes(lambda: e.call(e.getattr_(me, 'update_delta'), [db, tm], {}))
                return (cls, me, db, tab, anon, cols, entry, odb, otab, pre), r

            def onp(c, r, case=case):
                cls, me, db, tab, anon, cols, entry, odb, otab, pre = c
                if r[0] != 'ok':
                    e.fail('recording a table does not fail', 'raises %r' % (e.obj(r[1]).cls,))
                    return
                ctx.cover(case)
                for who, M in (('the class', e.resolve(e.getattr_(cls, 'meta'))), ('the instance', e.resolve(e.getattr_(me, 'meta')))):
                    if M is None:
                        e.fail('the entry is in memory (%s)' % who, 'no metadata')
                        continue
                    f, D = e.dict_lookup(M, db)
                    f, T = e.dict_lookup(e.resolve(D), tab) if f else (False, None)
                    (e.ok if f and e.resolve(T) == entry else lambda x: e.fail(x, str(T)))('the entry in memory is the one recorded (%s)' % who)
                    if 'db' in pre:
                        same(e, 'recording leaves every other database as it was', pre['db'], look(e, M, odb))
                    if 'table' in pre:
                        same(e, 'recording leaves every other table as it was', pre['table'], look(e, e.resolve(D), otab))
                tr = trace(e)
                dels = [x for x in tr if x[0] == 'sent']
                many = [x for x in tr if x[0] == 'many']
                order = [x[0] for x in tr]
                (e.ok if order == ['sent', 'many', 'commit'] else lambda x: e.fail(x, str(order)))('old rows are deleted, then the new ones inserted, then committed')
                if dels:
                    check_delete(e, dels[0], db, tab, 'exactly the rows of the recorded table are replaced')
                if not many:
                    return
                (e.ok if isinstance(many[0][1], str) and INSERT.fullmatch(many[0][1]) else lambda x: e.fail(x, str(many[0][1])))('the rows are inserted as they are')
                rows = e.obj(e.resolve(many[0][2]))
                flats = [s for s in rows.segs if isinstance(s, Flat)]
                if len(rows.segs) != 1 or len(flats) != 1:
                    e.fail('one row per column is written', str(rows.segs)[:200])
                    return
                cv = z3.Const('columns', V)
                fl = flats[0]
                e.oblige('as many rows as columns are written', fl.n == dlen(cv))
                j = e.fresh(I, 'row')
                e.assume(z3.And(j >= 0, j < fl.n))
                pay = e.enter_case(fl, j)
                if len(pay) != 1:
                    e.fail('exactly one row per column is written', str(pay)[:200])
                    return
                row = e.resolve(pay[0].v)
                if not isinstance(row, tuple) or len(row) != 6:
                    e.fail('a row has the six fields of the store', str(row)[:200])
                    return
                e.prove_eq('a row carries its database', row[0], db)
                e.prove_eq('a row carries its table', row[2], tab)
                e.prove_eq('a row carries the physical table name', row[3], anon)
                t = simp(e.str_term(e.resolve(row[4])))
                ent = json_entries(e, t)
                if ent is None or len(ent) != 1:
                    e.fail('a row carries one column as JSON', str(t)[:200])
                    return
                k_, v_ = ent[0]
                e.oblige('a row carries the column at its place', e.to_V(k_) == dkey(cv, j))
                e.prove_eq('a row carries the information of its column', v_, e.from_V(dget(cv, dkey(cv, j)), MapT(StrT)))
            ctx.explore(e, MM + ':Delta.update_delta', run, onp)


JS = z3.Function('json_of_pair', V, V, S)


def m_dumps(e, a, k):  # noqa
    """json.dumps of a one-entry dict: a function of the entry"""
    o = e.obj(e.resolve(a[0]))
    if not isinstance(o, DObj) or o.base is not None or len(o.ents) != 1 or not isinstance(o.ents[0], tuple):
        raise Unsupported('json.dumps of something else than one column')
    kk, v = o.ents[0]
    return Sym('str', JS(e.to_V(kk), e.to_V(v)))


def json_entries(e, t):
    if z3.is_app(t) and t.decl().name() == 'json_of_pair':
        return [(Sym('V', t.arg(0)) if False else e.from_V(t.arg(0), StrT), e.from_V(t.arg(1), MapT(StrT)))]
    return None


def t_delete(ctx):
    for kind in ('mysql', 'sqlite'):
        sqls = store_sql(kind)
        for case in ('recorded', 'not recorded'):
            e = store_engine(ctx, kind)
            ctx.func(e, MM, 'Delta.delete_delta')

            def run(case=case, sqls=sqls):
                e.setghost('sqls', sqls)
                cls = e.get_global(MM, 'Delta')
                me = e.alloc(IObj(cls, {}))
                db, tab = (Sym('str', z3.Const(n, S)) for n in ('db', 'table'))
                odb, otab = z3.Const('other_db', S), z3.Const('other_table', S)
                e.assume(odb != db.t)
                e.assume(otab != tab.t)
                rb = e.obj(e.from_V(z3.Const('rest_of_meta', V), MapT(MapT(StrT))))
                ob = e.obj(e.from_V(z3.Const('other_tables', V), MapT(StrT)))
                D = e.alloc(DObj(ob.base, ob.shape, [(tab, Opaque('entry'))] if case == 'recorded' else [], () if case == 'recorded' else (tab,)))
                M = e.alloc(DObj(rb.base, rb.shape, [(db, D)]))
                pre = {'db': look(e, M, odb), 'table': look(e, D, otab)}
                e.setattr_(cls, 'meta', M)
                e.setattr_(cls, 'db_conn', store_conn(e))
                r = e.outcomes(lambda: e.call(e.getattr_(me, 'delete_delta'), [db, tab], {}))
                return (cls, me, db, tab, odb, otab, pre), r

            def onp(c, r, case=case):
                cls, me, db, tab, odb, otab, pre = c
                if r[0] != 'ok':
                    e.fail('deleting a table does not fail', 'raises %r' % (e.obj(r[1]).cls,))
                    return
                ctx.cover(case)
                M = e.resolve(e.getattr_(cls, 'meta'))
                f, D = e.dict_lookup(M, db)
                D = e.resolve(D) if f else None
                f2 = e.dict_lookup(D, tab)[0] if f else False
                (e.ok if not f2 else lambda x: e.fail(x, case))('the entry is gone from memory')
                same(e, 'deleting leaves every other database as it was', pre['db'], look(e, M, odb))
                if f:
                    same(e, 'deleting leaves every other table as it was', pre['table'], look(e, D, otab))
                else:
                    e.fail('deleting leaves every other table as it was', 'database gone')
                order = [x[0] for x in trace(e)]
                (e.ok if order == ['sent', 'commit'] else lambda x: e.fail(x, str(order)))('the rows are deleted and the deletion committed')
                for x in trace(e):
                    if x[0] == 'sent':
                        check_delete(e, x, db, tab, 'exactly the rows of the table are deleted')
            ctx.explore(e, MM + ':Delta.delete_delta', run, onp)


C13 = [('load_delta', t_load), ('record', t_record), ('delete', t_delete)]
