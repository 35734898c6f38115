"""Contracts of scheduler.handers (C07 - C12, C21)."""
import z3
from pyded.values import *
from pyded.engine import Unsupported, simp, PathEnd
from pyded import builtins_ as bi
from specs.runtime import WEXT, WVAL, dct, log, trace, logger, frame_values, look, same

RW = 'scheduler.handers.rewrite_hander'
CL = 'scheduler.handers.clause.'
CM = 'scheduler.crypto.encrypt'
MM = 'scheduler.schema.metadata'
CIPHERS = ['order-preserving', 'symmetric', 'fuzzy', 'arithmetic', 'sm4']
TYPES = ['int', 'varchar', 'char', 'float', 'double']

CT = z3.Function('ciphertext', S, V, V, V)          # cipher name, key material, plaintext -> ciphertext
ENCODE = z3.Function('encoded', V, S, I)            # float/double encoding: value, type -> integer


def VS(s):
    return V.VStr(z3.StringVal(s))


COLM = DictT({'plaintext': BoolT, 'enc-cols': MapT(StrT, CIPHERS), 'type': StrT, 'key': StrT},
             {'homomorphic_key': ObjT('hom'), 'sm4_key': StrT, 'comment': StrT})
META = MapT(DictT({'anonymous': StrT, 'columns': MapT(COLM)}))
VALUE = OneT(IntT, RealT, DictT({'literal': StrT}), DictT({'null': DictT({})}))


# ------------------------------------------------------------------ contracts of the ciphers (C01 - C06 decide them)
def c_class(kind):
    def new(e, c, a, k):
        if kind == 'fuzzy' and e.opts.get('pattern_parts'):
            def part(e, b, k2):
                e.oblige('a LIKE part that is encrypted has at least 3 characters', z3.Length(e.str_term(e.resolve(b[0]))) >= 3)
                return c_encrypt(e, kind, a[0], b[0])
            return Opaque('cipher', {'kind': kind, 'key': a[0], 'encrypt': Builtin('encrypt', part)})
        return Opaque('cipher', {'kind': kind, 'key': a[0], 'encrypt': Builtin('encrypt', lambda e, b, k2: c_encrypt(e, kind, a[0], b[0]))})
    return new


def c_encrypt(e, kind, key, v):
    v = e.resolve(v)
    if kind in ('symmetric', 'fuzzy', 'sm4') and e.kind(v) != 'str':
        e.raise_(AttributeError, 'not a text')
    if kind in ('order-preserving', 'arithmetic') and e.kind(v) not in ('int', 'bool'):
        e.raise_(TypeError, 'not an integer')
    t = CT(z3.StringVal(kind), e.to_V(key), e.to_V(v))
    return e.from_V(t, IntT if kind == 'order-preserving' else StrT)


def c_encode(e, f, a, k):
    """encode(value, type): C03"""
    v, t = e.resolve(a[0]), e.resolve(a[1])
    ft = e.branch(z3.Or(e.str_term(t) == z3.StringVal('float'), e.str_term(t) == z3.StringVal('double')))
    if not ft:
        return v
    if e.kind(v) not in ('int', 'real', 'bool'):
        e.raise_(TypeError, 'no number')
    return Sym('int', ENCODE(e.to_V(v), e.str_term(t)))


def g_encoded(e, a, k):
    return c_encode(e, None, a, k)


def g_cipher(e, a, k):
    """reference: ciphertext of an encoded value as it stands in a statement"""
    kind, info, v = e.resolve(a[0]), e.resolve(a[1]), e.resolve(a[2])
    names = CIPHERS
    i = e.choose([e.str_term(kind) == z3.StringVal(x) for x in names]) if not isinstance(kind, str) else names.index(kind)
    nm = names[i]
    key = {'arithmetic': 'homomorphic_key', 'sm4': 'sm4_key'}.get(nm, 'key')
    f, kv = e.dict_lookup(info, key)
    if not f:
        e.raise_(KeyError, key)
    if nm in ('order-preserving', 'arithmetic'):
        if e.kind(v) == 'str':
            v = e.call(Builtin('int', None), [v], {}) if False else to_int(e, v)
        elif e.kind(v) == 'real':
            v = to_int(e, v)
    else:
        v = bi.py_str(e, v)
    r = c_encrypt(e, nm, kv, v)
    return r if nm == 'order-preserving' else dct(e, ('literal', r))


def to_int(e, v):
    return e.call(ExtClass(int), [v], {})


CC = {CM + ':OPECipher': c_class('order-preserving'), CM + ':AESCipher': c_class('symmetric'), CM + ':FuzzyCipher': c_class('fuzzy'),
      CM + ':HomomorphicCipher': c_class('arithmetic'), CM + ':SM4CipherBytes': c_class('sm4'), CM + ':encode': c_encode}


CTV = z3.Function('ciphertext_of_value', S, V, V, V)     # cipher, column information, given value -> what stands in the statement
CTOK = z3.Function('encryptable', S, V, V, B)


def g_column(e, a, k):
    """reference: the information of a column (a column the code accepts is recorded)"""
    m, c = e.resolve(a[0]), e.resolve(a[1])
    return e.from_V(dget(e.to_V(m), e.to_V(c)), COLM)


def value_of(e, enc, info, given, total=False):
    enc, info, given = e.resolve(enc), e.resolve(info), e.resolve(given)
    args = (e.str_term(enc), e.to_V(info), e.to_V(given))
    if not total and not e.branch(CTOK(*args)):
        e.raise_(ValueError, 'not encryptable')
    return e.from_V(CTV(*args), ObjT('ciphertext'))


def k_encrypt_value(e, f, a, k):
    """contract of SQLValues.encrypt_value (task encrypt_value proves it against refspec.insert.ciphertext)"""
    me, table, col, value, enc = a
    value = e.resolve(value)
    if e.opts.get('forbid_text'):
        if e.kind(value) == 'str':
            e.fail('an encrypted column is not assigned a text that is no literal (a column name)', 'encrypted as if it were a value')
        else:
            e.ok('an encrypted column is not assigned a text that is no literal (a column name)')
    meta = e.resolve(e.getattr_(me, 'db_meta'))
    info = e.getitem(e.resolve(e.getitem(e.resolve(e.getitem(meta, table)), 'columns')), col)
    return dct(e, ('value', value_of(e, enc, info, value)))


def k_ciphertext(e, f, a, k):
    kind, info, given = a
    return value_of(e, kind, info, given, True)


EV = {CL + 'sql_values:SQLValues.encrypt_value': k_encrypt_value, 'refspec.insert:ciphertext': k_ciphertext}


def rw_engine(ctx, json, opts=None, contracts=None):
    """engine in which rewrite_query runs on the given parsed statement (a function of the engine)"""
    def parse(e, f, a, k):
        return json(e)

    def fmt(e, f, a, k):
        e.setghost('final', a[0])
        return Sym('str', e.fresh(S, 'sql'))
    cs = dict(CC)
    cs.update({'sql_parsing:parse_mysql': parse, 'sql_parsing:format': fmt, 'sql_parsing:parse_alter_key': lambda e, f, a, k: None})
    cs.update(contracts or {})
    ext = dict(WEXT)
    ext.update({'ghost.cipher': g_cipher, 'ghost.encoded': g_encoded, 'ghost.column': g_column, 'copy.deepcopy': deepcopy})
    e = ctx.engine(cs, ext, dict({'drop_raise': True, 'branch_ms': 400}, **(opts or {})), WVAL)
    return e


def deepcopy(e, a, k):
    return copy_val(e, e.resolve(a[0]))


def copy_val(e, v):
    v = e.resolve(v)
    if isinstance(v, tuple):
        return tuple(copy_val(e, x) for x in v)
    if isinstance(v, Ref):
        o = e.obj(v)
        if isinstance(o, DObj):
            return e.alloc(DObj(o.base, o.shape, [(k, copy_val(e, x)) if not isinstance((k, x), Flat) else None for k, x in o.ents], o.absent))
        if isinstance(o, LObj):
            return e.alloc(type(o)([Elem(copy_val(e, s.v)) if isinstance(s, Elem) else s for s in o.segs], o.shape, o.src))
    return v


def metas(e, table):
    """the metadata store: arbitrary, with the table in it"""
    m = e.from_V(z3.Const('meta', V), MapT(META))
    cls = e.get_global(MM, 'Delta')
    e.setattr_(cls, 'meta', m)
    e.contracts[MM + ':Delta'] = lambda e, c, a, k: e.st.ghost['delta']
    e.setghost('delta', e.alloc(IObj(cls, {})))
    f, tabs = e.dict_lookup(m, 'd')
    f2, tm = e.dict_lookup(tabs, table) if f else (False, None)
    if not f2:
        raise PathEnd()
    f, cols = e.dict_lookup(e.resolve(tm), 'columns')
    f, anon = e.dict_lookup(e.resolve(tm), 'anonymous')
    return e.resolve(cols), anon


def rewriter(e):
    c = e.get_global(RW, 'Rewriter')
    return e.call(c, ['d'], {})


VKINDS = {'integer': IntT, 'decimal': RealT, 'text': DictT({'literal': StrT}), 'null': DictT({'null': DictT({})}), 'negated': DictT({'neg': IntT}),
          'list': DictT({'literal': ListT(StrT)})}


def t_encrypt_value(ctx):
    """SQLValues.encrypt_value: exactly the ciphertext of the encoded value under the column's key and the given cipher, or an error"""
    for kind in CIPHERS + ['other']:
        for vk, vs in VKINDS.items():
            e = rw_engine(ctx, None)
            f = ctx.func(e, CL + 'sql_values', 'SQLValues.encrypt_value')

            def run(kind=kind, vs=vs):
                m = e.from_V(z3.Const('meta', V), META)
                val = e.from_V(z3.Const('value', V), vs)
                col = Sym('str', z3.Const('col', S))
                me = e.call(e.get_global(CL + 'sql_values', 'SQLValues'), [m], {})
                r = e.outcomes(lambda: e.call(e.getattr_(me, 'encrypt_value'), ['t', col, val, kind], {}))
                ref = None
                if r[0] == 'ok':
                    cols = e.from_V(dget(dget(z3.Const('meta', V), VS('t')), VS('columns')), MapT(COLM))
                    info = g_column(e, [cols, col], {})
                    ref = e.outcomes(lambda: e.call(e.get_global('refspec.insert', 'ciphertext'), [kind, info, val], {}))
                return ref, r

            def onp(ref, r, kind=kind, vk=vk):
                if r[0] != 'ok':
                    ctx.cover('refused %s' % vk)
                    return
                ctx.cover('encrypted %s' % vk)
                if ref[0] != 'ok':
                    e.fail('a value without a ciphertext is refused (%s, %s)' % (kind, vk), 'accepted')
                    return
                f1, v = e.dict_lookup(e.resolve(r[1]), 'value')
                if not f1:
                    e.fail('the value stands under value', str(r[1]))
                    return
                e.prove_eq('%s ciphertext of the encoded value under the key of the column (%s)' % (kind, vk), v, ref[1])
            ctx.explore(e, CL + 'sql_values:SQLValues.encrypt_value', run, onp)


def ins_ref(e, j, cols):
    c0 = e.resolve(e.dict_lookup(j, 'columns')[1])
    if not isinstance(e.obj(c0) if isinstance(c0, Ref) else None, LObj):
        c0 = e.alloc(LObj([Elem(c0)]))
    v0 = e.resolve(e.dict_lookup(e.resolve(e.dict_lookup(j, 'query')[1]), 'select')[1])
    if not isinstance(e.obj(v0), LObj):
        v0 = e.alloc(LObj([Elem(v0)]))
    return (e.outcomes(lambda: e.call(e.get_global('refspec.insert', 'physical_columns'), [c0, cols], {})),
            e.outcomes(lambda: e.call(e.get_global('refspec.insert', 'values'), [c0, v0, cols], {})))


def only_keys(e, j, keys, nm):
    o = e.obj(j)
    have = sorted(k for k, v in o.ents if isinstance(k, str)) if o.base is None else None
    (e.ok if have == sorted(keys) else lambda x: e.fail(x, str(have)))(nm)


def t_insert(ctx):
    ctx.assume('two physical columns of a table have different names (C12)')
    for form in ('list', 'single'):
        def json(e, form=form):
            if form == 'single':
                return dct(e, ('columns', e.from_V(z3.Const('col', V), StrT)),
                           ('query', dct(e, ('select', e.from_V(z3.Const('val', V), DictT({'value': VALUE}))))), ('insert', 't'))
            cols = e.from_V(z3.Const('cols', V), ListT(StrT, 1))
            vals = e.from_V(z3.Const('vals', V), ListT(DictT({'value': VALUE}), 1))
            e.assume(llen(z3.Const('cols', V)) == llen(z3.Const('vals', V)))
            return dct(e, ('columns', cols), ('query', dct(e, ('select', vals))), ('insert', 't'))
        e = rw_engine(ctx, json, contracts=EV)
        ctx.func(e, RW, 'Rewriter.rewrite_query')
        for q in ('sql_columns:SQLColumns.rewrite', 'sql_values:SQLValues.rewrite', 'anonymous_table:AnonymousTable.rewrite'):
            ctx.func(e, CL + q.split(':')[0], q.split(':')[1])

        def run():
            cols, anon = metas(e, 't')
            r = e.outcomes(lambda: e.call(e.getattr_(rewriter(e), 'rewrite_query'), ['sql'], {}))
            return (anon, ins_ref(e, json(e), cols) if r[0] == 'ok' else None), r

        def onp(c, r, form=form):
            anon, ref = c
            if r[0] != 'ok':
                ctx.cover('refused ' + form)
                return
            if ref[0][0] != 'ok' or ref[1][0] != 'ok':
                e.fail('a statement that has no meaning is refused', 'accepted')
                return
            ctx.cover('rewritten ' + form)
            j = e.resolve(e.st.ghost['final'])
            only_keys(e, j, ['columns', 'insert', 'query'], 'nothing is added to or dropped from the statement')
            c2, q2, i2 = (e.dict_lookup(j, k)[1] for k in ('columns', 'query', 'insert'))
            v2 = e.dict_lookup(e.resolve(q2), 'select')[1]
            e.prove_eq('INSERT goes to the physical table', i2, anon)
            e.prove_eq('the column list is the physical columns in order', c2, ref[0][1])
            e.prove_eq('the value list lines up with the column list, ciphertexts only', v2, ref[1][1])
        ctx.explore(e, RW + ':Rewriter.rewrite_query (INSERT, %s)' % form, run, onp)


def t_rows(ctx):
    def json(e):
        return dct(e, ('insert', 't'), ('values', e.from_V(z3.Const('rows', V), ListT(MapT(ObjT('given')), 1))))
    e = rw_engine(ctx, json, contracts=EV)
    ctx.func(e, RW, 'Rewriter.rewrite_query')
    ctx.func(e, CL + 'sql_values', 'SQLRows.rewrite')

    def run():
        cols, anon = metas(e, 't')
        r = e.outcomes(lambda: e.call(e.getattr_(rewriter(e), 'rewrite_query'), ['sql'], {}))
        ref = None
        if r[0] == 'ok':
            rows = e.dict_lookup(json(e), 'values')[1]
            ref = e.outcomes(lambda: e.call(e.get_global('refspec.insert', 'rows'), [rows, cols], {}))
        return (anon, ref), r

    def onp(c, r):
        anon, ref = c
        if r[0] != 'ok':
            ctx.cover('refused')
            return
        if ref[0] != 'ok':
            e.fail('a statement that has no meaning is refused', 'accepted')
            return
        ctx.cover('rewritten')
        j = e.resolve(e.st.ghost['final'])
        only_keys(e, j, ['insert', 'values'], 'nothing is added to or dropped from the statement')
        e.prove_eq('INSERT goes to the physical table', e.dict_lookup(j, 'insert')[1], anon)
        e.prove_eq('every row carries exactly the physical columns with their ciphertexts', e.dict_lookup(j, 'values')[1], ref[1])
    ctx.explore(e, RW + ':Rewriter.rewrite_query (INSERT, rows)', run, onp)


def t_update(ctx):
    SETV = OneT(IntT, RealT, DictT({'literal': StrT}), DictT({'null': DictT({})}), StrT, DictT({'add': ListT(IntT)}))

    def json(e):
        return dct(e, ('update', 't'), ('set', e.from_V(z3.Const('set', V), MapT(SETV))))
    e = rw_engine(ctx, json, contracts=EV)
    ctx.func(e, RW, 'Rewriter.rewrite_query')
    ctx.func(e, CL + 'sql_set', 'SQLSet.rewrite')
    e.opts['forbid_text'] = True

    def run():
        cols, anon = metas(e, 't')
        r = e.outcomes(lambda: e.call(e.getattr_(rewriter(e), 'rewrite_query'), ['sql'], {}))
        ref = None
        if r[0] == 'ok':
            st = e.dict_lookup(json(e), 'set')[1]
            ref = e.outcomes(lambda: e.call(e.get_global('refspec.insert', 'assignments'), [st, cols], {}))
        return (anon, ref), r

    def onp(c, r):
        anon, ref = c
        if r[0] != 'ok':
            ctx.cover('refused')
            return
        if ref[0] != 'ok':
            e.fail('a statement that has no meaning is refused', 'accepted')
            return
        ctx.cover('rewritten')
        j = e.resolve(e.st.ghost['final'])
        only_keys(e, j, ['set', 'update'], 'nothing is added to or dropped from the statement')
        e.prove_eq('UPDATE goes to the physical table', e.dict_lookup(j, 'update')[1], anon)
        e.prove_eq('every cipher column of every assigned encrypted column is assigned its ciphertext, plaintext columns their value',
                   e.dict_lookup(j, 'set')[1], ref[1])
    ctx.explore(e, RW + ':Rewriter.rewrite_query (UPDATE)', run, onp)


C07 = [('encrypt_value', t_encrypt_value), ('insert', t_insert), ('rows', t_rows)]
C08 = [('encrypt_value', t_encrypt_value), ('update', t_update)]


# ------------------------------------------------------------------ C09: conditions
COND = z3.Function('condition_of', V, V, V)         # condition, columns of the table -> rewritten condition
CONDOK = z3.Function('expressible', V, V, B)
MENT = z3.Function('mentions_encrypted', V, V, B)   # expression, columns of the table


def g_sub(e, a, k):
    return e.from_V(COND(e.to_V(a[0]), e.st.ghost['cols']), ObjT('condition'))


def unfold_mentions(e, v):
    """instances of the contract of mentions_encrypted (task mentions) for a value of known form"""
    cols = e.st.ghost['cols']
    v = e.resolve(v)
    t = MENT(e.to_V(v), cols)
    if isinstance(v, Ref):
        o = e.obj(v)
        if isinstance(o, DObj) and o.base is None and all(isinstance(x, tuple) and isinstance(x[0], str) for x in o.ents):
            e.assume(t == z3.Or(*[unfold_mentions(e, x) for k, x in o.ents if k != 'literal']))
        elif isinstance(o, LObj) and all(isinstance(x, Elem) for x in o.segs):
            e.assume(t == z3.Or(*[unfold_mentions(e, x.v) for x in o.segs]))
    elif e.kind(v) == 'str':
        s = e.str_term(v)
        info = dget(cols, V.VStr(s))
        e.assume(z3.Implies(dhas(cols, V.VStr(s)), z3.And(z3.Not(z3.Contains(s, z3.StringVal('.'))), V.is_VDict(info))))
        e.assume(z3.Implies(z3.Not(z3.Contains(s, z3.StringVal('.'))),
                            t == z3.And(dhas(cols, V.VStr(s)), z3.Not(V.bv(dget(info, VS('plaintext')))))))
    else:
        e.assume(z3.Not(t))
    return t


def g_mentions(e, a, k):
    unfold_mentions(e, a[0])
    return Sym('bool', MENT(e.to_V(a[0]), e.st.ghost['cols']))


def g_fuzzy(e, a, k):
    return c_encrypt(e, 'fuzzy', a[0], a[1])


def k_where(e, f, a, k):
    """contract of SQLWhere.rewrite on a smaller condition"""
    w = e.to_V(a[1])
    e.oblige('the condition is rewritten for its own table', e.str_term(e.resolve(a[2])) == z3.StringVal('t'))
    if not e.branch(CONDOK(w, e.st.ghost['cols'])):
        e.raise_(Exception, 'refused')
    return e.from_V(COND(w, e.st.ghost['cols']), ObjT('condition'))


def k_mentions(e, f, a, k):
    e.oblige('names are looked up in the columns of the table', e.to_V(a[2]) == e.st.ghost['cols'])
    unfold_mentions(e, a[1])
    return Sym('bool', MENT(e.to_V(a[1]), e.st.ghost['cols']))


WEXTS = {'ghost.sub': g_sub, 'ghost.mentions': g_mentions, 'ghost.submentions': g_mentions, 'ghost.fuzzy': g_fuzzy}
LIT = DictT({'literal': StrT})
LEFT = {'name': StrT, 'integer': IntT, 'text': LIT, 'expression': MapT(ObjT('expr'))}
RIGHT = {'name': StrT, 'integer': IntT, 'boolean': BoolT, 'decimal': RealT, 'text': LIT, 'list': DictT({'literal': ListT(StrT)}), 'expression': MapT(ObjT('expr'))}


def where_engine(ctx, contracts):
    e = rw_engine(ctx, None, contracts=contracts, opts={'pattern_parts': True})
    e.externals.update(WEXTS)
    return e


def operand(e, nm, shape):
    v = e.from_V(z3.Const(nm, V), shape)
    if isinstance(shape, MapT):
        e.assume(z3.Not(dhas(z3.Const(nm, V), VS('literal'))))
    return v


def one_table(e):
    """SQLWhere of a database whose table t has some columns; ghost 'cols' is the column information"""
    m = z3.Const('meta', V)
    meta = e.from_V(m, META)
    f, tm = e.dict_lookup(meta, 't')
    if not f:
        raise PathEnd()
    f, cols = e.dict_lookup(e.resolve(tm), 'columns')
    cols = e.resolve(cols)
    e.setghost('cols', e.to_V(cols))
    if not e.branch(e.truth_term(cols)):
        raise PathEnd()
    return e.call(e.get_global(CL + 'sql_where', 'SQLWhere'), [meta], {}), cols


def where_check(ctx, e, f, w, what, exact=True):
    def run():
        me, cols = one_table(e)
        cond = w(e)
        r = e.outcomes(lambda: e.inline(f, [me, cond, 't'], {}))
        ref = e.outcomes(lambda: e.call(e.get_global('refspec.where', 'condition'), [w(e), cols], {}))
        return ref, r

    def onp(ref, r):
        if r[0] != 'ok':
            ctx.cover('refused ' + what)
            if ref[0] == 'ok' and exact:
                e.fail('an expressible condition is not refused (%s)' % what, 'raises %r %r' % (e.obj(r[1]).cls, e.obj(r[1]).attrs.get('args')))
            return
        if ref[0] != 'ok':
            e.fail('a condition on an encrypted column that no cipher column decides is refused (%s)' % what, 'forwarded %s' % (r[1],))
            return
        ctx.cover('rewritten ' + what)
        e.prove_eq('the rewritten condition is the reference meaning (%s)' % what, r[1], ref[1])
    ctx.explore(e, CL + 'sql_where:SQLWhere.rewrite', run, onp)


def t_compare(op):
    def task(ctx):
        e = where_engine(ctx, {CL + 'sql_where:SQLWhere.rewrite': k_where, CL + 'sql_where:SQLWhere.mentions_encrypted': k_mentions})
        f = ctx.func(e, CL + 'sql_where', 'SQLWhere.rewrite')
        for q in ('is_encrypted', 'encrypt_literal', 'encrypt_pattern'):
            ctx.func(e, CL + 'sql_where', 'SQLWhere.' + q)
        for lk, ls in LEFT.items():
            for rk, rs in RIGHT.items():
                def w(e, ls=ls, rs=rs):
                    return dct(e, (op, e.alloc(LObj([Elem(operand(e, 'left', ls)), Elem(operand(e, 'right', rs))]))))
                where_check(ctx, e, f, w, '%s %s %s' % (lk, op, rk))
    return task


def t_structure(ctx):
    """AND / OR by structural induction; every other condition is forwarded unchanged or refused"""
    ctx.assume('no column name has a dot in it')
    e = where_engine(ctx, {CL + 'sql_where:SQLWhere.rewrite': k_where, CL + 'sql_where:SQLWhere.mentions_encrypted': k_mentions})
    f = ctx.func(e, CL + 'sql_where', 'SQLWhere.rewrite')
    for op in ('and', 'or'):
        where_check(ctx, e, f, lambda e, op=op: dct(e, (op, e.from_V(z3.Const('parts', V), ListT(ObjT('condition'))))), op, False)

    def other(e):
        o = z3.Const('op', S)
        for x in ('and', 'or', 'eq', 'gt', 'lt', 'gte', 'lte', 'like'):
            e.assume(o != z3.StringVal(x))
        return dct(e, (Sym('str', o), e.from_V(z3.Const('args', V), ObjT('args'))))
    where_check(ctx, e, f, other, 'other operator')
    where_check(ctx, e, f, lambda e: e.from_V(z3.Const('w', V), StrT), 'bare name')
    where_check(ctx, e, f, lambda e: e.from_V(z3.Const('w', V), BoolT), 'constant')
    where_check(ctx, e, f, lambda e: e.from_V(z3.Const('w', V), IntT), 'number')


def t_mentions(ctx):
    for kind, shape in (('name', StrT), ('dict', MapT(ObjT('expr'))), ('list', ListT(ObjT('expr'))), ('number', IntT)):
        e = where_engine(ctx, {CL + 'sql_where:SQLWhere.mentions_encrypted': k_mentions})
        f = ctx.func(e, CL + 'sql_where', 'SQLWhere.mentions_encrypted')

        def run(shape=shape):
            me, cols = one_table(e)
            v = e.from_V(z3.Const('v', V), shape)
            return e.outcomes(lambda: e.call(e.get_global('refspec.where', 'one_level_mentions'), [v, cols], {})), e.outcomes(lambda: e.inline(f, [me, v, cols], {}))

        def onp(ref, r, kind=kind):
            if r[0] != 'ok':
                e.fail('mentions_encrypted is total', 'raises %r' % (e.obj(r[1]).cls,))
                return
            ctx.cover(kind)
            e.oblige('mentions_encrypted sees exactly the encrypted names outside literals (%s)' % kind,
                     e.truth_term(r[1]) == e.truth_term(ref[1]))
        ctx.explore(e, CL + 'sql_where:SQLWhere.mentions_encrypted', run, onp)


def t_mentions_any(ctx):
    """no single table is meant: a name counts when it is an encrypted column of any table of the database"""
    for known, none in (('', False), ('None', True)):
        e = where_engine(ctx, {CL + 'sql_where:SQLWhere.mentions_encrypted': k_mentions})
        f = ctx.func(e, CL + 'sql_where', 'SQLWhere.mentions_encrypted')

        def run(none=none):
            m = z3.Const('meta', V)
            meta = e.from_V(m, META)
            me = e.call(e.get_global(CL + 'sql_where', 'SQLWhere'), [meta], {})
            v = e.from_V(z3.Const('v', V), StrT)
            r = e.outcomes(lambda: e.inline(f, [me, v, None if none else dct(e)], {}))
            return e.outcomes(lambda: e.call(e.get_global('refspec.where', 'mentioned_in_any_table'), [v, e.from_V(m, META)], {})), r

        def onp(ref, r):
            if r[0] != 'ok':
                e.fail('mentions_encrypted is total', 'raises %r' % (e.obj(r[1]).cls,))
                return
            ctx.cover('any table')
            e.oblige('mentions_encrypted sees exactly the encrypted names of every table', e.truth_term(r[1]) == e.truth_term(ref[1]))
        ctx.explore(e, CL + 'sql_where:SQLWhere.mentions_encrypted', run, onp)


def t_where_statements(ctx):
    for st in ('select', 'select_distinct', 'update', 'delete'):
        def json(e, st=st):
            w = ('where', e.from_V(z3.Const('where', V), ObjT('condition')))
            if st == 'update':
                return dct(e, ('update', 't'), ('set', dct(e)), w)
            if st == 'delete':
                return dct(e, w, ('delete', 't'))
            return dct(e, (st, dct(e, ('count', '*'))), ('from', 't'), w)
        e = rw_engine(ctx, json, contracts={CL + 'sql_where:SQLWhere.rewrite': k_where})
        ctx.func(e, RW, 'Rewriter.rewrite_query')
        ctx.func(e, CL + 'sql_from', 'SQLFrom.rewrite')

        def run():
            cols, anon = metas(e, 't')
            e.setghost('cols', e.to_V(cols))
            return anon, e.outcomes(lambda: e.call(e.getattr_(rewriter(e), 'rewrite_query'), ['sql'], {}))

        def onp(anon, r, st=st):
            if r[0] != 'ok':
                ctx.cover('refused ' + st)
                if e.st.ghost.get('final') is not None:
                    e.fail('a refused condition refuses the statement', 'printed')
                e.oblige('%s is only refused when its condition is' % st, z3.Not(CONDOK(z3.Const('where', V), e.st.ghost['cols'])))
                return
            ctx.cover('rewritten ' + st)
            j = e.resolve(e.st.ghost['final'])
            keys = {'update': ['set', 'update', 'where'], 'delete': ['delete', 'where']}.get(st, ['from', st, 'where'])
            only_keys(e, j, keys, 'nothing is added to or dropped from the statement (%s)' % st)
            t = e.dict_lookup(j, {'update': 'update', 'delete': 'delete'}.get(st, 'from'))[1]
            e.prove_eq('%s goes to the physical table' % st, t, anon)
            e.prove_eq('the condition of %s is the rewritten one' % st, e.dict_lookup(j, 'where')[1], g_sub(e, [e.from_V(z3.Const('where', V), ObjT('condition'))], {}))
        ctx.explore(e, RW + ':Rewriter.rewrite_query (%s ... WHERE)' % st, run, onp)


C09 = [('compare ' + op, t_compare(op)) for op in ('eq', 'gt', 'lt', 'gte', 'lte', 'like')] + [
    ('structure', t_structure), ('mentions', t_mentions), ('mentions of any table', t_mentions_any), ('statements', t_where_statements)]


# ------------------------------------------------------------------ C21: ORDER BY
def t_orderby(ctx):
    for form in ('asc', 'desc', 'any', 'none', 'number'):
        def json(e, form=form):
            val = ('value', e.from_V(z3.Const('key', V), StrT if form != 'number' else IntT))
            o = dct(e, val) if form in ('none', 'number') else dct(e, val, ('sort', form if form != 'any' else e.from_V(z3.Const('sort', V), StrT)))
            return dct(e, ('select', dct(e, ('count', '*'))), ('from', 't'), ('orderby', o))
        e = rw_engine(ctx, json)
        ctx.func(e, RW, 'Rewriter.rewrite_query')
        ctx.func(e, CL + 'function', 'OrderBy.rewrite')

        def run():
            cols, anon = metas(e, 't')
            r = e.outcomes(lambda: e.call(e.getattr_(rewriter(e), 'rewrite_query'), ['sql'], {}))
            o = e.resolve(e.dict_lookup(json(e), 'orderby')[1])
            ref = e.outcomes(lambda: e.call(e.get_global('refspec.orderby', 'orderby'), [o, cols], {}))
            return (anon, ref), r

        def onp(c, r, form=form):
            anon, ref = c
            if r[0] != 'ok':
                ctx.cover('refused ' + form)
                if ref[0] == 'ok':
                    e.fail('a key that can be sorted by is not refused (%s)' % form, 'raises %r' % (e.obj(r[1]).cls,))
                return
            if ref[0] != 'ok':
                e.fail('a key without an order-preserving column is refused (%s)' % form, 'accepted')
                return
            ctx.cover('rewritten ' + form)
            j = e.resolve(e.st.ghost['final'])
            only_keys(e, j, ['from', 'orderby', 'select'], 'nothing is added to or dropped from the statement')
            e.prove_eq('ORDER BY sorts by the column or its order-preserving column in the given direction (%s)' % form,
                       e.dict_lookup(j, 'orderby')[1], ref[1])
        ctx.explore(e, RW + ':Rewriter.rewrite_query (ORDER BY)', run, onp)


C21 = [('orderby', t_orderby)]


# ------------------------------------------------------------------ C11: results
DH = 'scheduler.handers.decrypt_handler'
ISDEC, ISDT = z3.Function('is_decimal', V, B), z3.Function('is_datetime', V, B)
DTEXT, TTEXT = z3.Function('decimal_text', V, S), z3.Function('time_text', V, S, S)
NUM = z3.Function('number_of_text', S, V)
CELL = z3.Function('decrypted_cell', V, S, S, V)       # cell, column, cipher -> decrypted value
PLAIN = z3.Function('plaintext', S, V, V, V)           # cipher, key material, ciphertext
DECODE = z3.Function('decoded', V, S, V)
CELLT = OneT(NoneT, IntT, RealT, StrT, ObjT('cell'))


def is_cls(e, v, c):
    nm = c.name if isinstance(c, ExtVal) else c.py.__name__ if isinstance(c, ExtClass) else ''
    if nm in ('Decimal', 'decimal.Decimal', 'datetime', 'datetime.datetime'):
        if isinstance(v, SV):
            return e.branch((ISDEC if 'ecimal' in nm else ISDT)(v.t))
        return False
    return None


def cell_attr(e, v, name):
    if name == '__str__':
        return Builtin('__str__', lambda e, a, k: Sym('str', DTEXT(v.t)))
    if name == 'strftime':
        return Builtin('strftime', lambda e, a, k: Sym('str', TTEXT(v.t, e.str_term(a[0]))))
    raise Unsupported('attribute %s of a cell' % name)


def cell_str(e, v):
    if isinstance(v, SV):
        if e.branch(ISDEC(v.t)):
            return Sym('str', DTEXT(v.t))
    return None


def x_eval(e, a, k):
    """eval of the text of a DECIMAL: the number it writes"""
    return number(e, NUM(e.str_term(e.resolve(a[0]))))


def number(e, t):
    e.assume(z3.And(z3.Not(ISDEC(t)), z3.Not(ISDT(t))))
    return e.from_V(t, ObjT('number'))


def k_cell(e, f, a, k):
    me, table, val, name, state = a
    e.oblige('cells are decrypted for the table of the query', e.str_term(e.resolve(table)) == z3.StringVal('t'))
    return e.from_V(CELL(e.to_V(val), e.str_term(e.resolve(name)), e.str_term(e.resolve(state))), ObjT('value'))


REXT = {'eval': x_eval,
        'ghost.is_decimal': lambda e, a, k: Sym('bool', ISDEC(a[0].t)) if isinstance(e.resolve(a[0]), SV) else False,
        'ghost.is_time': lambda e, a, k: Sym('bool', ISDT(a[0].t)) if isinstance(e.resolve(a[0]), SV) else False,
        'ghost.equal_number': lambda e, a, k: number(e, NUM(DTEXT(e.resolve(a[0]).t))),
        'ghost.time_text': lambda e, a, k: Sym('str', TTEXT(e.resolve(a[0]).t, z3.StringVal('%Y-%m-%d %H:%M:%S'))),
        'ghost.cell_plaintext': lambda e, a, k: e.from_V(CELL(e.to_V(a[0]), e.str_term(e.resolve(a[1])), e.str_term(e.resolve(a[2]))), ObjT('value'))}


def result_engine(ctx, contracts):
    e = rw_engine(ctx, None, contracts=contracts, opts={'isinstance': is_cls, 'objattr': cell_attr, 'strof': cell_str})
    e.externals.update(REXT)
    ctx.assume('eval of the text of a DECIMAL gives the equal number (nearest double); datetime.strftime formats as documented')
    return e


def a_result(e):
    """rows, column names and states of one query: every row has one cell per selected column"""
    n = llen(z3.Const('names', V))
    rows = e.from_V(z3.Const('rows', V), ListT(ListT(CELLT, fact=lambda e, t: [llen(t) == n])))
    names, states = e.from_V(z3.Const('names', V), ListT(StrT)), e.from_V(z3.Const('states', V), ListT(StrT))
    e.assume(llen(z3.Const('states', V)) == n)
    return rows, names, states


def t_rows_out(ctx):
    for entry in ('decrypt', 'decrypt1', 'executor.decrypt', 'executor.decrypt1', 'executor ciphertext', 'executor no rows'):
        e = result_engine(ctx, {DH + ':DecryptHandler.__decrypt__': k_cell})
        ctx.func(e, DH, 'DecryptHandler.decrypt')
        ctx.func(e, DH, 'DecryptHandler.decrypt1')
        DX = 'scheduler.backend.executors.decrypt_executor'
        ctx.func(e, DX, 'DecryptQueryExecutor.decrypt')
        ctx.func(e, DX, 'DecryptQueryExecutor.decrypt1')

        def run(entry=entry):
            rows, names, states = a_result(e)
            meta = e.from_V(z3.Const('meta', V), META)
            sel = Opaque('select', {'select_state': states})
            ex = Opaque('executor', {'rewriter': Opaque('rewriter', {'select': sel}), 'result': rows})
            h = e.get_global(DH, 'DecryptHandler')
            q = dct(e, ('ciphertext', True if entry == 'executor ciphertext' else False)) if entry != 'executor.decrypt' else dct(e)
            if entry == 'executor no rows':
                e.assume(llen(z3.Const('rows', V)) == 0)

            def go():
                if entry == 'decrypt':
                    return e.call(e.getattr_(e.call(h, [ex], {}), 'decrypt'), [rows, names, meta, 't'], {})
                if entry == 'decrypt1':
                    return e.call(e.getattr_(e.call(h, [None], {}), 'decrypt1'), [dct(e, ('rows', rows)), names, meta, 't', states], {})
                d = e.call(e.get_global(DX, 'DecryptQueryExecutor'), [h], {})
                if entry == 'executor.decrypt1':
                    return e.call(e.getattr_(d, 'decrypt1'), [dct(e, ('rows', rows)), states, e.alloc(LObj(())), names, meta, 't'], {})
                return e.call(e.getattr_(d, 'decrypt'), [ex, q, names, meta, 't'], {})
            r = e.outcomes(go)
            rows, names, states = a_result(e)
            kind = 'lists' if entry.endswith('1') else 'tuples'
            ref = e.outcomes(lambda: e.call(e.get_global('refspec.result', kind), [rows, names, states], {}))
            return (ref, names), r

        def onp(c, r, entry=entry):
            ref, names = c
            if r[0] != 'ok':
                e.fail('%s does not fail' % entry, 'raises %r %r' % (e.obj(r[1]).cls, e.obj(r[1]).attrs.get('args')))
                return
            ctx.cover(entry)
            got = r[1]
            if entry.endswith('1'):
                e.prove_eq('%s reports the selected columns' % entry, e.dict_lookup(e.resolve(got), 'columns')[1], names)
                got = e.dict_lookup(e.resolve(got), 'rows')[1]
            if entry == 'executor ciphertext':
                e.prove_eq('asking for the ciphertext gives the rows as they are', got, a_result(e)[0])
                return
            e.prove_eq('%s: row for row and column for column, each cell its own value' % entry, got, ref[1])
        ctx.explore(e, DH + ':DecryptHandler (%s)' % entry, run, onp)


def t_decrypt_cell(ctx):
    def cls(kind):
        def new(e, c, a, k):
            def dec(e, b, k2):
                e.oblige('a cell is decrypted with a key its cipher has', z3.Not(V.is_VNone(e.to_V(a[0]))))
                return e.from_V(PLAIN(z3.StringVal(kind), e.to_V(a[0]), e.to_V(b[0])), ObjT('plaintext'))
            return Opaque('cipher', {'kind': kind, 'decrypt': Builtin('decrypt', dec)})
        return new

    def plain(e, a, k):
        kind, info, x = a
        f, kv = e.dict_lookup(e.resolve(info), 'homomorphic_key' if kind == 'arithmetic' else 'sm4_key' if kind == 'sm4' else 'key')
        return e.from_V(PLAIN(z3.StringVal(kind), e.to_V(kv), e.to_V(x)), ObjT('plaintext'))

    def dec(e, f, a, k):
        return e.from_V(DECODE(e.to_V(a[0]), e.str_term(e.resolve(a[1]))), ObjT('value'))
    for kind in ('symmetric', 'order-preserving', 'arithmetic'):
        cs = {CM + ':AESCipher': cls('symmetric'), CM + ':OPECipher': cls('order-preserving'), CM + ':HomomorphicCipher': cls('arithmetic'),
              CM + ':SM4CipherBytes': cls('sm4'), CM + ':FuzzyCipher': cls('fuzzy'), CM + ':decode': dec}
        e = result_engine(ctx, cs)
        e.contracts.update(cs)
        e.externals.update({'ghost.key_plaintext': plain, 'ghost.decoded': lambda e, a, k: dec(e, None, a, k)})
        f = ctx.func(e, DH, 'DecryptHandler.__decrypt__')

        def run(kind=kind):
            m = z3.Const('meta', V)
            meta = e.from_V(m, META)
            col = z3.Const('col', S)
            x = e.from_V(z3.Const('x', V), CELLT)
            info = dget(dget(dget(m, VS('t')), VS('columns')), V.VStr(col))
            e.assume(z3.Not(z3.Contains(col, z3.StringVal('.'))))
            if not e.dict_lookup(meta, 't')[0]:
                raise PathEnd()
            cols = e.resolve(e.getitem(e.resolve(e.getitem(meta, 't')), 'columns'))
            if not e.dict_lookup(cols, Sym('str', col))[0]:
                raise PathEnd()
            if kind == 'arithmetic':
                f2, hk = e.dict_lookup(e.resolve(e.dict_lookup(cols, Sym('str', col))[1]), 'homomorphic_key')
                if not f2:
                    raise PathEnd()
            h = e.call(e.get_global(DH, 'DecryptHandler'), [None], {})
            e.setattr_(h, 'db_meta', meta)
            r = e.outcomes(lambda: e.inline(f, [h, 't', x, Sym('str', col), kind], {}))
            inf = e.from_V(info, COLM)
            ref = e.outcomes(lambda: e.call(e.get_global('refspec.result', 'decrypted'), [x, inf, kind], {}))
            return ref, r

        def onp(ref, r, kind=kind):
            if r[0] != 'ok':
                e.fail('a %s cell decrypts' % kind, 'raises %r %r' % (e.obj(r[1]).cls, e.obj(r[1]).attrs.get('args')))
                return
            ctx.cover(kind)
            e.prove_eq('%s cell: decrypted under the key of its own column, decoded by its type, NULL stays NULL' % kind, r[1], ref[1])
        ctx.explore(e, DH + ':DecryptHandler.__decrypt__', run, onp)
    ctx.assume('a recorded decryption state names a cipher the column has, with its key recorded (C10, C12)')


C11 = [('rows', t_rows_out), ('cell', t_decrypt_cell)]


# ------------------------------------------------------------------ C10: select lists
def plain_name(t):
    return [z3.Not(z3.Contains(t, z3.StringVal('.'))), t != z3.StringVal('*')]


NameT = type(StrT)('str', plain_name)
AGGS = ['max', 'min', 'sum', 'avg', 'count']
ITEM = OneT(NameT, SingleT({f: NameT if f != 'count' else type(StrT)('str', lambda t: plain_name(t)[:1]) for f in AGGS}))


def t_select(form, distinct=False):
    def task(ctx):
        key = 'select_distinct' if distinct else 'select'

        ctx.assume('a selected column is a plain name: no dot in it, not *')

        def item(e):
            f = form.split()[-1]
            name = e.from_V(z3.Const('col', V), NameT)
            return name if f == 'column' else dct(e, ('count', '*')) if f == 'count(*)' else dct(e, (f, name))

        def json(e):
            if form == '*':
                s = '*'
            elif form == 'list':
                s = e.from_V(z3.Const('items', V), ListT(DictT({'value': ITEM}, {'name': StrT}), 1))
            elif form.startswith('alias'):
                s = dct(e, ('value', item(e)), ('name', e.from_V(z3.Const('alias', V), StrT)))
            else:
                s = dct(e, ('value', item(e)))
            return dct(e, (key, s), ('from', 't'))
        e = rw_engine(ctx, json)
        ctx.func(e, RW, 'Rewriter.rewrite_query')
        ctx.func(e, CL + 'sql_select', 'SQLSelect.rewrite')

        def run():
            cols, anon = metas(e, 't')
            rw = rewriter(e)
            r = e.outcomes(lambda: e.call(e.getattr_(rw, 'rewrite_query'), ['sql'], {}))
            s = e.resolve(e.dict_lookup(json(e), key)[1])
            if form == '*':
                ref = e.outcomes(lambda: e.call(e.get_global('refspec.select', 'star'), [cols], {}))
            elif form == 'list':
                ref = e.outcomes(lambda: e.call(e.get_global('refspec.select', 'several'), [s, cols], {}))
            else:
                ref = e.outcomes(lambda: e.call(e.get_global('refspec.select', 'one'), [item(e), cols], {}))
            return (rw, anon, ref), r

        def onp(c, r):
            rw, anon, ref = c
            if r[0] != 'ok':
                ctx.cover('refused')
                if ref[0] == 'ok' and form not in ('*', 'list'):
                    e.fail('a readable item is not refused (%s)' % form, 'raises %r %r' % (e.obj(r[1]).cls, e.obj(r[1]).attrs.get('args')))
                return
            if ref[0] != 'ok':
                e.fail('an item without a cipher column is refused (%s)' % form, 'accepted')
                return
            ctx.cover('rewritten')
            ex, names, types, states = e.resolve(ref[1])
            if form not in ('*', 'list'):
                ex, names, types, states = ([ex] + [e.alloc(LObj([Elem(x)])) for x in (names, types, states)])
                ex = dct(e, ('value', ex), *([('name', e.from_V(z3.Const('alias', V), StrT))] if form.startswith('alias') else []))
            j = e.resolve(e.st.ghost['final'])
            only_keys(e, j, ['from', key], 'nothing is added to or dropped from the statement')
            e.prove_eq('SELECT reads the physical table', e.dict_lookup(j, 'from')[1], anon)
            e.prove_eq('every item is sent as its own physical column (%s)' % form, e.dict_lookup(j, key)[1], ex)
            sel = e.getattr_(rw, 'select')
            if distinct and False:
                sel = e.getattr_(rw, 'select_distinct')
            e.prove_eq('the reported names are those of the requested items in order (%s)' % form, e.getattr_(sel, 'select_columns'), names)
            e.prove_eq('the reported types are those of the requested items in order (%s)' % form, e.getattr_(sel, 'select_types'), types)
            e.prove_eq('the decryption states are those of the requested items in order (%s)' % form, e.getattr_(sel, 'select_state'), states)
        ctx.explore(e, RW + ':Rewriter.rewrite_query (%s %s)' % (key.upper(), form), run, onp)
    return task


C10 = [(('distinct ' if d else '') + f, t_select(f, d)) for d in (False, True) for f in ('*', 'list', 'column', 'alias column', 'count(*)', 'alias count(*)')
       ] + [(f, t_select(f)) for f in AGGS] + [('alias max', t_select('alias max'))]


# ------------------------------------------------------------------ C12: CREATE TABLE
TB = 'scheduler.handers.table'
CLK, CLKI = z3.Function('clock_reading', I, R), z3.Function('reading_no', R, I)
MD5, MD5I = z3.Function('md5_hex', S, S), z3.Function('md5_inverse', S, S)
DEFPH = z3.Function('default_phrase', V, V, S, S)
QUOTED = z3.Function('quoted', S, S)
PRINTED = z3.Function('printed', V, S)
WT, WN = z3.Function('width_type', S, I, S), z3.Function('width', S, I, I)
CONF = DictT({'key': StrT, 'fuzzy': BoolT}, {'arithmetic': BoolT, 'homomorphic_key': ObjT('hom'), 'sm4': BoolT, 'sm4_key': StrT})
SIZE = type(IntT)('int', lambda t: [t >= 1])
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def m_clock(e, a, k):
    e.st.counter += 1
    i = e.st.counter
    t = CLK(z3.IntVal(i))
    e.assume(CLKI(t) == i)
    e.setghost('clocks', e.st.ghost.get('clocks', ()) + (t,))
    return Sym('real', t)


def m_md5(e, a, k):
    t = e.str_term(e.resolve(a[0]))
    r = MD5(t)
    later(e, z3.And(MD5I(r) == t, z3.Length(r) == 32))
    return Opaque('md5', {'hexdigest': Builtin('hexdigest', lambda e, a, k: Sym('str', r))})


def m_choice(e, a, k):
    s = e.resolve(a[0])
    if not isinstance(s, str) or not s:
        raise Unsupported('random.choice')
    r = e.fresh(S, 'letter')
    later(e, z3.And(z3.Length(r) == 1, z3.Contains(z3.StringVal(s), r)))
    return Sym('str', r)


def later(e, f):
    """a fact no branch depends on: assumed when the names are compared"""
    e.setghost('later', e.st.ghost.get('later', ()) + (f,))


def k_default(e, f, a, k):
    col = a[0]
    conf = a[1] if len(a) > 1 else k.get('keys')
    enc = a[2] if len(a) > 2 else k.get('enc')
    try:
        cv = e.to_V(col)
    except Unsupported:
        cv = e.obj(e.resolve(col)).base
        if cv is None:
            raise
    return Sym('str', DEFPH(cv, e.to_V(conf), e.str_term(enc) if enc is not None else z3.StringVal('')))


def k_width(e, f, a, k):
    tk, tv = e.str_term(e.resolve(a[0])), e.num_term(e.resolve(a[1]))
    e.assume(WN(tk, tv) >= 0)
    return (Sym('str', WT(tk, tv)), Sym('int', WN(tk, tv)))


def table_engine(ctx, json, hook):
    cs = {TB + ':get_default': k_default, MM + ':get_type_and_len': k_width, TB + ':quote': lambda e, f, a, k: Sym('str', QUOTED(e.str_term(e.resolve(a[0]))))}
    opts = {'merge': True}
    if hook:
        opts['for_inv'] = hook
    e = rw_engine(ctx, json, opts, cs)
    e.externals.update({'time.perf_counter': m_clock, 'hashlib.md5': m_md5, 'random.choice': m_choice,
                        'ghost.width_type': lambda e, a, k: Sym('str', WT(e.str_term(a[0]), e.num_term(e.resolve(a[1])))),
                        'ghost.width': lambda e, a, k: Sym('int', WN(e.str_term(a[0]), e.num_term(e.resolve(a[1])))),
                        'ghost.default_phrase': lambda e, a, k: k_default(e, None, [a[0]] + ([] if a[1] is None else a[1:]), {}),
                        'ghost.quoted': lambda e, a, k: Sym('str', QUOTED(e.str_term(e.resolve(a[0]))))})
    e.extvalues['string.ascii_letters'] = lambda e: LETTERS
    ctx.assume('no two readings of time.perf_counter are equal; md5 has no collision on them')
    return e


SIZES = {'none': DictT({}), 'one': SIZE, 'two': TupT([SIZE, SIZE])}


def t_column(tname, size, encrypted, light=False):
    """rewrite_table, one column: loop contract of the loop over the column definitions"""
    def task(ctx):
        TYPE = DictT({tname: SIZES[size]}) if tname != 'other' else None

        def a_col(e):
            opt = {'nullable': BoolT, 'primary_key': BoolT, 'auto_increment': BoolT, 'comment': LIT, 'default': ObjT('d')}
            if light:
                opt = {'default': ObjT('d')}
            shape = DictT({'name': StrT, 'type': TYPE or ObjT('t')}, opt)
            c = e.from_V(z3.Const('col', V), shape)
            if TYPE is None:
                tn = z3.Const('tname', S)
                for x in ('int', 'float', 'double', 'char', 'varchar'):
                    e.assume(tn != z3.StringVal(x))
                    e.assume(bi.upper_(tn) != z3.StringVal(x.upper()))
                o = e.obj(c)
                r = dct(e, (Sym('str', tn), e.from_V(z3.Const('size', V), SIZES[size])))
                e.setghost('tdict', r)
                e.setobj(c, DObj(o.base, o.shape, [('type', r)], o.absent))
            return c

        def json(e):
            cols = e.alloc(LObj([Flat(z3.Int('ncols'), e.kvar(), [])]))
            e.setghost('columns', cols)
            return dct(e, ('create table', dct(e, ('name', e.from_V(z3.Const('tab', V), StrT)), ('columns', cols))))

        def hook(e, it, bind, body, env):
            it = e.resolve(it)
            if not (isinstance(it, Ref) and it.id == e.st.ghost['columns'].id):
                return False
            ls = [v for v in (e.resolve(x) for x in frame_values(e, env)) if isinstance(v, Ref) and isinstance(e.obj(v), (LObj, DObj)) and not isinstance(e.obj(v), TObj)]
            lst = [v for v in ls if isinstance(e.obj(v), LObj) and not e.obj(v).segs]
            dic = [v for v in ls if isinstance(e.obj(v), DObj) and e.obj(v).base is None and not e.obj(v).ents]
            if len(lst) != 1 or len(dic) != 1:
                raise Unsupported('which locals collect the columns')
            L, D = lst[0], dic[0]
            earlier = e.from_V(z3.Const('earlier_kv', V), MapT(ObjT('column info')))
            eo = e.obj(earlier)
            col = a_col(e)
            name = e.str_term(e.resolve(e.dict_lookup(col, 'name')[1]))
            e.setobj(D, DObj(eo.base, eo.shape, [], (Sym('str', name),)))
            e.setobj(L, LObj([Elem('EARLIER')]))
            conf = e.st.ghost['conf']
            pos = e.branch(dhas(z3.Const('conf', V), V.VStr(name)))
            if pos != encrypted:
                raise PathEnd()
            e.setghost('clocks', ())
            e.setghost('body', True)
            bind(col)
            r = e.outcomes(body)
            e.setghost('body', False)
            check(e, r, col, name, L, D)
            raise PathEnd()

        def check(e, r, col, name, L, D):
            tn = Sym('str', z3.Const('tname', S)) if TYPE is None else tname
            sz = e.resolve(e.dict_lookup(e.resolve(e.dict_lookup(col, 'type')[1]), tn)[1])
            G = lambda n: e.get_global('refspec.create', n)
            conf = None
            if encrypted:
                f, conf = e.dict_lookup(e.st.ghost['conf'], Sym('str', name))
                conf = e.resolve(conf)
                ks = e.outcomes(lambda: e.call(G('ciphers'), [tn, conf], {}))
                ts = None
                if ks[0] == 'ok':
                    kinds = [x.v for x in e.obj(e.resolve(ks[1])).segs]
                    ts = e.outcomes(lambda: [e.call(G('physical_type'), [tn, sz, kd], {}) for kd in kinds])
                if ks[0] != 'ok' or ts[0] != 'ok':
                    (e.ok if r[0] == 'raise' else lambda x: e.fail(x, 'accepted'))('an encrypted column of a type without ciphers is refused')
                    ctx.cover('refused')
                    return
            if r[0] != 'ok':
                e.fail('a column that can be created is not refused', 'raises %r %r' % (e.obj(r[1]).cls, e.obj(r[1]).attrs.get('args')))
                return
            ctx.cover('created')
            seg = e.obj(L).segs
            if not all(isinstance(x, Elem) for x in seg) or not seg or seg[0].v != 'EARLIER':
                e.fail('the columns before are kept', str(seg))
                return
            pieces = [x.v for x in seg[1:]]
            f, info = e.dict_lookup(D, Sym('str', name))
            if not f:
                e.fail('the column is recorded', 'missing')
                return
            info = e.resolve(info)
            other = z3.Const('other_col', S)
            e.assume(other != name)
            same(e, 'the columns recorded before are kept', look(e, e.from_V(z3.Const('earlier_kv', V), MapT(ObjT('column info'))), other), look(e, D, other))
            if not encrypted:
                if len(pieces) != 1:
                    e.fail('a plaintext column is one physical column', str(pieces))
                    return
                e.prove_eq('a plaintext column is created under its own name and type', pieces[0], e.call(G('plain_column'), [col, tn, sz], {}))
                e.prove_eq('a plaintext column is recorded as such with its type', info, e.call(G('recorded_plain'), [col, tn], {}))
                return
            f, enc = e.dict_lookup(info, 'enc-cols')
            enc = e.resolve(enc) if f else None
            if not f or e.obj(enc).base is not None or not all(isinstance(x, tuple) and isinstance(x[0], str) for x in e.obj(enc).ents):
                e.fail('the physical columns are recorded', str(info))
                return
            names = dict(e.obj(enc).ents)
            (e.ok if sorted(names) == sorted(kinds) else lambda x: e.fail(x, '%s for %s' % (sorted(names), sorted(kinds))))(
                'one physical column is recorded per configured cipher')
            if sorted(names) != sorted(kinds):
                return
            e.prove_eq('an encrypted column is recorded with the type and keys given', info, e.call(G('recorded_cipher'), [col, tn, conf, enc], {}))
            (e.ok if len(pieces) == len(names) else lambda x: e.fail(x, '%d for %d' % (len(pieces), len(names))))('one physical column is created per configured cipher')
            if len(pieces) != len(names):
                return
            for kd, piece in zip(names, pieces):
                e.prove_eq('the physical column is created under its recorded name with a type for its cipher (%s)' % kd, piece,
                           e.call(G('cipher_column'), [col, tn, sz, kd, names[kd], conf], {}))
            ts = [e.str_term(e.resolve(x)) for x in names.values()]
            for f in e.st.ghost.get('later', ()):
                e.assume(f)
            b = e.fresh(I, 'earlier_reading')
            e.assume(CLKI(CLK(b)) == b)
            for c in e.st.ghost['clocks']:
                e.assume(CLK(b) != c)
            # a name made of any other reading of the clock (an earlier column, another table)
            u = bi.strreal(CLK(b))
            e.assume(bi.realstr(u) == CLK(b))
            w = bi.utf8_(u)
            e.assume(bi.unutf8_(w) == u)
            e.assume(z3.And(MD5I(MD5(w)) == w, z3.Length(MD5(w)) == 32))
            l = e.fresh(S, 'letter')
            e.assume(z3.Length(l) == 1)
            for i, t in enumerate(ts):
                e.oblige('a physical column name is a letter and a digest', z3.Length(t) == 33)
                e.oblige('a physical column name differs from every name made at another time', t != z3.Concat(l, MD5(w)))
                sy = syms(t)
                (e.ok if not (sy & {'col', 'tab', 'conf', 'meta'}) else lambda x: e.fail(x, str(t)))('a physical column name says nothing about the column')
                for t2 in ts[:i]:
                    e.oblige('the physical column names of a column are distinct', t != t2)

        e = table_engine(ctx, json, hook)
        ctx.func(e, TB, 'rewrite_table')
        e.contracts['sql_parsing:parse_mysql'] = lambda e, f, a, k: json(e)

        def run():
            conf = e.from_V(z3.Const('conf', V), MapT(CONF))
            e.setghost('conf', conf)
            f = e.get_global(TB, 'rewrite_table')
            return None, e.outcomes(lambda: e.inline(f, ['d', e.from_V(z3.Const('db_meta', V), MapT(ObjT('table'))), 'sql', conf], {}))
        ctx.explore(e, TB + ':rewrite_table (one %s column)' % tname, run, lambda c, r: None)
    return task


def syms(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    return out


CONS = z3.Function('key_phrase', V, V, S)


def t_statement(kind):
    """rewrite_table after the columns: the statement sent and the metadata recorded say the same"""
    def task(ctx):
        def json(e):
            one = kind == 'single'
            c1 = e.from_V(z3.Const('c1', V), DictT({'name': StrT}))
            cols = c1 if one else e.alloc(LObj([Flat(z3.Int('ncols'), e.kvar(), [])]))
            e.setghost('columns', cols)
            ct = [('name', e.from_V(z3.Const('tab', V), StrT)), ('columns', cols)]
            if kind == 'key':
                ct.append(('constraint', e.from_V(z3.Const('key1', V), DictT({'primary_key': ObjT('k')}))))
            if kind == 'keys':
                ct.append(('constraint', e.from_V(z3.Const('keys', V), ListT(ObjT('key'), 1))))
            js = [('create table', dct(e, *ct))]
            if kind == 'comment':
                js.append(('comment', e.from_V(z3.Const('comment', V), LIT)))
            return dct(e, *js)

        def hook(e, it, bind, body, env):
            it = e.resolve(it)
            if e.st.ghost.get('looped') or not isinstance(it, Ref):
                return False
            c = e.st.ghost['columns']
            o = e.obj(it)
            if it.id != c.id and not (isinstance(o, LObj) and len(o.segs) == 1 and isinstance(o.segs[0], Elem) and isinstance(o.segs[0].v, Ref) and o.segs[0].v.id == c.id):
                return False
            ls = [v for v in (e.resolve(x) for x in frame_values(e, env)) if isinstance(v, Ref) and isinstance(e.obj(v), (LObj, DObj)) and not isinstance(e.obj(v), TObj)]
            lst = [v for v in ls if isinstance(e.obj(v), LObj) and not e.obj(v).segs]
            dic = [v for v in ls if isinstance(e.obj(v), DObj) and e.obj(v).base is None and not e.obj(v).ents]
            if len(lst) != 1 or len(dic) != 1:
                raise Unsupported('which locals collect the columns')
            # what the loop contract (tasks "column ...") says about the two
            p = e.from_V(z3.Const('pieces', V), ListT(StrT))
            e.setobj(lst[0], e.obj(p))
            d = e.obj(e.from_V(z3.Const('recorded', V), MapT(ObjT('column info'))))
            e.setobj(dic[0], d)
            e.setghost('looped', True)
            return True

        def k_key(e, f, a, k):
            return Sym('str', CONS(e.to_V(a[0]), e.to_V(e.st.ghost['cols'])))

        def k_update(e, f, a, k):
            log(e, 'recorded', a[-2], a[-1])
            return None

        e = table_engine(ctx, json, hook)
        ctx.func(e, TB, 'rewrite_table')
        e.contracts['sql_parsing:parse_mysql'] = lambda e, f, a, k: json(e)
        e.contracts[TB + ':get_constraint_key'] = lambda e, f, a, k: k_key(e, f, a, k)
        e.contracts[MM + ':Delta.update_delta'] = k_update
        e.contracts[MM + ':Delta'] = lambda e, c, a, k: e.alloc(IObj(c, {}))
        e.externals['ghost.key_phrase'] = lambda e, a, k: k_key(e, None, a, k)

        def run():
            f = e.get_global(TB, 'rewrite_table')
            e.setghost('cols', e.from_V(z3.Const('recorded', V), MapT(ObjT('column info'))))
            return None, e.outcomes(lambda: e.inline(f, ['d', e.from_V(z3.Const('db_meta', V), MapT(ObjT('table'))), 'sql', e.from_V(z3.Const('conf', V), MapT(CONF))], {}))

        def onp(c, r):
            if r[0] != 'ok':
                e.fail('a statement whose columns can be created is not refused', 'raises %r %r' % (e.obj(r[1]).cls, e.obj(r[1]).attrs.get('args')))
                return
            ctx.cover('created')
            out = e.resolve(r[1])
            q, extra = out if isinstance(out, tuple) else (None, None)
            rec = [x for x in trace(e) if x[0] == 'recorded']
            (e.ok if len(rec) == 1 else lambda n: e.fail(n, str(rec)))('the table is recorded once')
            if len(rec) != 1:
                return
            e.prove_eq('the table is recorded for its database', rec[0][1], 'd')
            tab = e.from_V(z3.Const('tab', V), StrT)
            f, tm = e.dict_lookup(e.resolve(rec[0][2]), tab)
            f, name = e.dict_lookup(e.resolve(tm), 'anonymous') if f else (False, None)
            if not f:
                e.fail('the table is recorded under its name', str(rec[0]))
                return
            for x in e.st.ghost.get('later', ()):
                e.assume(x)
            G = lambda n: e.get_global('refspec.create', n)
            comment = None
            if kind == 'comment':
                comment = e.dict_lookup(e.from_V(z3.Const('comment', V), LIT), 'literal')[1]
            e.prove_eq('what is recorded is the physical name and the columns of the loop', rec[0][2],
                       e.call(G('recorded'), [tab, name, e.from_V(z3.Const('recorded', V), MapT(ObjT('column info'))), comment], {}))
            keys = e.alloc(LObj([]))
            if kind == 'key':
                keys = e.call(G('keys_of'), [e.alloc(LObj([Elem(e.from_V(z3.Const('key1', V), DictT({'primary_key': ObjT('k')})))]))], {})
            if kind == 'keys':
                keys = e.call(G('keys_of'), [e.from_V(z3.Const('keys', V), ListT(ObjT('key'), 1))], {})
            want = e.call(G('statement'), [name, e.from_V(z3.Const('pieces', V), ListT(StrT)), keys], {})
            e.prove_eq('the statement creates the recorded physical table with the columns of the loop and the keys', q, e.binop('Add', want, ';'))
            e.prove_eq('the table name is reported to the caller', e.getitem(e.resolve(extra), 'table'), tab)
            t = e.str_term(e.resolve(name))
            b = e.fresh(I, 'earlier_reading')
            e.assume(CLKI(CLK(b)) == b)
            for c_ in e.st.ghost['clocks']:
                e.assume(CLK(b) != c_)
            u = bi.strreal(CLK(b))
            e.assume(bi.realstr(u) == CLK(b))
            w = bi.utf8_(u)
            e.assume(bi.unutf8_(w) == u)
            e.assume(z3.And(MD5I(MD5(w)) == w, z3.Length(MD5(w)) == 32))
            e.oblige('a physical table name differs from every one made at another time', t != z3.Concat(z3.StringVal('table_'), MD5(w)))
            sy = syms(t)
            (e.ok if not (sy & {'tab', 'conf', 'recorded', 'pieces'}) else lambda x: e.fail(x, str(t)))('a physical table name says nothing about the table')
        ctx.explore(e, TB + ':rewrite_table (statement)', run, onp)
    return task


def oblige_lengths(e, name, goal):
    """prove a goal about text lengths with every text forgotten but its length (fewer hypotheses: sound)"""
    names = {}

    def num(t):
        """the term with lengths as integers, or None when it depends on a text otherwise"""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_LENGTH:
            x = t.arg(0)
            if z3.is_string_value(x):
                return z3.IntVal(len(x.as_string()))
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                ps = [num(z3.Length(c)) for c in x.children()]
                return z3.Sum(*ps)
            v = names.setdefault(x.sexpr(), z3.Int('len!%d' % len(names)))
            return v
        if z3.is_int_value(t) or z3.is_true(t) or z3.is_false(t):
            return t
        if t.sort() not in (z3.IntSort(), z3.BoolSort()):
            return None
        if t.num_args() == 0:
            return t
        cs = [num(c) for c in t.children()]
        if any(c is None for c in cs):
            return None
        return t.decl()(*cs)
    s = z3.Solver()
    s.set('timeout', 20000)
    g = num(z3.simplify(goal) if not z3.is_bool(goal) else goal)
    if g is not None:
        for f in list(e.st.facts) + list(e.st.dec):
            h = num(f) if z3.is_expr(f) else None
            if h is not None:
                s.add(h)
        for v in names.values():
            s.add(v >= 0)
        s.add(z3.Not(g))
        if s.check() == z3.unsat:
            e.ok(name)
            return
    e.oblige(name, goal)


def t_width(tname):
    """get_type_and_len against the length of what AESCipher.encrypt returns"""
    def task(ctx):
        from specs import crypto
        e = ctx.engine({}, dict(crypto.CEXT), {'split_mod': 16, 'ascii_funcs': ('b64_text',)}, dict(crypto.CVAL, **WVAL))
        crypto.crypto_assumptions(ctx)
        ctx.assume('base64 text of n bytes has 4*ceil(n/3) characters')
        for m in ('__init__', 'pad', 'encrypt'):
            ctx.func(e, CM, 'AESCipher.' + m)
        ctx.func(e, MM, 'get_type_and_len')
        b64 = e.externals['base64.b64encode']

        def b64len(e, a, k):
            r = b64(e, a, k)
            n = z3.Length(e.str_term(e.resolve(a[0])))
            e.assume(z3.Length(r.t) == 4 * ((n + 2) / 3))
            return r
        e.externals['base64.b64encode'] = b64len

        def run():
            cls = e.get_global(CM, 'AESCipher')
            n = z3.Const('n', I)
            e.assume(n >= 1)
            x = z3.Const('text', S)
            u = bi.utf8_(x)
            e.assume(bi.unutf8_(u) == x)
            e.assume(z3.Length(u) <= n)          # n single-byte characters
            w = e.outcomes(lambda: e.call(e.get_global(MM, 'get_type_and_len'), [tname, Sym('int', n)], {}))
            c = e.outcomes(lambda: e.call(e.getattr_(e.call(cls, [Sym('str', z3.Const('key', S))], {}), 'encrypt'), [Sym('str', x)], {}))
            return n, (w, c)

        def onp(n, r):
            w, c = r
            if w[0] != 'ok' or c[0] != 'ok':
                e.fail('every size has a ciphertext type', str(r))
                return
            ctx.cover('created')
            t, width = e.resolve(w[1])
            oblige_lengths(e, 'the ciphertext of every value of the declared size fits the physical column', z3.Length(e.str_term(e.resolve(c[1]))) <= e.num_term(e.resolve(width)))
            t = e.resolve(t)
            if t not in ('char', 'varchar'):
                e.fail('the physical type is a text type', repr(t))
            elif t == 'char':
                oblige_lengths(e, 'a CHAR column is at most 255 wide', e.num_term(e.resolve(width)) <= 255)
        ctx.explore(e, MM + ':get_type_and_len(%s)' % tname, run, onp)
    return task


DEFCT = z3.Function('default_ciphertext', S, V, S, V, V)


def t_default(tname, encrypted):
    """get_default: the DEFAULT of a physical column is what an INSERT of that value would store"""
    def task(ctx):
        e = table_engine(ctx, lambda e: None, None)
        del e.contracts[TB + ':get_default']
        ctx.func(e, TB, 'get_default')

        def k_enc(e, f, a, k):
            me, table, col, value, enc = a
            meta = e.resolve(e.getattr_(me, 'db_meta'))
            info = e.resolve(e.getitem(e.resolve(e.getitem(e.resolve(e.getitem(meta, table)), 'columns')), col))
            o = e.obj(info)
            f, t = e.dict_lookup(info, 'type')
            if o.base is None or any(kk != 'type' for kk, _ in o.ents) or o.absent or not f:
                raise Unsupported('what the default is encrypted with')
            return dct(e, ('value', e.from_V(DEFCT(e.str_term(e.resolve(enc)), o.base, e.str_term(e.resolve(t)), e.to_V(value)), ObjT('ciphertext'))))

        def printed(e, f, a, k):
            return Sym('str', PRINTED(e.to_V(a[-1])))
        e.contracts[CL + 'sql_values:SQLValues.encrypt_value'] = k_enc
        e.contracts['sql_parsing.formatting:Formatter.dispatch'] = printed
        e.externals['ghost.printed'] = lambda e, a, k: printed(e, None, a, k)

        def enc_of(e, a, k):
            f = a
            return e.from_V(DEFCT(e.str_term(e.resolve(a[0])), e.obj(e.resolve(a[1])).base, z3.StringVal(tname), e.to_V(a[2])), ObjT('ciphertext'))

        def run():
            col = e.from_V(z3.Const('col', V), DictT({'name': StrT, 'type': DictT({tname: SIZE})}, {'default': OneT(StrT, LIT, ObjT('d'))}))
            conf = e.from_V(z3.Const('conf1', V), CONF)
            enc = Sym('str', z3.Const('cipher', S))
            args = [col] + ([conf, enc] if encrypted else [])
            r = e.outcomes(lambda: e.inline(e.get_global(TB, 'get_default'), args, {}))
            w = e.outcomes(lambda: e.call(e.get_global('refspec.create', 'default'), [col, conf if encrypted else None, enc,
                                          Builtin('printed', lambda e, a, k: printed(e, None, a, k)), Builtin('encrypted', enc_of)], {}))
            return None, (r, w)

        def onp(c, rw):
            r, w = rw
            if w[0] == 'raise':
                (e.ok if r[0] == 'raise' else lambda n: e.fail(n, 'accepted'))('a default that can not be encrypted is refused')
                return
            if r[0] != 'ok':
                e.fail('a default that can be written is not refused', 'raises %r' % (e.obj(r[1]).cls,))
                return
            ctx.cover('created')
            e.prove_eq('the default of a physical column is the one specified', r[1], w[1])
        ctx.explore(e, TB + ':get_default', run, onp)
    return task


def t_key(kind, many):
    """get_constraint_key / get_enc_columns / get_reference_phrase"""
    def task(ctx):
        e = table_engine(ctx, lambda e: None, None)
        for f in ('get_constraint_key', 'get_enc_columns', 'get_reference_phrase'):
            ctx.func(e, TB, f)
        names = ListT(StrT, 1) if many else StrT

        def run():
            m = metas(e, Sym('str', z3.Const('rtab', S)))
            cols = e.from_V(z3.Const('cols', V), MapT(COLM))
            if kind == 'primary':
                c = DictT({'primary_key': DictT({'columns': names})}, {'name': StrT})
            else:
                c = DictT({'foreign_key': DictT({'columns': names, 'references': DictT({'table': StrT, 'columns': names})})}, {'name': StrT})
            c = e.from_V(z3.Const('constraint', V), c)
            if kind == 'foreign':
                rt = e.dict_lookup(e.resolve(e.dict_lookup(e.resolve(e.dict_lookup(c, 'foreign_key')[1]), 'references')[1]), 'table')[1]
                e.assume(e.str_term(e.resolve(rt)) == z3.Const('rtab', S))
            r = e.outcomes(lambda: e.inline(e.get_global(TB, 'get_constraint_key'), [c, cols, 'd'], {}))
            tabs = e.dict_lookup(e.from_V(z3.Const('meta', V), MapT(META)), 'd')[1]
            w = e.outcomes(lambda: e.call(e.get_global('refspec.create', 'key_of'), [c, cols, tabs], {}))
            return None, (r, w)

        def onp(c, rw):
            r, w = rw
            if w[0] == 'raise':
                (e.ok if r[0] == 'raise' else lambda n: e.fail(n, 'accepted'))('a key over columns that are not recorded is refused')
                return
            if r[0] != 'ok':
                e.fail('a key over recorded columns is not refused', 'raises %r %s' % (e.obj(r[1]).cls, e.obj(r[1]).attrs.get('args')))
                return
            ctx.cover('created')
            e.prove_eq('a key names the physical columns recorded for its columns', r[1], w[1])
        ctx.explore(e, TB + ':get_constraint_key', run, onp)
    return task


C12 = [('column %s %s' % (t, sz), t_column(t, sz, True, (t, sz) not in (('int', 'none'), ('float', 'one'), ('char', 'one'), ('varchar', 'one'))))
       for t in ('int', 'float', 'double', 'char', 'varchar') for sz in ('none', 'one')] + [
    ('column other', t_column('other', 'one', True))] + [
    ('plain column %s %s' % (t, s), t_column(t, s, False)) for t in ('int', 'other') for s in ('none', 'one', 'two')] + [
    ('statement ' + k, t_statement(k)) for k in ('list', 'single', 'key', 'keys', 'comment')] + [
    ('width ' + t, t_width(t)) for t in ('char', 'varchar')] + [
    ('default ' + ('encrypted' if x else 'plain'), t_default('varchar', x)) for x in (True, False)] + [
    ('%s key %s' % (k, 'list' if m else 'one'), t_key(k, m)) for k in ('primary', 'foreign') for m in (False, True)]


# ------------------------------------------------------------------ C05: the cipher's texts and how LIKE reaches them
C05 = [('LIKE pattern', t_compare('like'))]
from specs import crypto as _crypto
C05 = _crypto.C05 + C05
