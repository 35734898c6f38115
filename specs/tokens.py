"""Contracts of the tokenizer, the statement splitter and the grouping of tokens (C19): scheduler/compile/parse.

 * Lexer.get_tokens: loop invariant -- at the start of an iteration the values yielded so far spell text[:P], P the position of the iterator; one
   arbitrary iteration yields values that spell text[P:P'] with P < P' <= len(text), P' the new position.  Every pattern of the source is used by the
   contract of `match` (a match starts at the position asked for, group() is the text between it and end(), at least as long as the pattern's minimal
   width, computed by CPython's own regex parser from the source's pattern); keyword lookup by an arbitrary dictionary.
 * StatementSplitter.process: loop invariant -- the tokens of the statements yielded so far and the pending tokens are the tokens of the stream, in order.
 * Token / TokenList: a leaf spells its value, a group spells what its tokens spell, in order.
 * TokenList.group_tokens: for any list of tokens and any indices the tokens spelled stay the same, in order, whether a new group is made or one
   extended (then with start >= 0).
 * grouping.py: every function changes the tree only through group_tokens within that precondition (loop invariants by Houdini); group and FilterStack
   pass every statement on."""
import ast
import importlib.util
import os
import re
import z3
from pyded.values import *
from pyded.engine import Unsupported, PathEnd, PyRaise, simp, LazyVal, ReturnEx as E_Return
from pyded.interp import BreakEx, ContinueEx
from pyded.task import REPO

PK = 'scheduler.compile.parse'
LX, UT, SQ, KW, TK = (PK + '.' + n for n in ('lexer', 'utils', 'sql', 'keywords', 'tokens'))
SP, GR, FS = (PK + '.engine.' + n for n in ('statement_splitter', 'grouping', 'filter_stack'))
B, I, S = z3.BoolSort(), z3.IntSort(), z3.StringSort()


def put(e, **kw):
    for k, v in kw.items():
        e.setghost(k, v)


def ok(e, cond, nm, info=''):
    if cond:
        e.ok(nm)
    else:
        e.fail(nm, info)


# ------------------------------------------------------------------ token types: the real objects of tokens.py
_REAL = []


def real_tokens():
    if not _REAL:
        sp = importlib.util.spec_from_file_location('verif_tokens', os.path.join(REPO, 'scheduler/compile/parse/tokens.py'))
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        _REAL.append((m, {}))
    return _REAL[0]


def ttype_of(t):
    """the value of a real token type"""
    m, pool = real_tokens()
    if id(t) not in pool:
        o = Opaque('token type ' + repr(t), {})
        o.attrs.update({'real': t, 'tt': z3.IntVal(len(pool)), 'getattr': tt_attr, '__eq__': tt_eq(o), '__contains__': lambda e, x: tt_in(e, o, x),
                        'isinstance': tt_isinstance, 'truth': bool(t)})
        pool[id(t)] = o
    return pool[id(t)]


def any_ttype(e, hint='ttype'):
    t = e.fresh(I, hint)
    o = Opaque('token type', {})
    o.attrs.update({'tt': t, '__eq__': tt_eq(o), 'isinstance': tt_isinstance, 'truth': lambda e: e.fresh(B, 'tt')})
    return o


def is_tt(v):
    return isinstance(v, Opaque) and 'tt' in v.attrs


def tt_attr(e, o, name):
    if name.startswith('__'):
        return NOTFOUND
    r = getattr(o.attrs['real'], name)
    if isinstance(r, real_tokens()[0]._TokenType):
        return ttype_of(r)
    if r is None:
        return None
    raise Unsupported('attribute %s of a token type' % name)


def tt_isinstance(e, c):
    if isinstance(c, ClassVal):
        return c.name == '_TokenType'
    if isinstance(c, ExtClass):
        return c.py in (tuple, object)
    return False


def tt_eq(o):
    def f(e, y):
        y = e.resolve(y)
        if not is_tt(y):
            if y is None or e.kind(y) in ('str', 'int', 'bool'):
                return False
            raise Unsupported('token type compared')
        return same_tt(e, o, y)
    return f


def same_tt(e, a, b):
    if a is b:
        return True
    x, y = a.attrs['tt'], b.attrs['tt']
    if z3.is_int_value(x) and z3.is_int_value(y):
        ra, rb = a.attrs['real'], b.attrs['real']
        return ra is rb or ra == rb
    return x == y


def tt_identity(e, a, b):
    if is_tt(a) and is_tt(b):
        x, y = a.attrs['tt'], b.attrs['tt']
        if z3.is_int_value(x) and z3.is_int_value(y):
            return x.as_long() == y.as_long()
        return x == y
    return None


INTYPE = z3.Function('in_type', I, I, B)


def tt_in(e, c, x):
    x = e.resolve(x)
    if x is None:
        return False
    if not is_tt(x):
        raise Unsupported('in a token type')
    if 'real' in x.attrs:
        return bool(x.attrs['real'] in c.attrs['real'])
    t = INTYPE(c.attrs['tt'], x.attrs['tt'])
    for o in list(real_tokens()[1].values()):
        e.assume(z3.Implies(x.attrs['tt'] == o.attrs['tt'], t == z3.BoolVal(o.attrs['real'] in c.attrs['real'])), branch=False)
    return t


def type_overrides():
    m, _ = real_tokens()
    out = {}
    for k, v in vars(m).items():
        if isinstance(v, m._TokenType):
            out[TK + ':' + k] = (lambda v: lambda e: ttype_of(v))(v)
    for n in ('DML', 'DDL', 'CTE', 'TZCast', 'Order'):
        getattr(m.Keyword, n)
    return out


def eng(ctx, contracts=None, ext=None, opts=None, ov=None):
    o = {'identity': tt_identity, 'drop_raise': True, 'inline_depth': 60}
    o.update(opts or {})
    v = dict(type_overrides())
    v.update(ov or {})
    x = {'re.compile': k_compile}
    x.update(ext or {})
    return ctx.engine(contracts or {}, x, o, {'re.' + n: (lambda n: lambda e: int(getattr(re, n)))(n) for n in ('IGNORECASE', 'UNICODE', 'VERBOSE', 'I', 'U', 'MULTILINE', 'DOTALL')}, v)


# ------------------------------------------------------------------ A. the lexer
def k_compile(e, a, k):
    rx = e.resolve(a[0])
    if not isinstance(rx, str):
        raise Unsupported('pattern')
    fl = e.resolve(a[1]) if len(a) > 1 else e.resolve(k.get('flags', 0))
    if not isinstance(fl, int):
        raise Unsupported('flags of a pattern')
    from re import _parser
    width = _parser.parse(rx, fl).getwidth()[0]

    def match(e, a, k):
        text = e.resolve(a[0])
        pos = e.resolve(a[1]) if len(a) > 1 else e.resolve(k.get('pos', 0))
        if len(a) > 2 or 'endpos' in k or e.kind(text) != 'str':
            raise Unsupported('match arguments')
        if e.choose([True, True]) == 0:
            return None
        t, p = e.str_term(text), e.num_term(pos)
        end = e.fresh(I, 'end')
        e.assume(z3.And(p >= 0, end >= p + width, end <= z3.Length(t)))

        def group(e, a, k):
            if a and e.resolve(a[0]) != 0:
                raise Unsupported('group of a match')
            return e.norm(Sym('str', z3.SubString(t, p, end - p)))
        return Opaque('match', {'group': Builtin('group', group), 'end': Builtin('end', lambda e, a, k: Sym('int', end)),
                                'start': Builtin('start', lambda e, a, k: pos), 'truth': True,
                                'span': Builtin('span', lambda e, a, k: (pos, Sym('int', end))),
                                '__getitem__': lambda e, i: group(e, [i], {})})
    return Opaque('pattern', {'match': Builtin('match', match), 'pattern': rx})


def any_dict(name):
    def get(e, a, k):
        if e.choose([True, True]) == 0:
            return e.resolve(a[1]) if len(a) > 1 else None
        return any_ttype(e)
    return lambda e: Opaque(name, {'get': Builtin('get', get), '__contains__': lambda e, x: e.fresh(B, 'known'), '__getitem__': lambda e, i: any_ttype(e)})


def m_enumerate(e, a, k):
    v = e.resolve(a[0])
    if e.kind(v) != 'str' or isinstance(v, str) or len(a) > 1 or k:
        return e.bi.b_enumerate(e, a, k)
    if e.st.ghost.get('iter') is not None:
        raise Unsupported('two iterators over the text')
    put(e, iter=v, pos=z3.IntVal(0))

    def nxt(e):
        p, t = e.st.ghost['pos'], e.str_term(v)
        if not e.branch(p < z3.Length(t)):
            e.raise_(StopIteration)
        put(e, pos=simp(p + 1))
        return (Sym('int', p), Sym('str', z3.SubString(t, p, 1)))
    return Opaque('enumerate', {'text': v, '__next__': nxt})


def m_islice(e, a, k):
    it = e.resolve(a[0])
    if not (isinstance(it, Opaque) and it.name == 'enumerate') or len(a) != 2:
        raise Unsupported('islice')
    n = e.resolve(a[1])
    if n is not None and not e.branch(e.num_term(n) >= 0):
        e.raise_(ValueError, 'islice')
    return Opaque('islice', {'it': it, 'n': n})


def advance(e, sl):
    p, L = e.st.ghost['pos'], z3.Length(e.str_term(sl.attrs['it'].attrs['text']))
    n = sl.attrs['n']
    q = L if n is None else p + e.num_term(n)
    put(e, pos=simp(z3.If(q > L, L, q)))


def m_deque(e, a, k):
    it = e.resolve(a[0]) if a else None
    if isinstance(it, Opaque) and it.name == 'islice':
        if e.resolve(k.get('maxlen')) != 0:
            raise Unsupported('deque of the text')
        advance(e, it)
        return e.alloc(LObj(()))
    raise Unsupported('deque')


def lexer_loop(e, it, bind, body, env):
    it = e.resolve(it)
    if isinstance(it, Opaque) and it.name == 'islice':
        raise Unsupported('loop over islice')
    if not (isinstance(it, Opaque) and it.name == 'enumerate'):
        return False
    g = e.st.ghost
    text = it.attrs['text']
    t = e.str_term(text)
    L = z3.Length(t)
    gl = e.gen_list(env)
    ok(e, not e.obj(gl).segs, 'nothing is yielded before the first character')
    e.oblige('the text is read from its beginning', g['pos'] == 0)
    e.oblige('the text tokenised is the text given', t == g['want'])
    if e.choose([True, True]) == 0:
        P = e.fresh(I, 'P')
        e.assume(z3.And(P >= 0, P < L))
        put(e, pos=simp(P + 1))
        bind((Sym('int', P), Sym('str', z3.SubString(t, P, 1))))
        try:
            body()
        except PyRaise:
            e.fail('tokenising does not fail', '')
            raise PathEnd()
        Q = e.st.ghost['pos']
        out = yielded(e, e.gen_list(env))
        e.oblige('an iteration consumes at least a character and no more than there are', z3.And(Q > P, Q <= L))
        spelled = z3.StringVal('')
        if out is not None:
            vs = [e.str_term(v) for _, v in out]
            spelled = vs[0] if len(vs) == 1 else (z3.Concat(*vs) if vs else spelled)
            nm = 'the values of an iteration spell the characters it consumes'
            sub = substr_of(e, spelled, t)
            if sub is not None and e.must(z3.And(sub[0] == P, sub[1] >= 0, P + sub[1] <= L)):
                e.oblige(nm, sub[1] == Q - P)          # a piece of the text from P on: as long as what is consumed
            else:
                e.oblige(nm, spelled == z3.SubString(t, P, Q - P))
            for tt, v in out:
                tt = e.resolve(tt)
                ok(e, is_tt(tt), 'a token has a token type', repr(tt))
        ctx_cover(e, 'iteration')
        raise PathEnd()
    put(e, pos=L, ended=True)
    ctx_cover(e, 'end of text')
    return True


def substr_of(e, s, t):
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and s.arg(0).eq(t):
        return s.arg(1), s.arg(2)
    return None


def ctx_cover(e, n):
    e.opts['ctx'].cover(n)


def yielded(e, gl):
    out = []
    for s in e.obj(gl).segs:
        v = e.resolve(s.v) if isinstance(s, Elem) else None
        if not (isinstance(v, tuple) and len(v) == 2 and e.kind(v[1]) == 'str'):
            e.fail('a token is a pair of a type and a text', repr(v))
            return None
        out.append(v)
    return out


def t_lexer(ctx):
    """Lexer.get_tokens: the values of the tokens spell the text"""
    ov = {KW + ':' + n: any_dict(n) for n in ('KEYWORDS', 'KEYWORDS_COMMON', 'KEYWORDS_ORACLE', 'KEYWORDS_PLPGSQL', 'KEYWORDS_HQL')}
    ov[LX + ':enumerate'] = lambda e: Builtin('enumerate', m_enumerate)
    for mod in (LX, UT):
        ov[mod + ':deque'] = lambda e: Builtin('deque', m_deque)
    e = eng(ctx, None, {'itertools.islice': m_islice}, {'for_inv': lexer_loop, 'ctx': ctx}, ov)
    ctx.assume('a match of a regular expression starts at the position asked for, is a substring of the text and at least as long as the minimal width of the pattern')
    f = ctx.func(e, LX, 'Lexer.get_tokens')
    ctx.functions.append(LX + ':tokenize')
    ctx.functions.append(UT + ':consume')
    ctx.functions.append(KW + ':is_keyword')

    def run():
        want = z3.String('text')
        e.st.ghost.update({'want': want, 'iter': None, 'pos': z3.IntVal(0)})
        kind = e.choose([True] * 4)
        dec = Builtin('decode', lambda e, a, k: Sym('str', want))
        if kind == 0:
            arg = Sym('str', want)
        elif kind == 1:
            arg = Opaque('stream', {'isinstance': lambda e, c: (isinstance(c, ExtVal) and c.name.endswith('TextIOBase')) or (isinstance(c, ExtClass) and c.py.__name__ == 'TextIOBase'),
                                    'read': Builtin('read', lambda e, a, k: Sym('str', want))})
        elif kind == 2:
            arg = Opaque('bytes', {'isinstance': lambda e, c: isinstance(c, ExtClass) and c.py is bytes, 'decode': dec})
        else:
            def fails(e, a, k):
                if e.resolve(a[0]) == 'utf-8':
                    e.raise_(UnicodeDecodeError)
                return Sym('str', want)
            arg = Opaque('bytes', {'isinstance': lambda e, c: isinstance(c, ExtClass) and c.py is bytes, 'decode': Builtin('decode', fails)})
        enc = None if kind < 2 or e.choose([True, True]) == 0 else Sym('str', z3.String('encoding'))
        return None, e.outcomes(lambda: e.call(e.get_global(LX, 'tokenize'), [arg] + ([enc] if enc is not None else []), {}))

    def onp(_, r):
        if r[0] != 'ok':
            return
        if not e.st.ghost.get('ended'):
            e.fail('the whole text is tokenised', 'no loop over the text')
            return
        v = e.resolve(r[1])
        if isinstance(v, Ref) and isinstance(e.obj(v), LObj):
            ok(e, not e.obj(v).segs, 'nothing is yielded after the last character', str(e.obj(v).segs)[:200])
        else:
            raise Unsupported('result of tokenize')
    ctx.explore(e, LX + ':Lexer.get_tokens', run, onp)


# ------------------------------------------------------------------ B. the statement splitter
TOK = z3.Const('stream_tokens', V)
NTOK = z3.Function('n_pending', I)


def tok_attr(e, o, name):
    """an arbitrary token of a list"""
    if name in ('is_whitespace', 'is_group', 'is_keyword'):
        f = z3.Function('token_' + name, V, B)
        return e.norm(Sym('bool', f(o.t)))
    if name in ('value', 'normalized'):
        f = z3.Function('token_' + name, V, S)
        return Sym('str', f(o.t))
    if name == 'ttype':
        f = z3.Function('token_ttype', V, I)
        a = any_ttype(e)
        a.attrs['tt'] = f(o.t)
        return a
    raise Unsupported('attribute %s of a token' % name)


def k_statement(e, cls, a, k):
    l = e.resolve(a[0]) if a else e.resolve(k.get('tokens'))
    if not isinstance(l, Ref):
        raise Unsupported('tokens of a statement')
    return Opaque('statement', {'list': l, 'then': tuple(e.obj(l).segs)})


def havoc_value(e, v, nm):
    """an arbitrary value of the same kind; the pending tokens become an arbitrary list"""
    v = e.resolve(v)
    kd = e.kind(v)
    if v is None:
        return None
    if kd == 'bool':
        return Sym('bool', e.fresh(B, nm))
    if kd == 'int':
        return Sym('int', e.fresh(I, nm))
    if kd == 'str':
        return Sym('str', e.fresh(S, nm))
    raise Unsupported('state %s of the splitter' % nm)


def pending(e, me):
    return e.resolve(e.getattr_(me, 'tokens'))


def splitter_loop(e, it, bind, body, env):
    it = e.resolve(it)
    if not (isinstance(it, Opaque) and it.name == 'stream'):
        return False
    me = e.st.ghost['self']
    p0 = pending(e, me)
    ok(e, isinstance(p0, Ref) and not e.obj(p0).segs, 'nothing is pending before the first token')
    ok(e, not e.obj(e.gen_list(env)).segs, 'no statement is yielded before the first token')
    # an arbitrary state
    old = e.list_of_V(z3.Const('OLD', V), ObjT('token'))
    segs0 = tuple(e.obj(old).segs)
    c = e.obj(me)
    for nm in sorted(c.attrs):
        e.setattr_(me, nm, old if e.resolve(c.attrs[nm]) == p0 else havoc_value(e, c.attrs[nm], nm))
    fr = e.st.heap[env.fid]
    stored = e.opts['stored']
    for nm in sorted(set(fr) & stored):
        e.store_name(nm, havoc_value(e, fr[nm], nm), env)
    put(e, old=old, segs0=segs0)
    if e.choose([True, True]) == 0:
        tt, v = any_ttype(e), Sym('str', e.fresh(S, 'value'))
        bind((tt, v))
        body()
        out = [e.resolve(s.v) if isinstance(s, Elem) else None for s in e.obj(e.gen_list(env)).segs]
        got = []
        for o in out:
            if not (isinstance(o, Opaque) and o.name == 'statement'):
                e.fail('what is yielded is a statement', repr(o))
                raise PathEnd()
            got += list(o.attrs['then'])
            ok(e, tuple(e.obj(o.attrs['list']).segs) == o.attrs['then'], 'the tokens of a statement already yielded are not changed')
        p1 = pending(e, me)
        if not isinstance(p1, Ref):
            raise Unsupported('pending tokens')
        ok(e, all(o.attrs['list'] != p1 for o in out), 'the pending tokens are not those of a statement already yielded')
        got += list(e.obj(p1).segs)
        ok(e, len(got) == len(segs0) + 1 and all(x is y for x, y in zip(got, segs0)), 'the statements yielded and the pending tokens are the pending tokens and the new one, in order',
           '%d parts' % len(got))
        new = e.resolve(got[-1].v) if got and isinstance(got[-1], Elem) else None
        if isinstance(new, Ref) and isinstance(e.obj(new), IObj):
            at = e.obj(new).attrs
            ok(e, e.resolve(at.get('ttype')) is tt, 'a token keeps its type')
            e.prove_eq('a token keeps its text', at.get('value'), v)
        else:
            e.fail('the new token is pending', repr(new))
        ctx_cover(e, 'token')
        raise PathEnd()
    put(e, ended=True)
    ctx_cover(e, 'end of stream')
    return True


def t_splitter(ctx):
    """StatementSplitter.process: every token of the stream is in exactly one statement, in order"""
    e = eng(ctx, {SQ + ':Statement': k_statement}, {}, {'for_inv': splitter_loop, 'objattr': tok_attr, 'ctx': ctx})
    f = ctx.func(e, SP, 'StatementSplitter.process')
    for q in ('_reset', '__init__', '_change_splitlevel'):
        ctx.functions.append(SP + ':StatementSplitter.' + q)
    e.opts['stored'] = {n.id for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.While)) for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def run():
        me = e.call(e.get_global(SP, 'StatementSplitter'), [], {})
        e.st.ghost.update({'self': me})
        return me, e.outcomes(lambda: e.call(Bound(f, me), [Opaque('stream', {})], {}))

    def onp(me, r):
        if r[0] != 'ok':
            e.fail('splitting does not fail', 'raises %r' % (e.obj(r[1]).cls,))
            return
        if not e.st.ghost.get('ended'):
            e.fail('the whole stream is read', 'no loop over the stream')
            return
        out = [e.resolve(s.v) if isinstance(s, Elem) else None for s in e.obj(e.resolve(r[1])).segs]
        segs0 = e.st.ghost['segs0']
        got = []
        for o in out:
            if not (isinstance(o, Opaque) and o.name == 'statement'):
                e.fail('what is yielded is a statement', repr(o))
                return
            got += list(o.attrs['then'])
        if got:
            ok(e, len(got) == len(segs0) and all(x is y for x, y in zip(got, segs0)), 'the last statement has the pending tokens')
            ctx.cover('last statement')
        else:
            n = segs0[0].n
            k = e.fresh(I, 'k')
            t = e.enter_case(segs0[0], k)[0].v
            t = e.resolve(t) if not isinstance(t, FSrc) else e.from_V(t.t, t.shape)
            ws = e.truth_term(tok_attr(e, t, 'is_whitespace'))
            e.oblige('only whitespace after the last statement is dropped', z3.Implies(z3.And(k >= 0, k < n), ws))
            ctx.cover('nothing left')
    ctx.explore(e, SP + ':StatementSplitter.process', run, onp)


# ------------------------------------------------------------------ C. tokens and groups
def t_token(ctx):
    """Token: a leaf spells its value and keeps its type"""
    e = eng(ctx, {}, {}, {'ctx': ctx})
    ctx.func(e, SQ, 'Token.__init__')
    fl = ctx.func(e, SQ, 'Token.flatten')

    def run():
        tt, v = any_ttype(e), Sym('str', z3.String('value'))
        e.st.ghost.update({'tt': tt, 'v': v})
        t = e.call(e.get_global(SQ, 'Token'), [tt, v], {})
        return t, (e.outcomes(lambda: e.call(Bound(fl, t), [], {})), e.outcomes(lambda: e.bi.py_str(e, t)))

    def onp(t, r):
        tt, v = e.st.ghost['tt'], e.st.ghost['v']
        ok(e, e.resolve(e.getattr_(t, 'ttype')) is tt, 'a token has the type given')
        e.prove_eq('a token has the text given', e.getattr_(t, 'value'), v)
        ok(e, e.resolve(e.getattr_(t, 'is_group')) is False, 'a token is not a group')
        w = e.truth_term(e.getattr_(t, 'is_whitespace'))
        ws = tt_in(e, e.get_global(TK, 'Whitespace'), tt)
        e.oblige('a token is whitespace only if its type says so', z3.Implies(w if z3.is_expr(w) else z3.BoolVal(w), ws if z3.is_expr(ws) else z3.BoolVal(ws)))
        (k1, l), (k2, sv) = r
        if k1 != 'ok' or k2 != 'ok':
            e.fail('a token spells itself', 'raises')
            return
        segs = e.obj(e.resolve(l)).segs
        ok(e, len(segs) == 1 and isinstance(segs[0], Elem) and e.resolve(segs[0].v) == t, 'flattening a token gives it')
        e.prove_eq('the text of a token is its value', sv, v)
        ctx.cover('token')
    ctx.explore(e, SQ + ':Token', run, onp)


def group_classes():
    """the classes of sql.py that are groups"""
    tree = ast.parse(open(os.path.join(REPO, *SQ.split('.')) + '.py', encoding='utf8').read())
    sub = {'TokenList'}
    for _ in range(5):
        for n in tree.body:
            if isinstance(n, ast.ClassDef) and any(isinstance(b, ast.Name) and b.id in sub for b in n.bases):
                sub.add(n.name)
    return sorted(sub)


def child(e, i):
    """an arbitrary token of a group: a leaf or a group, whose own tokens are used by contract"""
    grp = Sym('bool', z3.Bool('child_is_group'))
    o = Opaque('child', {'is_group': grp, 'value': Sym('str', z3.String('child_value'))})

    def flat(e, a, k):
        if e.branch(grp.t):
            return e.alloc(LObj([Elem(Opaque('tokens of the child', {'of': o}))]))
        return e.alloc(LObj([Elem(o)]))
    o.attrs['flatten'] = Builtin('flatten', flat)
    o.attrs['tokens'] = Opaque('tokens', {})
    return o


def flatten_loop(e, it, bind, body, env):
    it = e.resolve(it)
    if it != e.st.ghost['tokens']:
        return False
    gl = e.gen_list(env)
    ok(e, not e.obj(gl).segs, 'nothing is yielded before the first token of a group')
    if e.choose([True, True]) == 0:
        c = child(e, 0)
        bind(c)
        body()
        want = e.obj(e.call(c.attrs['flatten'], [], {})).segs
        got = e.obj(e.gen_list(env)).segs
        same = len(want) == len(got) and all(isinstance(y, Elem) and same_child(e, x.v, e.resolve(y.v)) for x, y in zip(want, got))
        ok(e, same, 'flattening a group yields a leaf itself and for a group its tokens', str(got)[:200])
        ctx_cover(e, 'child')
        raise PathEnd()
    put(e, ended=True)
    return True


def same_child(e, x, y):
    if x is y:
        return True
    return isinstance(x, Opaque) and isinstance(y, Opaque) and x.name == y.name == 'tokens of the child' and x.attrs['of'] is y.attrs['of']


def t_group(ctx):
    """TokenList: flatten and str of a group, its constructor"""
    e = eng(ctx, {}, {}, {'for_inv': flatten_loop, 'objattr': tok_attr, 'ctx': ctx})
    fl = ctx.func(e, SQ, 'TokenList.flatten')

    def obj(e, cls, toks):
        return e.alloc(IObj(cls, {'tokens': toks, 'is_group': True, 'value': Sym('str', z3.String('own_value')), 'parent': None}))

    def run():
        toks = e.list_of_V(z3.Const('TOKS', V), ObjT('token'))
        e.st.ghost.update({'tokens': toks})
        me = obj(e, e.get_global(SQ, 'TokenList'), toks)
        return me, e.outcomes(lambda: e.call(Bound(fl, me), [], {}))

    def onp(me, r):
        if r[0] != 'ok' or not e.st.ghost.get('ended'):
            e.fail('flattening a group reads all its tokens', str(r[0]))
            return
        ok(e, not e.obj(e.resolve(r[1])).segs, 'nothing is yielded after the last token of a group')
    ctx.explore(e, SQ + ':TokenList.flatten', run, onp)

    # every kind of group flattens and spells like that
    e = eng(ctx, {}, {}, {'ctx': ctx})

    def run():
        return None, None

    def onp(_, r):
        for c in group_classes():
            cls = e.get_global(SQ, c)
            for n in ('flatten', '__str__', '__init__'):
                f, owner = e.class_lookup(cls, n)
                ok(e, owner is not None and owner.name == 'TokenList', 'every kind of group is flattened, spelled and made by TokenList', '%s.%s' % (c, n))
    ctx.explore(e, SQ + ':classes', run, onp)

    # text of a group, by the contract of flatten
    def k_flat(e, f, a, k):
        return e.st.ghost['flat']
    e2 = eng(ctx, {SQ + ':TokenList.flatten': k_flat}, {}, {'objattr': tok_attr, 'ctx': ctx})
    st = ctx.func(e2, SQ, 'TokenList.__str__')

    def run2():
        e = e2
        e.st.ghost.update({'flat': e.list_of_V(z3.Const('FLAT', V), ObjT('token'))})
        me = obj(e, e.get_global(SQ, 'TokenList'), e.alloc(LObj(())))
        ref = e.call(e.get_global('refspec.tokentext', 'spelled'), [e.st.ghost['flat']], {})
        return ref, e.outcomes(lambda: e.call(Bound(st, me), [], {}))

    def onp2(ref, r):
        if r[0] != 'ok':
            e2.fail('a group is spelled', 'raises')
            return
        e2.prove_eq('the text of a group is the text of its leaves in order', r[1], ref)
        ctx.cover('text')
    ctx.explore(e2, SQ + ':TokenList.__str__', run2, onp2)

    # constructor
    def k_str(e, f, a, k):
        return Sym('str', z3.String('spelled'))
    e3 = eng(ctx, {SQ + ':TokenList.__str__': k_str}, {}, {'objattr': tok_attr, 'objsetattr': set_tok, 'ctx': ctx})
    ctx.func(e3, SQ, 'TokenList.__init__')

    def run3():
        e = e3
        l = e.list_of_V(z3.Const('TOKS', V), ObjT('token'))
        e.st.ghost.update({'segs': tuple(e.obj(l).segs), 'l': l})
        return None, e.outcomes(lambda: e.call(e.get_global(SQ, e.opts['cls']), [l], {}))

    def onp3(_, r):
        e = e3
        if r[0] != 'ok':
            e.fail('a group can be made of any tokens', 'raises %r' % (e.obj(r[1]).cls,))
            return
        me = r[1]
        t = e.resolve(e.getattr_(me, 'tokens'))
        segs = e.obj(t).segs
        range_check(e, 'a group has exactly the tokens it is made of', segs, z3.Const('TOKS', V))
        ok(e, tuple(e.obj(e.st.ghost['l']).segs) == e.st.ghost['segs'], 'making a group does not change the list of tokens')
        ok(e, e.resolve(e.getattr_(me, 'is_group')) is True, 'a group is a group')
        ctx.cover('made')
    for c in group_classes():
        e3.opts['cls'] = c
        ctx.explore(e3, SQ + ':TokenList.__init__', run3, onp3)


def set_tok(e, o, name, v):
    """a store to an arbitrary token: nothing that is spelled may change"""
    ok(e, name in ('parent', 'ttype'), 'the text and tokens of a token are not overwritten', 'store to .%s' % name)


# ------------------------------------------------------------------ D. group_tokens
def ranges(e, segs):
    """[(object term or list constant, from, length)] of a list of tokens"""
    out = []
    for s in segs:
        if isinstance(s, Elem):
            v = s.v if isinstance(s.v, FSrc) else e.resolve(s.v)
            t = v.t if isinstance(v, (SV, FSrc)) else None
            if t is not None and lget_of(t) is not None:
                l, i = lget_of(t)
                out.append((l, i, z3.IntVal(1)))
            else:
                out.append((v, None, z3.IntVal(1)))
            continue
        if len(s.cases) != 1 or len(s.cases[0].pay) != 1 or s.cases[0].dec or not isinstance(s.cases[0].pay[0], Elem):
            raise Unsupported('part of a list of tokens')
        v = s.cases[0].pay[0].v
        g = lget_of(v.t) if isinstance(v, (SV, FSrc)) else None
        if g is None:
            raise Unsupported('part of a list of tokens')
        l, i = g
        off = simp(i - s.k)
        if any(x.eq(s.k) for x in subterms(off)):
            raise Unsupported('order of a list of tokens')
        out.append((l, off, s.n))
    return out


def subterms(t):
    yield t
    for c in t.children():
        yield from subterms(c)


LGET = lget(z3.Const('x', V), z3.IntVal(0)).decl()


def lget_of(t):
    if z3.is_app(t) and t.decl().eq(LGET):
        return t.arg(0), t.arg(1)
    return None


def range_check(e, nm, segs, lst, lo=None, hi=None):
    """the list is exactly the tokens lo..hi of lst, in order"""
    pos = z3.IntVal(0) if lo is None else lo
    end = llen(lst) if hi is None else hi
    for l, i, n in ranges(e, segs):
        if not (z3.is_expr(l) and l.eq(lst)):
            e.fail(nm, 'another token: %r' % (l,))
            return
        e.oblige(nm, z3.Or(n == 0, i == pos))
        pos = simp(pos + n)
    e.oblige(nm, pos == end)


def flat_ranges(e, segs, new):
    """the tokens spelled by a list: those of the groups in `new` in their place"""
    out = []
    for s in segs:
        v = None
        if isinstance(s, Elem):
            v = s.v if isinstance(s.v, FSrc) else e.resolve(s.v)
        if isinstance(v, Ref) and isinstance(e.obj(v), IObj):
            if v in new:
                raise Unsupported('a group twice in a list')
            t = e.resolve(e.getattr_(v, 'tokens'))
            out += flat_ranges(e, e.obj(t).segs, new + [v])
        else:
            out.append(s)
    return out


def t_grouping_of(ctx):
    """TokenList.group_tokens: the tokens spelled are the same before and after, for any list and indices"""
    T, SUB = z3.Const('TOKS', V), z3.Const('SUB', V)
    made = []

    def k_str(e, f, a, k):
        return Sym('str', e.fresh(S, 'spelled'))

    def k_isinstance(e, v, c):
        if isinstance(v, SV) and isinstance(c, ClassVal):
            return False            # case: an arbitrary token that is not one of the class
        return None

    for case in ('new group', 'extend: first token is of another class', 'extend: first token is of the class', 'extend: of a subclass'):
        e = eng(ctx, {SQ + ':TokenList.__str__': k_str}, {}, {'objattr': tok_attr, 'objsetattr': set_tok, 'isinstance': k_isinstance, 'ctx': ctx})
        f = ctx.func(e, SQ, 'TokenList.group_tokens')

        def run(case=case, e=e, f=f):
            N = llen(T)
            l = e.list_of_V(T, ObjT('token'))
            start, end = z3.Int('start'), z3.Int('end')
            inc = Sym('bool', z3.Bool('include_end'))
            cls = e.get_global(SQ, 'TokenList' if case.endswith('subclass') else 'Identifier')
            ext = case != 'new group'
            if ext:
                e.assume(z3.And(start >= 0, start < N))
            if case in ('extend: first token is of the class', 'extend: of a subclass'):
                sub = e.list_of_V(SUB, ObjT('token'))
                first = e.alloc(IObj(e.get_global(SQ, 'Identifier'), {'tokens': sub, 'is_group': True, 'value': Sym('str', z3.String('old')), 'parent': None}))
                segs = e.obj(l).segs
                left, rest = e.bi.split_at(e, segs, start)
                _, right = e.bi.split_at(e, rest, z3.IntVal(1))
                l = e.alloc(LObj(list(left) + [Elem(first)] + list(right)))
            me = e.alloc(IObj(e.get_global(SQ, 'Statement'), {'tokens': l, 'is_group': True, 'value': Sym('str', z3.String('text')), 'parent': None}))
            kw = {'extend': True} if ext else ({} if e.choose([True, True]) else {'extend': False})
            if e.choose([True, True]):
                kw['include_end'] = inc
            e.st.ghost.update({'me': me})
            return me, e.outcomes(lambda: e.call(Bound(f, me), [cls, Sym('int', start), Sym('int', end)], kw))

        def onp(me, r, case=case, e=e):
            if r[0] != 'ok':
                return          # indices outside the list are refused before anything is changed: see below
            ctx.cover(case)
            l = e.resolve(e.getattr_(me, 'tokens'))
            flat = flat_ranges(e, e.obj(l).segs, [me])
            nm = 'grouping keeps the tokens spelled, in order (%s)' % case
            rs = ranges(e, flat)
            start = z3.Int('start')
            if 'first token is of the class' in case or 'subclass' in case:
                want = [(T, z3.IntVal(0), start), (SUB, z3.IntVal(0), llen(SUB)), (T, start + 1, llen(T) - start - 1)]
            else:
                want = [(T, z3.IntVal(0), llen(T))]
            check_ranges(e, nm, rs, want)
            g = e.resolve(r[1])
            ok(e, isinstance(g, Ref) and isinstance(e.obj(g), IObj), 'the group is returned')
        ctx.explore(e, SQ + ':TokenList.group_tokens', run, onp)


def check_ranges(e, nm, got, want):
    want = list(want)
    base, pos, left = want.pop(0)
    for l, i, n in got:
        if not (z3.is_expr(l) and l.eq(base)):
            # the expected part has to be used up
            e.oblige(nm, left == 0)
            if not want or not (z3.is_expr(l) and l.eq(want[0][0])):
                e.fail(nm, 'another token: %r' % (l,))
                return
            base, pos, left = want.pop(0)
        e.oblige(nm, z3.Or(n == 0, i == pos))
        pos, left = simp(pos + n), simp(left - n)
    e.oblige(nm, left == 0)
    for _, _, n in want:
        e.oblige(nm, n == 0)



# ------------------------------------------------------------------ E. grouping.py: the frame of every function
def arb(e, hint='t'):
    """an arbitrary token"""
    return SV(e.fresh(V, hint), ObjT('token'))


def any_index(e):
    return Sym('int', e.fresh(I, 'idx'))


def token_list(e):
    """the list of tokens of a group, read only: grouping functions change it through group_tokens alone"""
    T = e.fresh(V, 'tokens')
    n = e.fresh(I, 'n')
    e.assume(n >= 0)

    def elem(i):
        return SV(lget(T, i), ObjT('token'))

    def index(e, a, k):
        i = e.fresh(I, 'index')
        e.assume(i >= 0)
        return Sym('int', i)

    def part(e, lo, hi, st):
        return token_list(e)
    return Opaque('token list', {'chunks': lambda e: [('s', n, lambda i: [elem(i)])], 'len': lambda e: Sym('int', n), 'truth': lambda e: n > 0,
                                 '__getitem__': lambda e, i: arb(e), '__getslice__': part, 'index': Builtin('index', index),
                                 'copy': Builtin('copy', lambda e, a, k: token_list(e))})


def found(e, lo):
    """what a search returns: nothing, or a position (>= lo) and the token there"""
    if e.choose([True, True]) == 0:
        return (None, None)
    i = e.fresh(I, 'found')
    e.assume(lo(i))
    return (Sym('int', i), arb(e))


def search(name):
    """contract of the searches of TokenList: from a position >= -1 (or the default) they find nothing or a position >= 0"""
    def f(e, a, k):
        d = {'token_next_by': ('i', 'm', 't', 'idx', 'end'), 'token_not_matching': ('funcs', 'idx'), 'token_matching': ('funcs', 'idx'),
             'token_prev': ('idx', 'skip_ws', 'skip_cm'), 'token_next': ('idx', 'skip_ws', 'skip_cm', '_reverse'),
             '_token_matching': ('funcs', 'start', 'end', 'reverse')}[name]
        b = dict(zip(d, a))
        b.update(k)
        if set(b) - set(d):
            raise Unsupported('arguments of ' + name)
        if name == '_token_matching':
            i = e.resolve(b.get('start', 0))
            rev = e.resolve(b.get('reverse', False))
            if i is None:
                return None
            t = e.num_term(i)
            r = e.truth_term(rev)
            r = r if z3.is_expr(r) else z3.BoolVal(r)
            return found(e, lambda x: z3.And(z3.Implies(t >= 0, x >= 0), z3.Implies(r, x >= 0)))
        i = e.resolve(b.get('idx', -1))
        if i is None:
            if name in ('token_prev', 'token_next'):
                return (None, None)
            if name == 'token_next_by':
                e.raise_(TypeError)
            if name == 'token_not_matching':
                return None
            e.raise_(TypeError)
        t = e.num_term(i)
        low = t >= -1 if name in ('token_next_by', 'token_next') else t >= 0
        r = found(e, (lambda x: x >= 0) if name == 'token_prev' else (lambda x: z3.Implies(low, x >= 0)))
        return r[1] if name == 'token_matching' else r
    return Builtin(name, f)


def k_group_tokens(e, a, k):
    d = dict(zip(('grp_cls', 'start', 'end', 'include_end', 'extend'), a))
    d.update(k)
    if set(d) - {'grp_cls', 'start', 'end', 'include_end', 'extend'} or len(d) < 3:
        raise Unsupported('arguments of group_tokens')
    cls = e.resolve(d['grp_cls'])
    ok(e, isinstance(cls, ClassVal) and cls.name in group_classes(), 'tokens are grouped into a kind of group', repr(cls))
    st, en = e.resolve(d['start']), e.resolve(d['end'])
    if st is None or en is None:
        e.raise_(TypeError)
    ext = e.truth_term(d.get('extend', False))
    ext = ext if z3.is_expr(ext) else z3.BoolVal(ext)
    e.oblige('a group is extended only at a position counted from the beginning of the list', z3.Implies(ext, e.num_term(st) >= 0))
    ctx_cover(e, 'grouped')
    return arb(e, 'grp')


def tl_attr(e, o, name):
    if name == 'tokens' or name == '_groupable_tokens':
        return token_list(e)
    if name in ('token_next_by', 'token_next', 'token_prev', 'token_not_matching', 'token_matching', '_token_matching'):
        return search(name)
    if name == 'group_tokens':
        return Builtin(name, k_group_tokens)
    if name == 'get_sublists':
        return Builtin(name, lambda e, a, k: token_list(e))
    if name == 'token_index':
        def index(e, a, k):
            i = e.fresh(I, 'index')
            return Sym('int', i)
        return Builtin(name, index)
    if name == 'match':
        return Builtin(name, lambda e, a, k: Sym('bool', e.fresh(B, 'match')))
    return NOTFOUND


def tok_attr2(e, o, name):
    r = tl_attr(e, o, name)
    if r is not NOTFOUND:
        return r
    if name in ('is_whitespace', 'is_group', 'is_keyword', 'value', 'normalized', 'ttype'):
        return tok_attr(e, o, name)
    if name == 'parent':
        return arb(e, 'parent')
    raise Unsupported('attribute %s of a token' % name)


def a_tlist(e):
    def store(e, name, v):
        ok(e, name in ('parent', 'ttype'), 'the text and tokens of a token are not overwritten', 'store to .%s' % name)

    def isinst(e, c):
        if isinstance(c, ExtClass):
            return c.py is object
        return e.branch(e.fresh(B, 'isinstance'))
    o = Opaque('tlist', {'__setattr__': store, 'isinstance': isinst, '__getitem__': lambda e, i: arb(e), '__getslice__': lambda e, lo, hi, st: token_list(e),
                         'chunks': lambda e: token_list(e).attrs['chunks'](e)})
    o.attrs['getattr'] = lambda e, o2, n: tl_attr2(e, o, n)
    return o


def tl_attr2(e, o, n):
    r = tl_attr(e, o, n)
    if r is not NOTFOUND:
        return r
    if n in ('is_whitespace', 'is_group', 'is_keyword'):
        return Sym('bool', e.fresh(B, n))
    if n in ('value', 'normalized'):
        return Sym('str', e.fresh(S, n))
    if n == 'ttype':
        return None
    if n == 'parent':
        return arb(e, 'parent')
    return NOTFOUND


def isinst_hook(e, v, c):
    if isinstance(v, SV):
        if isinstance(c, ClassVal):
            return e.branch(e.fresh(B, 'isinstance'))
        return False
    return None


def set_tok2(e, o, name, v):
    if name == 'value':
        e.oblige('the text of a token is not changed', z3.Or(z3.Function('token_is_group', V, B)(o.t), z3.Function('token_value', V, S)(o.t) == e.str_term(e.resolve(v))))
        return
    if name == 'tokens':
        raise Unsupported('store to the tokens of a token')
    ok(e, name in ('parent', 'ttype', 'normalized', 'is_keyword'), 'the text and tokens of a token are not overwritten', 'store to .%s' % name)


# loops: an arbitrary iteration from an arbitrary state satisfying the invariants found (Houdini)
def kindof(e, v):
    v = e.resolve(v) if not isinstance(v, (FuncVal, Bound, Builtin)) else v
    if v is None:
        return 'none'
    if isinstance(v, (bool,)) or (isinstance(v, Sym) and v.k == 'bool'):
        return 'bool'
    if isinstance(v, int) or (isinstance(v, Sym) and v.k == 'int'):
        return 'int'
    if isinstance(v, SV):
        return 'token'
    if isinstance(v, Opaque) and v.name == 'stack':
        return 'stack'
    if isinstance(v, Opaque) and v.name == 'token list':
        return 'token list'
    return None


def stack(e):
    """a local list of positions"""
    def app(e, a, k):
        if e.kind(e.resolve(a[0])) != 'int':
            raise Unsupported('element of a local list')

    def pop(e, a, k):
        if e.choose([True, True]) == 0:
            e.raise_(IndexError, 'pop from empty list')
        return any_index(e)
    n = e.fresh(I, 'depth')
    return Opaque('stack', {'append': Builtin('append', app), 'pop': Builtin('pop', pop), 'truth': lambda e: e.fresh(B, 'nonempty'), 'len': lambda e: any_index(e),
                            '__getitem__': lambda e, i: any_index(e), '__getslice__': lambda e, lo, hi, st: stack(e)})


def an(e, kinds, nm):
    ks = sorted(kinds)
    k = ks[e.choose([True] * len(ks))] if len(ks) > 1 else ks[0]
    if k == 'none':
        return None
    if k == 'bool':
        return Sym('bool', e.fresh(B, nm))
    if k == 'int':
        return Sym('int', e.fresh(I, nm))
    if k == 'token':
        return arb(e, nm)
    if k == 'stack':
        return stack(e)
    return token_list(e)


def locals_of(e, env):
    return {k: v for k, v in e.st.heap[env.fid].items() if not isinstance(v, LazyVal) and k != '\0gen'}


def changed(e, base, env):
    """locations other than locals that a piece of code may not change"""
    for i, o in base.items():
        n = e.st.heap.get(i)
        if n is o or i == env.fid or isinstance(i, tuple):
            continue
        if isinstance(o, FrameObj) and dict(o) == dict(n):
            continue
        if isinstance(o, LObj) and i in e.opts['gens']:
            continue
        if isinstance(o, IObj) and o.cls is None:
            continue            # class constants, evaluated when first used
        raise Unsupported('a loop changes something other than locals: %r' % (o,))


def a_loop(e, env, step):
    """step(): one iteration from the current state; ends the path when there is none.  Returns after the loop."""
    for nm, v in locals_of(e, env).items():
        r = e.resolve(v) if not isinstance(v, (FuncVal, Bound, Builtin)) else v
        if isinstance(r, Ref) and isinstance(e.obj(r), LObj) and type(e.obj(r)) is LObj and not isinstance(r, tuple) and \
                all(isinstance(x, Elem) and e.kind(e.resolve(x.v)) == 'int' for x in e.obj(r).segs):
            e.store_name(nm, stack(e), env)
    base = dict(e.st.heap)
    gl = e.st.heap[env.fid].get('\0gen')
    if gl is not None:
        e.opts['gens'].add(gl.id)
    pre = locals_of(e, env)
    kinds = {}
    quiet = len(e.obligations)

    def havoc():
        for nm in sorted(kinds):
            e.store_name(nm, an(e, kinds[nm], nm), env)

    def go():
        havoc()
        try:
            step()
        except (ContinueEx,):
            pass
        except (PyRaise, BreakEx) as ex:
            raise PathEnd()
        except E_Return:
            raise PathEnd()
        return 'ok', None
    for _ in range(12):
        grew = [False]

        def onp(_, r):
            changed(e, base, env)
            for nm, v in locals_of(e, env).items():
                if nm in pre and nm not in kinds and v is pre[nm]:
                    continue
                if nm not in pre:
                    continue
                k = kindof(e, v)
                if k is None:
                    raise Unsupported('local %s of a loop' % nm)
                if nm not in kinds:
                    k0 = kindof(e, pre[nm])
                    if k0 is None:
                        raise Unsupported('local %s of a loop' % nm)
                    kinds[nm] = {k0}
                    grew[0] = True
                if k not in kinds[nm]:
                    kinds[nm].add(k)
                    grew[0] = True
        cov = dict(e.opts['ctx'].covers)
        e.explore(go, onp)
        e.opts['ctx'].covers.clear()
        e.opts['ctx'].covers.update(cov)
        del e.obligations[quiet:]
        if not grew[0]:
            break
    else:
        raise Unsupported('locals of a loop')
    cands = [('ge0', x) for x in kinds if 'int' in kinds[x]] + \
            [('imp', x, y) for x in kinds for y in kinds if x != y and 'none' in kinds[y] and kinds[x] - {'none'}]

    def holds(c):
        """term of a candidate in the current state"""
        v = e.resolve(locals_of(e, env)[c[1]])
        if c[0] == 'ge0':
            return True if v is None or e.kind(v) != 'int' else e.num_term(v) >= 0
        w = e.resolve(locals_of(e, env)[c[2]])
        return v is None or w is not None

    def mst(c):
        t = holds(c)
        return t if isinstance(t, bool) else e.must(t)

    def suppose():
        for c in cands:
            t = holds(c)
            if t is False:
                raise PathEnd()
            if t is not True:
                e.assume(t)
    cands = [c for c in cands if mst(c)]
    for _ in range(30):
        bad = set()

        def go2():
            havoc()
            suppose()
            try:
                step()
            except ContinueEx:
                pass
            except (PyRaise, BreakEx):
                raise PathEnd()
            except E_Return:
                raise PathEnd()
            return 'ok', None

        def onp2(_, r):
            for c in cands:
                if c not in bad and not mst(c):
                    bad.add(c)
        cov = dict(e.opts['ctx'].covers)
        e.explore(go2, onp2)
        e.opts['ctx'].covers.clear()
        e.opts['ctx'].covers.update(cov)
        del e.obligations[quiet:]
        if not bad:
            break
        cands = [c for c in cands if c not in bad]
    else:
        raise Unsupported('invariants of a loop')
    havoc()
    suppose()



def for_frame(e, it, bind, body, env):
    it = e.resolve(it)
    ch = list(e.obj(it).chunks) if isinstance(it, Ref) and isinstance(e.obj(it), IterObj) else (e.chunks_of(it) if not isinstance(it, (str, bytes)) else [('c', ())])
    if all(c[0] == 'c' for c in ch):
        return False
    if len(ch) != 1 or ch[0][0] != 's':
        raise Unsupported('loop of several parts')
    _, n, grp = ch[0]

    def step():
        i = e.fresh(I, 'i')
        e.assume(z3.And(i >= 0, i < n))
        vs = grp(i)
        if len(vs) != 1:
            raise Unsupported('loop element')
        bind(vs[0])
        body()
    before = set(locals_of(e, env))
    a_loop(e, env, step)
    if e.choose([True, True]) == 0:
        step()
        raise PathEnd()
    unknown(e, env, before)
    return True


def unknown(e, env, before):
    for nm in set(locals_of(e, env)) - before:
        e.store_name(nm, Opaque('left by a loop', {}), env)


def while_frame(e, s, env, test, body):
    def step():
        if not test():
            raise PathEnd()
        body()
    before = set(locals_of(e, env))
    a_loop(e, env, step)
    if e.choose([True, True]) == 0:
        try:
            step()
        except BreakEx:
            unknown(e, env, before)
            return True
        except ContinueEx:
            pass
        raise PathEnd()
    if test():
        raise PathEnd()
    unknown(e, env, before)
    return True


def cut(key):
    """a function that calls itself: the inner call by its contract (it groups tokens, nothing else)"""
    def f(e, fn, a, k):
        act = e.st.ghost.get('active', frozenset())
        if fn.qual in act:
            return None
        put(e, active=act | {fn.qual})
        r = e.inline(fn, a, k)
        put(e, active=act)
        return r
    return f


def k_imt(e, f, a, k):
    """contract of utils.imt: False for no token; otherwise a truth value; nothing is changed"""
    d = dict(zip(('token', 'i', 'm', 't'), a))
    d.update(k)
    if e.resolve(d['token']) is None:
        return False
    return Sym('bool', e.fresh(B, 'imt'))


GROUP_ARGS = ('tlist', 'cls', 'match', 'valid_prev', 'valid_next', 'post', 'extend', 'recurse')


def k__group(e, f, a, k):
    """contract of _group: its argument functions change nothing, and post returns positions, the first one counted from the beginning when a group may be extended"""
    act = e.st.ghost.get('active', frozenset())
    if f.qual in act:
        return None
    d = dict(zip(GROUP_ARGS, a))
    d.update(k)
    names = [x.arg for x in f.node.args.args]
    if set(d) - set(GROUP_ARGS) or names != list(GROUP_ARGS):
        raise Unsupported('arguments of _group')
    for nm, v in zip(names[len(names) - len(f.defaults):], f.defaults):
        d.setdefault(nm, v)
    cls = e.resolve(d['cls'])
    ok(e, isinstance(cls, ClassVal) and cls.name in group_classes(), 'tokens are grouped into a kind of group', repr(cls))
    w = e.choose([True] * 4)
    if w < 2:
        e.call(d[('match', 'valid_prev')[w]], [arb(e)], {})
        raise PathEnd()
    if w == 2:
        e.call(d['valid_next'], [arb(e) if e.choose([True, True]) else None], {})
        raise PathEnd()
    if e.choose([True, True]) == 0:
        return None
    p, t, n = (e.fresh(I, x) for x in ('pidx', 'tidx', 'nidx'))
    e.assume(z3.And(p >= 0, t >= 0, n >= 0))
    r = e.resolve(e.call(d['post'], [d['tlist'], Sym('int', p), Sym('int', t), Sym('int', n) if e.choose([True, True]) else None], {}))
    if not (isinstance(r, tuple) and len(r) == 2):
        raise Unsupported('result of post')
    st = e.resolve(r[0])
    if st is not None:
        e.oblige('a group formed by a pattern starts at a position counted from the beginning of the list', e.num_term(st) >= 0)
        ctx_cover(e, 'post')
    raise PathEnd()


def t__group(ctx):
    """_group itself, for any functions satisfying that contract"""
    e = frame_engine(ctx, {GR + ':_group': cut('_group')})
    f = ctx.func(e, GR, '_group')

    def bools(nm):
        return Builtin(nm, lambda e, a, k: Sym('bool', e.fresh(B, nm)))

    def post(e, a, k):
        if k or len(a) != 4:
            raise Unsupported('arguments of post')
        _, p, t, n = (e.resolve(x) if i else x for i, x in enumerate(a))
        if t is None or e.kind(t) != 'int' or (p is not None and e.kind(p) != 'int'):
            raise Unsupported('arguments of post')
        ok(e, p is not None, 'post is told where the token before is')
        if p is not None:
            e.oblige('post is told positions counted from the beginning', z3.And(e.num_term(p) >= 0, e.num_term(t) >= 0))
        if n is not None:
            e.oblige('post is told positions counted from the beginning', e.num_term(n) >= 0)
        x = e.fresh(I, 'from')
        e.assume(x >= 0)
        return (Sym('int', x), any_index(e))

    def run():
        x = z3.Bool('extend')
        e.st.ghost.update({'ext': x})
        cls = e.get_global(SQ, 'Identifier')
        return None, e.outcomes(lambda: e.call(f, [a_tlist(e), cls, bools('match'), bools('valid_prev'), bools('valid_next'), Builtin('post', post)],
                                               {'extend': Sym('bool', x), 'recurse': Sym('bool', z3.Bool('recurse'))}))

    def onp(_, r):
        if r[0] == 'ok':
            ctx.cover('_group')
    ctx.explore(e, GR + ':_group', run, onp)


def frame_engine(ctx, extra=None):
    con = {GR + ':_group': k__group, GR + ':_group_matching': cut('_group_matching'), UT + ':imt': k_imt,
           UT + ':recurse.<locals>.wrap.<locals>.wrapped_f': cut('wrapped_f')}
    con.update(extra or {})
    return eng(ctx, con, {}, {'for_inv': for_frame, 'while_loop': while_frame, 'objattr': tok_attr2, 'objsetattr': set_tok2, 'isinstance': isinst_hook, 'ctx': ctx,
                              'gens': set(), 'max_paths': 200000, 'max_steps': 40000000})


def grouping_functions():
    """the functions group() applies, read from the source: every module-level function of grouping.py named group_... or align_..."""
    tree = ast.parse(open(os.path.join(REPO, *GR.split('.')) + '.py', encoding='utf8').read())
    return [n.name for n in tree.body if isinstance(n, ast.FunctionDef) and len(n.args.args) == 1 and n.name != 'group']


def t_frame(names):
    def task(ctx):
        if names == ['others']:
            names[:] = [n for n in grouping_functions() if not any(n in l for l in FRAMES)]
        ctx.assume('tokens of a tree are not shared between groups (they are made by the lexer and moved by group_tokens only)')
        for nm in names:
            if nm not in grouping_functions():
                continue
            e = frame_engine(ctx)
            f = ctx.func(e, GR, nm)
            ctx.functions.append(GR + ':_group_matching')

            def run(e=e, f=f):
                return None, e.outcomes(lambda: e.call(f, [a_tlist(e)], {}))

            def onp(_, r, nm=nm):
                if r[0] == 'ok':
                    ctx.cover(nm)
            ctx.explore(e, GR + ':' + nm, run, onp)
    return task


FRAMES = [['group_comments', 'group_where', 'group_order', 'group_values', 'group_identifier'], ['group_brackets', 'group_parenthesis', 'group_case', 'group_if', 'group_for', 'group_begin'],
          ['group_functions', 'group_aliased', 'align_comments'], ['group_typecasts', 'group_tzcasts', 'group_typed_literal'], ['group_period', 'group_as', 'group_assignment'],
          ['group_comparison', 'group_arrays', 'group_operator', 'group_identifier_list'], ['others']]


C19 = [('lexer', t_lexer), ('splitter', t_splitter), ('token', t_token), ('group', t_group), ('group_tokens', t_grouping_of)] + [('frame of ' + l[0] + ' ...', t_frame(l)) for l in FRAMES] + [('_group', t__group)]


def t_searches(ctx):
    """the searches of TokenList meet the contract used above: they change nothing and return nothing, or a position not before the one they start at"""
    key = SQ + ':TokenList.'

    def k_matching(e, f, a, k):
        me, rest = a[0], a[1:]
        d = dict(zip(('funcs', 'start', 'end', 'reverse'), rest))
        if set(k) & set(d) or set(k) - {'funcs', 'start', 'end', 'reverse'}:
            raise Unsupported('arguments of _token_matching')
        return e.call(search('_token_matching'), list(rest), k)

    def pred(e, nm='func'):
        return Builtin(nm, lambda e, a, k: Sym('bool', e.fresh(B, nm)))

    def shape(e, r, lo, nm, nothing=((None, None),)):
        """r is nothing, or (idx, token) with lo(idx)"""
        r = e.resolve(r)
        if isinstance(r, tuple):
            r = tuple(e.resolve(x) for x in r)
        if r in nothing if not isinstance(r, tuple) or r == (None, None) else False:
            ctx_cover(e, nm + ': nothing')
            return
        good = isinstance(r, tuple) and len(r) == 2 and e.kind(r[0]) == 'int' and isinstance(r[1], SV)
        ok(e, good, 'a search returns a position and a token, or nothing', '%s: %r' % (nm, r))
        if good:
            e.oblige('a search returns no position before the one it starts at (%s)' % nm, lo(e.num_term(r[0])))
            ctx_cover(e, nm + ': found')

    def one(meth, con, args, lo, nothing=((None, None),)):
        e = frame_engine(ctx, con)
        f = ctx.func(e, SQ, 'TokenList.' + meth)

        def run():
            me = e.alloc(IObj(e.get_global(SQ, 'TokenList'), {'tokens': token_list(e), 'is_group': True, 'value': Sym('str', z3.String('own')), 'parent': None}))
            e.st.ghost['attrs'] = dict(e.obj(me).attrs)
            a, k = args(e)
            return me, e.outcomes(lambda: e.call(Bound(f, me), a, k))

        def onp(me, r):
            now = e.obj(me).attrs
            ok(e, all(now.get(x) is y for x, y in e.st.ghost['attrs'].items()) and len(now) == len(e.st.ghost['attrs']), 'a search changes nothing', meth)
            if r[0] == 'ok':
                shape(e, r[1], lo(e), meth, nothing)
        ctx.explore(e, key + meth, run, onp)

    st = z3.Int('start')

    def idx_arg(e):
        w = e.choose([True, True])
        e.st.ghost['idx'] = None if w else st
        return None if w else Sym('int', st)

    def flags(e, names):
        k = {}
        for n in names:
            if e.choose([True, True]):
                k[n] = Sym('bool', z3.Bool(n))
        return k

    def a_matching(e):
        funcs = pred(e)
        w = e.choose([True] * 3)
        if w == 1:
            funcs = e.alloc(LObj((Elem(funcs),)))
        elif w == 2:
            funcs = (pred(e), pred(e))
        k = {}
        if e.choose([True, True]):
            k['start'] = idx_arg(e)
        else:
            e.st.ghost['idx'] = z3.IntVal(0)
        rev = False
        w = e.choose([True, True, True])
        if w:
            k['reverse'] = rev = w == 1
        if not rev and e.choose([True, True]):
            k['end'] = None if e.choose([True, True]) else Sym('int', z3.Int('end'))
        e.st.ghost['rev'] = rev
        return [funcs], k

    def lo_matching(e):
        t, rev = e.st.ghost['idx'], e.st.ghost['rev']
        if rev:
            return lambda x: x >= 0
        return lambda x: z3.Implies(t >= 0, x >= 0)
    one('_token_matching', {}, a_matching, lo_matching, ((None, None), None))
    con = {key + '_token_matching': k_matching}

    def a_by(e):
        k = {'idx': Sym('int', st)} if e.choose([True, True]) else {}
        e.st.ghost['idx'] = st if k else z3.IntVal(-1)
        if e.choose([True, True]):
            k['end'] = Sym('int', z3.Int('end'))
        return [], k
    one('token_next_by', con, a_by, lambda e: (lambda t: lambda x: z3.Implies(t >= -1, x >= 0))(e.st.ghost['idx']))

    def a_not(e):
        funcs = pred(e)
        if e.choose([True, True]):
            funcs = e.alloc(LObj((Elem(funcs),)))
        return [funcs, idx_arg(e)], {}
    one('token_not_matching', con, a_not, lambda e: (lambda t: lambda x: z3.Implies(t >= 0, x >= 0))(e.st.ghost['idx']), ((None, None), None))

    def a_next(e):
        i = idx_arg(e)
        return [i], flags(e, ('skip_ws', 'skip_cm'))
    con2 = dict(con)
    one('token_next', con2, a_next, lambda e: (lambda t: lambda x: z3.Implies(t >= -1, x >= 0))(e.st.ghost['idx']))

    def k_next(e, f, a, k):
        return e.call(search('token_next'), list(a[1:]), k)
    # token_prev calls token_next with _reverse: verified together
    one('token_prev', con, a_next, lambda e: (lambda x: x >= 0))

    # truth of a token: no class of sql.py says otherwise
    e = frame_engine(ctx)

    def run():
        return None, None

    def onp(_, r):
        tree = ast.parse(open(os.path.join(REPO, *SQ.split('.')) + '.py', encoding='utf8').read())
        for n in tree.body:
            if isinstance(n, ast.ClassDef):
                cls = e.get_global(SQ, n.name)
                for m in ('__len__', '__bool__'):
                    e_f, owner = e.class_lookup(cls, m)
                    ok(e, owner is None, 'a token is true', '%s.%s' % (n.name, m))
    ctx.explore(e, SQ + ':truth', run, onp)

    # imt
    e = frame_engine(ctx)
    del e.contracts[UT + ':imt']
    f = ctx.func(e, UT, 'imt')

    def run():
        def one_of(nm, mk):
            w = e.choose([True] * 3)
            if w == 0:
                return None
            if w == 1:
                return mk()
            return e.alloc(LObj((Elem(mk()), Elem(mk()))))
        cls = lambda: e.get_global(SQ, 'Comment')
        i = one_of('i', cls)
        if isinstance(i, Ref):
            i = (cls(), cls())
        def tt():
            o = any_ttype(e)
            root = e.fresh(B, 'nonempty')
            o.attrs['truth'] = lambda e: root
            o.attrs['__contains__'] = lambda e, x: False if e.resolve(x) is None else e.fresh(B, 'below')
            return o
        pat = lambda: (tt(), Sym('str', e.fresh(S, 'pattern')))
        m = one_of('m', pat)
        t = one_of('t', tt)
        tok = arb(e) if e.choose([True, True]) else None
        return tok, e.outcomes(lambda: e.call(f, [tok, i, m, t], {}))

    def onp(tok, r):
        if r[0] != 'ok':
            return
        v = e.resolve(r[1])
        ok(e, isinstance(v, bool) or (isinstance(v, Sym) and v.k == 'bool'), 'imt answers yes or no', repr(v))
        if tok is None:
            ok(e, v is False, 'no token matches nothing', repr(v))
        ctx.cover('imt')
    ctx.explore(e, UT + ':imt', run, onp)
    ctx.assume('imt is applied to patterns of the shapes used in grouping.py (a class or tuple, a pattern or list, a type or list); the obligations hold for those')


C19.append(('searches', t_searches))


# ------------------------------------------------------------------ F. group, the filter stack, parse and split
STMTS = z3.Const('STATEMENTS', V)


def t_stack(ctx):
    """group applies the grouping functions to the statement and returns it; the stack passes every statement of the splitter on, in order; parse and split return all of them"""
    def a_stmt(e):
        return SV(e.fresh(V, 'stmt'), ObjT('token'))

    def k_grouping(e, f, a, k):
        ok(e, len(a) == 1 and not k and e.resolve(a[0]) is e.st.ghost['stmt'], 'the grouping functions are applied to the statement', repr(a)[:100])
        ctx_cover(e, 'grouping function')
        if e.choose([True, True]) == 0:
            e.raise_(RecursionError)
        return None

    con = {GR + ':' + n: k_grouping for n in grouping_functions()}
    con[UT + ':recurse.<locals>.wrap.<locals>.wrapped_f'] = k_grouping
    e = eng(ctx, con, {}, {'objattr': tok_attr, 'objsetattr': set_tok, 'ctx': ctx})
    f = ctx.func(e, GR, 'group')

    def run():
        s = a_stmt(e)
        e.st.ghost['stmt'] = s
        return s, e.outcomes(lambda: e.call(f, [s], {}))

    def onp(s, r):
        if r[0] == 'ok':
            ok(e, e.resolve(r[1]) is s, 'group returns the statement it is given')
            ctx.cover('group')
    ctx.explore(e, GR + ':group', run, onp)

    # the stack
    GRP = z3.Function('grouped', V, V)

    def k_tokenize(e, f, a, k):
        d = dict(zip(('sql', 'encoding'), a))
        d.update(k)
        ok(e, e.resolve(d.get('sql')) is e.st.ghost['sql'], 'the text given is tokenised')
        ok(e, e.resolve(d.get('encoding')) is e.st.ghost['enc'], 'the text is decoded as asked')
        return Opaque('stream', {})

    def k_process(e, f, a, k):
        s = e.resolve(a[1]) if len(a) == 2 else None
        ok(e, isinstance(s, Opaque) and s.name == 'stream', 'the tokens of the text are split')
        put(e, split=e.st.ghost.get('split', 0) + 1)
        return e.list_of_V(STMTS, ObjT('token'))

    def k_group(e, f, a, k):
        return a[0]             # its contract: the statement given, with the same text

    def loop(e, it, bind, body, env):
        it = e.resolve(it)
        if not (isinstance(it, Ref) and isinstance(e.obj(it), (LObj, IterObj))):
            return False
        ch = list(e.obj(it).chunks) if isinstance(e.obj(it), IterObj) else e.chunks_of(it)
        if len(ch) != 1 or ch[0][0] != 's':
            return False
        _, n, grp = ch[0]
        gl = e.gen_list(env)
        ok(e, not e.obj(gl).segs, 'nothing is yielded before the first statement')
        if e.choose([True, True]) == 0:
            i = e.fresh(I, 'i')
            e.assume(z3.And(i >= 0, i < n))
            v = grp(i)[0]
            bind(v)
            body()
            segs = e.obj(e.gen_list(env)).segs
            got = e.resolve(segs[0].v) if len(segs) == 1 and isinstance(segs[0], Elem) else None
            want = e.resolve(v)
            ok(e, isinstance(got, SV) and isinstance(want, SV) and got.t.eq(want.t), 'every statement is passed on, once', str(segs)[:200])
            ctx_cover(e, 'statement')
            raise PathEnd()
        put(e, ended=True)
        return True

    e2 = eng(ctx, {LX + ':tokenize': k_tokenize, SP + ':StatementSplitter.process': k_process, GR + ':group': k_group}, {},
             {'for_inv': loop, 'objattr': tok_attr, 'objsetattr': set_tok, 'ctx': ctx})
    rn = ctx.func(e2, FS, 'FilterStack.run')

    def start(e):
        sql, enc = Sym('str', z3.String('text')), (None if e.choose([True, True]) else Sym('str', z3.String('enc')))
        e.st.ghost.update({'sql': sql, 'enc': enc})
        return sql, enc

    def run2():
        sql, enc = start(e2)
        me = e2.call(e2.get_global(FS, 'FilterStack'), [], {})
        if e2.choose([True, True]):
            e2.call(e2.getattr_(me, 'enable_grouping'), [], {})
        return None, e2.outcomes(lambda: e2.call(Bound(rn, me), [sql, enc] if enc is not None else [sql], {}))

    def onp2(_, r):
        if r[0] != 'ok':
            e2.fail('the stack passes the statements on', 'raises %r' % (e2.obj(r[1]).cls,))
            return
        ok(e2, e2.st.ghost.get('ended'), 'the stack reads all the statements')
        ok(e2, e2.st.ghost.get('split') == 1, 'the text is split once')
        ok(e2, not e2.obj(e2.resolve(r[1])).segs, 'nothing is yielded after the last statement')
        ctx.cover('stack')
    ctx.explore(e2, FS + ':FilterStack.run', run2, onp2)

    # parse and split
    def k_run(e, f, a, k):
        me = a[0]
        d = dict(zip(('sql', 'encoding'), a[1:]))
        d.update(k)
        ok(e, e.resolve(d.get('sql')) is e.st.ghost['sql'], 'the text given is parsed')
        ok(e, e.resolve(d.get('encoding')) is e.st.ghost['enc'], 'the text is decoded as asked')
        for x in ('preprocess', 'stmtprocess', 'postprocess'):
            l = e.resolve(e.getattr_(me, x))
            ok(e, isinstance(l, Ref) and not e.obj(l).segs, 'no filter is applied to the statements', x)
        put(e, runs=e.st.ghost.get('runs', 0) + 1)
        return e.list_of_V(STMTS, ObjT('token'))

    e3 = eng(ctx, {FS + ':FilterStack.run': k_run}, {}, {'objattr': tok_attr3, 'objsetattr': set_tok, 'ctx': ctx})
    ps, sp = ctx.func(e3, PK, 'parse'), ctx.func(e3, PK, 'split')
    ctx.functions.append(PK + ':parsestream')
    for f in (ps, sp):
        def run3(f=f):
            sql, enc = start(e3)
            return None, e3.outcomes(lambda: e3.call(f, [sql, enc] if enc is not None else [sql], {}))

        def onp3(_, r, f=f):
            if r[0] != 'ok':
                e3.fail('%s returns the statements' % f.name, 'raises %r' % (e3.obj(r[1]).cls,))
                return
            ok(e3, e3.st.ghost.get('runs') == 1, 'the text is parsed once')
            v = e3.resolve(r[1])
            stmts = e3.list_of_V(STMTS, ObjT('token'))
            if f is ps:
                want = e3.call(e3.get_global('builtins', 'tuple'), [stmts], {}) if False else stmts
                segs = v.attrs['segs'] if isinstance(v, Opaque) else e3.to_segs(v)
                range_check(e3, 'parse returns every statement, in order', segs, STMTS)
            else:
                want = e3.call(e3.get_global('refspec.tokentext', 'pieces'), [stmts], {})
                e3.prove_eq('split returns the text of every statement, stripped, in order', v, want)
            ctx.cover(f.name)
        ctx.explore(e3, PK + ':' + f.name, run3, onp3)


def tok_attr3(e, o, name):
    if name == '__str__':
        return Builtin('__str__', lambda e, a, k: Sym('str', z3.Function('token_spelled', V, S)(o.t)))
    return tok_attr(e, o, name)


C19.append(('stack', t_stack))
