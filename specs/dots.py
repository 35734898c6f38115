"""Contracts of the dotted paths (C20): dots/__init__.py.

A path text is k dots followed by the text of a list of names.  On the level of characters the functions are chains of str.replace / join / split;
they are compared with the identity by pyded.words (every list of names, of any length).  On the level of lists the other helpers are verified
against the contracts of split_field and join_field proved there."""
import z3

from pyded import words as W
from pyded.engine import Unsupported, PathEnd, Infeasible
from pyded.values import *
from pyded.values import Opaque, Builtin, ExtClass, LObj, Elem, Flat, Ref, Sym
from pyded.interp import Env

DM = 'dots'
CONTROL = {chr(i) for i in range(32)} | {'\x7f'}
GEN = Opaque('generator type', {})
NAMES_SINGLE = {'single': False, 'no_trailing': None}


def domain(e, fns, conds):
    for fn in fns:
        for op in fn:
            if W.SEP in ''.join(op[1:]) and op[1:] not in (('.', W.SEP),) and not (op[1] == W.SEP or op[2] == W.SEP):
                raise Unsupported('a separator inside a pattern')
    al = [c for c in W.alphabet(list(fns) + [c[0] for c in conds], [c[1] for c in conds], '.\\') if c not in CONTROL]
    d = e.st.ghost.get('domain', NAMES_SINGLE)
    return W.Domain(al, d['single'], d['no_trailing'])


def conds(e):
    return list(e.st.ghost.get('conds', ()))


def search(e, cs, f=None, g=None):
    try:
        return W.search(domain(e, [x for x in (f, g) if x is not None], cs), cs, f, g)
    except W.TooHard as x:
        raise Unsupported('words: %s' % x)


def decide(e, fn, c):
    """branch on a condition of the text fn gives"""
    fn = tuple(fn)
    cs = conds(e)
    for q in cs:
        if q[0] == fn and q[1] == c:
            return q[2]
    t = search(e, cs + [(fn, c, True)]) is not None
    f = search(e, cs + [(fn, c, False)]) is not None
    if not t and not f:
        raise Infeasible()
    r = t
    if t and f:
        r = e.choose([True, True]) == 0
    e.setghost('conds', tuple(cs + [(fn, c, r)]))
    return r


def refuted_word(e, name, f, g, what):
    """the functions f and g agree on every list of names that comes this way"""
    w = search(e, conds(e), tuple(f), tuple(g))
    if w is None:
        e.ok(name)
        return True
    e.fail(name, '%s: for the names %r it gives %r' % (what, W.show(w), W.show(W.apply(tuple(f), w))))
    return False


def num(e, k):
    return z3.IntVal(k) if isinstance(k, int) else e.num_term(k) if not z3.is_expr(k) else k


def integer(e, t):
    return e.norm(Sym('int', z3.simplify(t)))


def dotlen(e):
    return 0


# ------------------------------------------------------------------ text of a path: k dots, then the text fn gives (or nothing)
def text_(e, k, fn=None):
    """k: python int or z3 term; fn: chain giving a text that is not empty, or None"""
    if fn is None and isinstance(k, int):
        return '.' * k
    k0 = isinstance(k, int) and k == 0

    def nodots(e):
        return not decide(e, fn, ('starts', '.'))

    def eq(e, y):
        y = e.resolve(y)
        if not isinstance(y, str):
            if y is None or e.kind(y) not in ('str', 'Opaque'):
                return False
            raise Unsupported('comparison of paths')
        if fn is None:
            return num(e, k) == len(y) if set(y) <= {'.'} else False
        if k0:
            return decide(e, fn, ('eq', y))
        n = len(y) - len(y.lstrip('.'))
        if not nodots(e):
            raise Unsupported('comparison with a text that starts with a dot')
        if n == len(y):
            return False
        return e.branch(num(e, k) == n) and decide(e, fn, ('eq', y[n:]))

    def contains(e, y):
        y = e.resolve(y)
        if not isinstance(y, str):
            raise Unsupported('substring')
        if y == '.' and not k0:
            if e.branch(num(e, k) >= 1):
                return True
            return fn is not None and decide(e, fn, ('has', y))
        if fn is None:
            return False if set(y) - {'.'} else num(e, k) >= len(y)
        if '.' in y and not k0:
            raise Unsupported('substring')
        return decide(e, fn, ('has', y))

    def startswith(e, a, kw):
        y = e.resolve(a[0])
        if not isinstance(y, str) or len(a) > 1:
            raise Unsupported('prefix')
        if set(y) <= {'.'}:
            if fn is None:
                return e.branch(num(e, k) >= len(y))
            if k0:
                return decide(e, fn, ('starts', y)) if y else True
            if not nodots(e):
                raise Unsupported('prefix')
            return e.branch(num(e, k) >= len(y))
        if fn is None:
            return False
        if k0:
            return decide(e, fn, ('starts', y))
        raise Unsupported('prefix')

    def endswith(e, a, kw):
        y = e.resolve(a[0])
        if not isinstance(y, str) or len(a) > 1 or fn is None:
            raise Unsupported('suffix')
        if k0 or not (set(y) & {'.'}):
            return decide(e, fn, ('ends', y))
        raise Unsupported('suffix')

    def lstrip(e, a, kw):
        if [e.resolve(x) for x in a] != ['.']:
            raise Unsupported('lstrip')
        if fn is None:
            return ''
        if not nodots(e):
            raise Unsupported('lstrip of a text that starts with a dot')
        return text_(e, 0, fn)

    def replace(e, a, kw):
        x, y = [e.resolve(v) for v in a]
        if not (isinstance(x, str) and isinstance(y, str) and x):
            raise Unsupported('replace')
        if fn is None:
            if set(x) - {'.'}:
                return text_(e, k, None)
            raise Unsupported('replace of dots')
        if not k0:
            if '.' in x:
                raise Unsupported('replace after dots')
            return text_(e, k, fn + (('rep', x, y),))
        return text_(e, 0, fn + (('rep', x, y),))

    def split(e, a, kw):
        y = e.resolve(a[0]) if a else None
        m = e.resolve(a[1]) if len(a) > 1 else e.resolve(kw.get('maxsplit', -1))
        if not isinstance(y, str) or not y or fn is None or not k0 or m not in (-1, 1):
            raise Unsupported('split')
        return list_(e, fn + (('rep' if m == -1 else 'rep1', y, W.SEP),))

    def joined(e, sep):
        raise Unsupported('join of the characters')

    def length(e):
        n = num(e, k)
        if fn is not None:
            n = n + text_length(e, fn)
        return integer(e, n)

    def truth(e):
        if fn is None:
            return num(e, k) >= 1
        if k0:
            return not decide(e, fn, ('empty',))
        return True
    m = lambda f: Builtin(f.__name__, f)
    return Opaque('path text', {'k': k, 'fn': fn, '__eq__': eq, '__contains__': contains, 'startswith': m(startswith), 'endswith': m(endswith), 'lstrip': m(lstrip),
                                'replace': m(replace), 'split': m(split), 'len': length, 'truth': truth, '__class__': ExtClass(str), 'type': ExtClass(str),
                                'isinstance': lambda e, c: isinstance(c, ExtClass) and c.py in (str, object)})


def text_length(e, fn):
    """the number of characters fn gives"""
    key = tuple(fn)
    t = z3.Int('length of %r' % (key,))
    e.assume(t >= 0)
    return t


# ------------------------------------------------------------------ one text of a list
def elem_(e, fn):
    def replace(e, a, kw):
        x, y = [e.resolve(v) for v in a]
        if not (isinstance(x, str) and isinstance(y, str) and x) or W.SEP in x + y:
            raise Unsupported('replace')
        return elem_(e, fn + (('rep', x, y),))

    def eq(e, y):
        y = e.resolve(y)
        if y is None or e.kind(y) not in ('str', 'Opaque'):
            return False
        raise Unsupported('comparison of a name')
    return Opaque('name', {'fn': fn, 'replace': Builtin('replace', replace), '__eq__': eq, '__class__': ExtClass(str), 'type': ExtClass(str),
                           'isinstance': lambda e, c: isinstance(c, ExtClass) and c.py in (str, object), 'elem': True})


# ------------------------------------------------------------------ n times -1, then the texts fn gives (a list of at least one), or nothing
def list_(e, fn=None, n=0, kind='list'):
    n0 = isinstance(n, int) and n == 0

    def eq(e, y):
        y = e.resolve(y)
        if y is None:
            return False
        raise Unsupported('comparison of lists')

    def joined(e, sep):
        if kind == 'consumed':
            raise Unsupported('iterator')
        if not isinstance(sep, str) or not n0:
            raise Unsupported('join')
        return text_(e, 0, fn + (('rep', W.SEP, sep),))

    def getitem(e, i):
        i = e.resolve(i)
        if kind == 'generator':
            e.raise_(TypeError, "'generator' object is not subscriptable")
        if n0 and i == 0:
            return text_(e, 0, fn + (('head',),)) if e.st.ghost.get('whole') else elem_(e, fn)
        if i == 0 and e.must(num(e, n) >= 1):
            return -1
        raise Unsupported('item of a list')

    def getslice(e, lo, hi, st):
        if kind == 'generator':
            e.raise_(TypeError, "'generator' object is not subscriptable")
        if hi is None and st in (None, 1):
            if lo is None or lo == 0 and isinstance(lo, int):
                return list_(e, fn, n, kind)
            if fn is not None and e.must(num(e, lo) == num(e, n)):
                return list_(e, fn, 0, kind)
            if fn is not None and not n0 and e.must(num(e, lo) >= num(e, n)):
                return list_(e, fn + (('unknown names from', str(lo)),), 0, kind)
        raise Unsupported('slice of a list')

    def length(e):
        if kind == 'generator':
            e.raise_(TypeError, "object of type 'generator' has no len()")
        t = num(e, n)
        if fn is not None:
            many = decide(e, fn, ('many',)) if n0 else None
            if many is False:
                return 1
            c = z3.Int('number of names in %r' % (fn,))
            e.assume(c >= (2 if many else 1))
            t = t + c
        return integer(e, t)

    def truth(e):
        return True if kind == 'generator' or fn is not None else num(e, n) >= 1

    def chunks(e):
        out = []
        if not n0:
            out.append(('s', num(e, n), lambda i: [-1]))
        if fn is not None:
            c = z3.Int('number of names in %r' % (fn,))
            e.assume(c >= 1)
            out.append(('s', c, lambda i: [elem_(e, fn)]))
        return out
    cls = {'list': ExtClass(list), 'tuple': ExtClass(tuple), 'generator': GEN}[kind]
    return Opaque('names', {'n': n, 'fn': fn, 'kind': kind, '__eq__': eq, 'joined': joined, '__getitem__': getitem, '__getslice__': getslice, 'len': length, 'truth': truth,
                            'chunks': chunks, '__class__': cls, 'type': cls, '__list__': lambda e, k: list_(e, fn, n, k),
                            'isinstance': lambda e, c: c == cls or c is GEN and kind == 'generator' or isinstance(c, ExtClass) and c.py is object})


def is_names(v):
    return isinstance(v, Opaque) and v.name == 'names'


def comp(e, n, env):
    """[f(x) for x in names]: every text through f"""
    if len(n.generators) != 1:
        return NotImplemented
    g = n.generators[0]
    it = e.resolve(e.ev(g.iter, env))
    if not is_names(it) or it.attrs['fn'] is None or not (isinstance(it.attrs['n'], int) and it.attrs['n'] == 0):
        if is_names(it):
            raise Unsupported('comprehension over a list with -1')
        return NotImplemented if not is_names(it) and not isinstance(it, Opaque) else _bad()
    from pyded.values import FrameObj
    names = set()
    import ast
    for x in ast.walk(g.target):
        if isinstance(x, ast.Name):
            names.add(x.id)
    cenv = Env(env.mod, env, e.alloc(FrameObj()).id, locals_=frozenset(names), func=env.func, cls=env.cls)
    e.assign(g.target, elem_(e, ()), cenv)
    for c in g.ifs:
        t = e.truth_term(e.ev(c, cenv))
        if t is not True:
            raise Unsupported('a filter on names')
    v = e.resolve(e.ev(n.elt, cenv))
    if not (isinstance(v, Opaque) and v.attrs.get('elem')):
        raise Unsupported('comprehension over names')
    import ast
    return list_(e, it.attrs['fn'] + v.attrs['fn'], 0, 'list' if isinstance(n, ast.ListComp) else 'generator')


def _bad():
    raise Unsupported('comprehension')


def minus_ones(e, r):
    """length of a list of -1s, or None"""
    if isinstance(r, Ref) and isinstance(e.obj(r), LObj):
        n = z3.IntVal(0)
        for s in e.obj(r).segs:
            if isinstance(s, Elem) and s.v == -1 and isinstance(s.v, int):
                n = n + 1
            elif isinstance(s, Flat) and len(s.cases) == 1 and all(isinstance(p, Elem) and isinstance(p.v, int) and p.v == -1 for p in s.cases[0].pay) and len(s.cases[0].pay) == 1:
                n = n + s.n
            else:
                return None
        return z3.simplify(n)
    return None


def as_text(v):
    if isinstance(v, Opaque) and v.name == 'path text':
        return v.attrs['k'], v.attrs['fn']
    if isinstance(v, str) and set(v) <= {'.'}:
        return len(v), None
    return None


def plus(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    t = z3.simplify((z3.IntVal(a) if isinstance(a, int) else a) + (z3.IntVal(b) if isinstance(b, int) else b))
    return t.as_long() if z3.is_int_value(t) else t


def opaque(v):
    """a value this spec has no meaning for is no answer: neither right nor wrong"""
    if isinstance(v, (Opaque, Sym)):
        raise Unsupported('shape of the result %r' % (v,))


def binop(e, op, a, b):
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if x == '.' and isinstance(x, str) and isinstance(y, Sym) and y.k == 'int':
                t = e.num_term(y)
                return text_(e, z3.simplify(z3.If(t > 0, t, 0)) if not e.must(t >= 0) else t)
    if op == 'Add' and (isinstance(a, Opaque) or isinstance(b, Opaque)):
        x, y = as_text(a), as_text(b)
        if x is not None and y is not None and x[1] is None:
            return text_(e, plus(x[0], y[0]), y[1])
        if is_names(b):
            n = z3.IntVal(0) if a == [] else minus_ones(e, a)
            if n is None and is_names(a) and a.attrs['fn'] is None:
                n = num(e, a.attrs['n'])
            if n is not None:
                return list_(e, b.attrs['fn'], plus(n, b.attrs['n']))
        if is_names(a) and isinstance(b, Ref) and isinstance(e.obj(b), LObj) and not e.obj(b).segs:
            return a
    return None


OVER = {'parsing_future:generator_types': lambda e: (GEN,)}


def engine(ctx, contracts=None, opts=None):
    cs = {'parsing_future:is_text': lambda e, f, a, k: as_text(e.resolve(a[0])) is not None or e.kind(e.resolve(a[0])) == 'str' or isinstance(e.resolve(a[0]), Opaque) and 'elem' in e.resolve(a[0]).attrs}
    cs.update(contracts or {})
    e = ctx.engine(cs, {}, dict({'comp_hook': comp, 'binop_first': binop, 'branch_ms': 400}, **(opts or {})), {}, OVER)
    ctx.assume('str.replace, str.split and str.join act on every character no pattern mentions in the same way; names contain no control characters')
    return e


def fn_of(e, r):
    """the chain of a result that is a list of texts or a text, or None"""
    if isinstance(r, Opaque) and r.name == 'names' and isinstance(r.attrs['n'], int) and r.attrs['n'] == 0:
        return r.attrs['fn']
    if isinstance(r, Opaque) and r.name == 'path text' and isinstance(r.attrs['k'], int) and r.attrs['k'] == 0:
        return r.attrs['fn']
    if isinstance(r, Ref) and isinstance(e.obj(r), LObj) and len(e.obj(r).segs) == 1 and isinstance(e.obj(r).segs[0], Elem):
        v = e.resolve(e.obj(r).segs[0].v)
        if isinstance(v, Opaque) and v.name == 'path text' and isinstance(v.attrs['k'], int) and v.attrs['k'] == 0:
            return v.attrs['fn'] + ((('rep', W.SEP, W.SEP),) if False else ())
    return None


def t_round_trip(kind):
    def task(ctx):
        e = engine(ctx)
        jf, sf = ctx.func(e, DM, 'join_field'), ctx.func(e, DM, 'split_field')

        def run():
            p = e.outcomes(lambda: e.inline(jf, [list_(e, (), 0, kind)], {}))
            if p[0] != 'ok':
                return None, (p, None, None)
            q = e.outcomes(lambda: e.inline(jf, [list_(e, (), 0, 'list')], {})) if kind != 'list' else p
            return None, (p, e.outcomes(lambda: e.inline(sf, [p[1]], {})), q)

        def onp(c, r):
            p, s, q = r
            if p[0] != 'ok' or s[0] != 'ok':
                e.fail('every list of names is joined and split', 'raises')
                return
            ctx.cover('joined and split')
            p = e.resolve(p[1])
            if not (isinstance(p, Opaque) and p.name == 'path text' and p.attrs['k'] == 0):
                if not (isinstance(p, Opaque) and p.name == 'path text'):
                    opaque(p)
                e.fail('names are joined to a path that does not start with a dot', 'it is %r for %r' % (p, W.show(search(e, conds(e)) or '')))
                return
            f = p.attrs['fn']
            w = search(e, conds(e) + [(f, ('starts', '.'), True)])
            (e.ok if w is None else lambda n: e.fail(n, 'for %r' % W.show(w)))('names are joined to a path that does not start with a dot')
            w = search(e, conds(e) + [(f, ('empty',), True)])
            (e.ok if w is None else lambda n: e.fail(n, 'for %r' % W.show(w)))('names are joined to a path that is not empty')
            if kind != 'list':
                g = fn_of(e, e.resolve(q[1])) if q[0] == 'ok' else None
                if g is None:
                    e.fail('the kind of sequence makes no difference', 'list and %s' % kind)
                else:
                    refuted_word(e, 'the kind of sequence makes no difference', f, g, kind)
            got = fn_of(e, e.resolve(s[1]))
            if got is None:
                opaque(e.resolve(s[1]))
                e.fail('splitting the path gives the names', 'it gives %r for %r' % (s[1], W.show(search(e, conds(e)) or '')))
                return
            refuted_word(e, 'splitting the path gives the names', got, (), 'join and split')
        ctx.explore(e, DM + ':join_field and split_field', run, onp)
    return task


def t_empty(ctx):
    """no names: the path ."""
    e = engine(ctx)
    jf, sf = ctx.func(e, DM, 'join_field'), ctx.func(e, DM, 'split_field')

    def run():
        k = e.choose([True, True])
        p = e.outcomes(lambda: e.inline(jf, [e.alloc(LObj(())) if k == 0 else ()], {}))
        return None, (p, e.outcomes(lambda: e.inline(sf, ['.'], {})), e.outcomes(lambda: e.inline(sf, [None], {})))

    def onp(c, r):
        for x in r:
            if x[0] != 'ok':
                e.fail('no names are joined and split', 'raises')
                return
        ctx.cover('no names')
        e.prove_eq('no names are joined to a dot', r[0][1], '.')
        e.prove_eq('a dot is split into no names', r[1][1], e.alloc(LObj(())))
        e.prove_eq('None is split into no names', r[2][1], e.alloc(LObj(())))
    ctx.explore(e, DM + ':join_field', run, onp)


def t_up(some):
    def task(ctx):
        """n steps up (written -1), then names"""
        e = engine(ctx)
        jf, sf = ctx.func(e, DM, 'join_field'), ctx.func(e, DM, 'split_field')
        n = z3.Int('steps_up')

        def run():
            e.assume(n >= 1)
            p = e.outcomes(lambda: e.inline(jf, [list_(e, () if some else None, n)], {}))
            if p[0] != 'ok':
                return None, (p, None)
            return None, (p, e.outcomes(lambda: e.inline(sf, [p[1]], {})))

        def onp(c, r):
            p, s = r
            if p[0] != 'ok' or s[0] != 'ok':
                e.fail('every relative path is joined and split', 'raises')
                return
            ctx.cover('joined and split')
            t = as_text(e.resolve(p[1]))
            if t is None or (t[1] is None) != (not some):
                opaque(e.resolve(p[1])) if t is None else None
                e.fail('steps up are written as dots before the names', 'it is %r' % (p[1],))
                return
            e.oblige('one dot more than steps up stands before the names', num(e, t[0]) == n + 1)
            v = e.resolve(s[1])
            if some:
                if not (is_names(v) and v.attrs['fn'] is not None):
                    opaque(v)
                    e.fail('splitting a relative path gives the steps up and the names', 'it gives %r' % (v,))
                    return
                e.oblige('splitting a relative path gives the steps up', num(e, v.attrs['n']) == n)
                refuted_word(e, 'splitting a relative path gives the names', v.attrs['fn'], (), 'join and split')
                e.setghost('x', 1)
            else:
                k = minus_ones(e, v) if not is_names(v) else num(e, v.attrs['n']) if v.attrs['fn'] is None else None
                if k is None:
                    opaque(v)
                    e.fail('splitting a path that only goes up gives the steps up', 'it gives %r' % (v,))
                else:
                    e.oblige('splitting a path that only goes up gives the steps up', k == n)
        ctx.explore(e, DM + ':join_field and split_field (up)', run, onp)
    return task


def t_literal(ctx):
    """literal_field and unliteral_field on one name"""
    e = engine(ctx)
    lf, uf, sf = ctx.func(e, DM, 'literal_field'), ctx.func(e, DM, 'unliteral_field'), ctx.func(e, DM, 'split_field')

    def run():
        e.setghost('domain', {'single': True, 'no_trailing': None})
        x = text_(e, 0, ())
        p = e.outcomes(lambda: e.inline(lf, [x], {}))
        if p[0] != 'ok':
            return None, (p, p, p)
        return None, (p, e.outcomes(lambda: e.inline(sf, [p[1]], {})), e.outcomes(lambda: e.inline(uf, [p[1]], {})))

    def onp(c, r):
        if any(x[0] != 'ok' for x in r):
            e.fail('every name is written as a path of one step', 'raises %s' % [e.obj(x[1]).cls for x in r if x[0] != 'ok'])
            return
        ctx.cover('literal')
        f, g = fn_of(e, e.resolve(r[1][1])), fn_of(e, e.resolve(r[2][1]))
        if f is None or g is None:
            opaque(e.resolve(r[1][1]))
            opaque(e.resolve(r[2][1]))
            e.fail('every name is written as a path of one step', '%r' % (r,))
            return
        refuted_word(e, 'splitting the literal of a name gives the name', f, (), 'literal_field')
        refuted_word(e, 'unliteral_field takes literal_field back', g, (), 'unliteral_field')
    ctx.explore(e, DM + ':literal_field and unliteral_field', run, onp)


def t_literal_join(ctx):
    """the literals of names (not ending in a backslash) with dots between them are the path of the names"""
    e = engine(ctx)
    lf, jf = ctx.func(e, DM, 'literal_field'), ctx.func(e, DM, 'join_field')

    def run():
        e.setghost('domain', {'single': False, 'no_trailing': '\\'})
        v = e.outcomes(lambda: e.inline(lf, [elem_(e, ())], {}))
        p = e.outcomes(lambda: e.inline(jf, [list_(e, (), 0)], {}))
        return None, (v, p)

    def onp(c, r):
        v, p = r
        if v[0] != 'ok' or p[0] != 'ok':
            e.fail('literals joined by dots are the path', 'raises')
            return
        ctx.cover('literals')
        v, f = e.resolve(v[1]), fn_of(e, e.resolve(p[1]))
        if f is None or not (isinstance(v, Opaque) and 'elem' in v.attrs):
            opaque(v)
            opaque(e.resolve(p[1]))
            e.fail('literals joined by dots are the path', 'they are %r' % (v,))
            return
        refuted_word(e, 'literals joined by dots are the path', v.attrs['fn'] + (('rep', W.SEP, '.'),), f, 'literal_field')
    ctx.explore(e, DM + ':literal_field and join_field', run, onp)


# ------------------------------------------------------------------ the helpers, against the contracts of split_field and join_field
PLEN = z3.Function('length of the joined names', V, I)


def path_(e, k, ref):
    """the text of k dots followed by join_field(names), names not empty"""
    kk = num(e, k)

    def startswith(e, a, kw):
        y = e.resolve(a[0])
        if isinstance(y, str) and set(y) <= {'.'} and len(a) == 1:
            return e.branch(kk >= len(y))
        raise Unsupported('prefix of a path')

    def lstrip(e, a, kw):
        if [e.resolve(x) for x in a] != ['.']:
            raise Unsupported('lstrip')
        return path_(e, 0, ref)

    def eq(e, y):
        y = e.resolve(y)
        if y is None or isinstance(y, str) and set(y) <= {'.'}:
            return False
        raise Unsupported('comparison of paths')

    def contains(e, y):
        if e.resolve(y) == '.' and e.branch(kk >= 1):
            return True
        raise Unsupported('characters of a path')

    def length(e):
        t = PLEN(e.to_V(ref))
        e.assume(t >= 1)
        return integer(e, kk + t)
    m = lambda f: Builtin(f.__name__, f)
    return Opaque('path', {'k': k, 'names': ref, 'startswith': m(startswith), 'lstrip': m(lstrip), '__eq__': eq, '__contains__': contains, 'len': length, 'truth': True,
                           '__class__': ExtClass(str), 'type': ExtClass(str), 'isinstance': lambda e, c: isinstance(c, ExtClass) and c.py in (str, object)})


def parts(e, v):
    """(dots, list of names or None) of a path value"""
    v = e.resolve(v)
    if isinstance(v, Opaque) and v.name == 'path':
        return v.attrs['k'], v.attrs['names']
    if isinstance(v, Opaque) and v.name == 'path text' and v.attrs['fn'] is None:
        return v.attrs['k'], None
    if isinstance(v, str) and set(v) <= {'.'}:
        return len(v), None
    return None


def copy(e, ref):
    return e.alloc(LObj(e.to_segs(ref)))


def k_split(e, f, a, kw):
    """contract of split_field (proved above)"""
    v = e.resolve(a[0])
    if v is None:
        return e.alloc(LObj(()))
    q = parts(e, v)
    if q is None:
        raise Unsupported('split_field of %r' % (v,))
    k, ref = q
    ups = lambda n: e.bi.binop(e, 'Mult', e.alloc(LObj([Elem(-1)])), integer(e, n))
    if ref is None:
        if e.branch(num(e, k) == 1):
            return e.alloc(LObj(()))
        if e.branch(num(e, k) == 0):
            return e.alloc(LObj([Elem('')]))
        return ups(num(e, k) - 1)
    if e.branch(num(e, k) == 0):
        return copy(e, ref)
    if e.branch(num(e, k) == 1):
        raise Unsupported('a single dot before names')
    return e.bi.binop(e, 'Add', ups(num(e, k) - 1), copy(e, ref))


def k_join(e, f, a, kw):
    """contract of join_field (proved above) for lists of names"""
    v = e.resolve(a[0])
    segs = e.to_segs(v)
    for s in segs:
        for p in ([s] if isinstance(s, Elem) else [p for c in s.cases for p in c.pay] if isinstance(s, Flat) else [None]):
            if not isinstance(p, Elem) or isinstance(p.v, int) or p.v is None or isinstance(p.v, Sym) and p.v.k != 'str':
                raise Unsupported('join_field of other things than names')
    n = e.num_term(e.length(v))
    if e.branch(n == 0):
        return '.'
    return path_(e, 0, e.alloc(LObj(segs)))


def binop2(e, op, a, b):
    r = binop(e, op, a, b)
    if r is None and op == 'Add' and isinstance(b, Opaque) and b.name == 'path':
        q = parts(e, a)
        if q is not None and q[1] is None:
            return path_(e, plus(q[0], b.attrs['k']), b.attrs['names'])
    return r


def helper_engine(ctx):
    e = engine(ctx, {DM + ':split_field': k_split, DM + ':join_field': k_join}, {'binop_first': binop2})
    return e


def names(e, n, minlen=0):
    r = e.from_V(z3.Const(n, V), ListT(StrT, minlen))
    return e.resolve(r)


def joined(e, ref):
    return k_join(e, None, [ref], {})


def plain_list(e, ref, lo=None, hi=None):
    return e.bi.getslice(e, ref, lo, hi, None)


def same_path(e, name, r, k, ref):
    """r is k dots followed by the names of ref (none: ref empty, and then one dot more when k == 0)"""
    q = parts(e, r)
    if q is None:
        opaque(e.resolve(r))
        e.fail(name, 'it is %r' % (r,))
        return
    n = e.num_term(e.length(ref))
    if q[1] is None:
        e.oblige(name + ' (names)', n == 0)
        e.oblige(name + ' (dots)', num(e, q[0]) == z3.If(num(e, k) == 0, 1, num(e, k)))
        return
    e.oblige(name + ' (dots)', num(e, q[0]) == num(e, k))
    e.prove_eq(name + ' (names)', copy(e, q[1]), copy(e, ref))


def t_concat(ctx):
    e = helper_engine(ctx)
    f = ctx.func(e, DM, 'concat_field')

    def run():
        l, m = names(e, 'l'), names(e, 'm')
        return (l, m), e.outcomes(lambda: e.inline(f, [joined(e, l), joined(e, m)], {}))

    def onp(c, r):
        l, m = c
        if r[0] != 'ok':
            e.fail('every two paths are concatenated', 'raises %r' % (e.obj(r[1]).cls,))
            return
        ctx.cover('concatenated')
        same_path(e, 'the concatenation is the path of the concatenated names', r[1], 0, e.bi.binop(e, 'Add', copy(e, l), copy(e, m)))
    ctx.explore(e, DM + ':concat_field', run, onp)


def t_concat_up(some):
    def task(ctx):
        e = helper_engine(ctx)
        f = ctx.func(e, DM, 'concat_field')
        n = z3.Int('steps_up')

        def run():
            e.assume(n >= 1)
            l = names(e, 'l')
            m = names(e, 'm', 1) if some else e.alloc(LObj(()))
            q = path_(e, z3.simplify(n + 1), m) if some else text_(e, z3.simplify(n + 1))
            return (l, m), e.outcomes(lambda: e.inline(f, [joined(e, l), q], {}))

        def onp(c, r):
            l, m = c
            if r[0] != 'ok':
                e.fail('every relative path is appended', 'raises %r' % (e.obj(r[1]).cls,))
                return
            ctx.cover('appended')
            ln = e.num_term(e.length(l))
            if e.branch(ln >= n):
                w = e.bi.binop(e, 'Add', plain_list(e, l, None, integer(e, ln - n)), copy(e, m))
                same_path(e, 'each step up removes the last name', r[1], 0, w)
            else:
                same_path(e, 'steps up beyond the first name remain', r[1], z3.simplify(n - ln + 1), m)
        ctx.explore(e, DM + ':concat_field (up)', run, onp)
    return task


def t_tail(ctx):
    e = helper_engine(ctx)
    f = ctx.func(e, DM, 'tail_field')

    def run():
        l = names(e, 'l')
        return l, e.outcomes(lambda: e.inline(f, [joined(e, l)], {}))

    def onp(l, r):
        if r[0] != 'ok':
            e.fail('every path has a first step and a tail', 'raises %r' % (e.obj(r[1]).cls,))
            return
        ctx.cover('taken apart')
        v = e.concrete_iter(r[1])
        if len(v) != 2:
            e.fail('every path has a first step and a tail', '%r' % (v,))
            return
        if e.branch(e.num_term(e.length(l)) == 0):
            e.prove_eq('the first step of the empty path', v[0], '.')
            e.prove_eq('the tail of the empty path', v[1], '.')
            return
        e.prove_eq('the first step is the first name', v[0], e.getitem(l, 0))
        same_path(e, 'the tail is the path of the other names', v[1], 0, plain_list(e, l, 1, None))
    ctx.explore(e, DM + ':tail_field', run, onp)


def at(e, l, i):
    return e.getitem(l, integer(e, i))


def t_startswith(ctx):
    e = helper_engine(ctx)
    f = ctx.func(e, DM, 'startswith_field')

    def run():
        l, m = names(e, 'l'), names(e, 'm')
        return (l, m), e.outcomes(lambda: e.inline(f, [joined(e, l), joined(e, m)], {}))

    def onp(c, r):
        l, m = c
        if r[0] != 'ok':
            e.fail('every two paths are compared', 'raises %r' % (e.obj(r[1]).cls,))
            return
        ctx.cover('compared')
        ll, lm = e.num_term(e.length(l)), e.num_term(e.length(m))
        j = z3.Int('any_step')
        if e.branch(e.truth_term(r[1])):
            ctx.cover('prefix')
            e.oblige('a prefix is not longer', lm <= ll)
            e.assume(z3.And(0 <= j, j < lm, j < ll))
            e.oblige('every name of a prefix is the name of the path at that step', zb(e.values_eq(at(e, l, j), at(e, m, j))))
        else:
            ctx.cover('no prefix')
            e.prove_ne = None
            whole = plain_list(e, l, None, integer(e, lm))
            e.oblige('a path whose first names are those of the prefix starts with it', z3.Not(zb(e.values_eq(whole, copy(e, m)))))
    ctx.explore(e, DM + ':startswith_field', run, onp)


def zb(t):
    if isinstance(t, Sym):
        t = t.t
    return z3.BoolVal(t) if isinstance(t, bool) else t


def t_relative(ctx):
    e = helper_engine(ctx)
    f = ctx.func(e, DM, 'relative_field')

    def run():
        l, m = names(e, 'l'), names(e, 'm')
        return (l, m), e.outcomes(lambda: e.inline(f, [joined(e, l), joined(e, m)], {}))

    def onp(c, r):
        l, m = c
        if r[0] != 'ok':
            e.fail('every path is made relative', 'raises %r' % (e.obj(r[1]).cls,))
            return
        ctx.cover('made relative')
        q = parts(e, r[1])
        if q is None:
            opaque(e.resolve(r[1]))
            e.fail('the relative path is a path', '%r' % (r[1],))
            return
        ll, lm = e.num_term(e.length(l)), e.num_term(e.length(m))
        k = num(e, q[0])
        if q[1] is None and e.branch(k == 1):
            k = z3.IntVal(0)
        up = z3.If(k == 0, 0, k - 1)     # steps up
        if not e.oblige('no more steps up than the parent has', z3.And(k != 1, up >= 0, up <= lm)):
            return
        common = z3.simplify(lm - up)
        if not e.oblige('the names kept of the parent are names of the path', common <= ll):
            return
        j = z3.Int('any_step')
        same_path(e, 'the other names follow', r[1], k, plain_list(e, l, integer(e, common), None))
        if e.branch(z3.And(common < ll, common < lm)):
            e.oblige('no step up more than needed', z3.Not(zb(e.values_eq(at(e, l, common), at(e, m, common)))))
        e.assume(z3.And(0 <= j, j < common))
        e.oblige('the names kept of the parent are the first names of the path', zb(e.values_eq(at(e, l, j), at(e, m, j))))
    ctx.explore(e, DM + ':relative_field', run, onp)


C20 = [('round trip list', t_round_trip('list')), ('round trip tuple', t_round_trip('tuple')), ('round trip generator', t_round_trip('generator')), ('no names', t_empty),
       ('up and names', t_up(True)), ('up only', t_up(False)), ('literal', t_literal), ('literal join', t_literal_join),
       ('concat', t_concat), ('concat up and names', t_concat_up(True)), ('concat up only', t_concat_up(False)), ('tail', t_tail), ('startswith', t_startswith),
       ('relative', t_relative)]
