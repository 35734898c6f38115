"""Semantics of the built-in operations, types and methods of the verified subset."""
import builtins as pyb
from fractions import Fraction

import z3

from .values import *
from .engine import Unsupported, Infeasible, PyRaise, CarriedRead, NestedFlat, simp, zbool, is_z3, zstr, SC

NUM = ('int', 'bool', 'real')
upper_ = z3.Function('str_upper', S, S)
lower_ = z3.Function('str_lower', S, S)
strip_ = z3.Function('str_strip', S, S)
stripc_ = z3.Function('str_stripc', S, S, S, S)
replall_ = z3.Function('str_replace_all', S, S, S, S)
split_ = z3.Function('str_split', S, S, V)
splitws_ = z3.Function('str_splitws', S, V)
utf8_ = z3.Function('utf8_encode', S, S)
unutf8_ = z3.Function('utf8_decode', S, S)
strreal = z3.Function('str_of_real', R, S)
realstr = z3.Function('real_of_str', S, R)
repr_ = z3.Function('py_repr', V, S)
strv_ = z3.Function('py_str', V, S)
strpred = {}


def pred(name):
    if name not in strpred:
        strpred[name] = z3.Function('str_' + name, S, B)
    return strpred[name]


# ------------------------------------------------------------------ arithmetic
def binop(e, op, a, b):
    a, b = e.resolve(a), e.resolve(b)
    ka, kb = e.kind(a), e.kind(b)
    h = e.opts.get('binop_first')
    if h is not None:
        r = h(e, op, a, b)
        if r is not None:
            return r
    if ka in NUM and kb in NUM:
        return arith(e, op, a, b, ka, kb)
    if op == 'Add':
        if ka == kb and ka in ('str', 'bytes'):
            return e.mkrope(ka, [a, b])
        if ka == 'tuple' and kb == 'tuple':
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            return e.alloc(TObj(list(e.to_segs(a)) + list(e.to_segs(b))))
        if ka == 'list' and kb == 'list':
            return e.alloc(LObj(e.obj(a).segs + e.obj(b).segs))
    if op == 'Mult':
        if ka in ('str', 'bytes', 'list', 'tuple') and kb in ('int', 'bool'):
            return repeat(e, a, b, ka)
        if kb in ('str', 'bytes', 'list', 'tuple') and ka in ('int', 'bool'):
            return repeat(e, b, a, kb)
    if op == 'Mod' and ka == 'str':
        return pct_format(e, a, b)
    if isinstance(a, Opaque) and a.name == 'dict_keys' and op in ('Sub', 'BitOr', 'BitAnd'):
        a, ka = e.alloc(SetObj(e.concrete_iter(a))), 'set'
    if isinstance(b, Opaque) and b.name == 'dict_keys' and op in ('Sub', 'BitOr', 'BitAnd') and ka in ('set', 'tuple', 'list'):
        if ka != 'set':
            s = e.alloc(SetObj())
            for y in e.concrete_iter(a):
                e.set_add(s, y)
            a, ka = s, 'set'
        b, kb = e.alloc(SetObj(e.concrete_iter(b))), 'set'
    if op == 'BitAnd' and ka == 'set' and isinstance(b, Opaque) and b.name == 'charset' and all(isinstance(x, str) and len(x) != 1 for x in e.obj(a).elems):
        return e.alloc(SetObj([]))
    if ka == 'set' and kb == 'set' and op in ('Sub', 'BitOr', 'BitAnd'):
        ea, eb = e.obj(a).elems, e.obj(b).elems
        if op == 'BitOr':
            r = e.alloc(SetObj(ea))
            for x in eb:
                e.set_add(r, x)
            return r
        keep = [x for x in ea if any(e.branch(e.values_eq(x, y)) for y in eb) == (op == 'BitAnd')]
        return e.alloc(SetObj(keep))
    nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Mod': '__mod__', 'BitOr': '__or__', 'BitAnd': '__and__',
          'FloorDiv': '__floordiv__', 'Div': '__truediv__', 'RShift': '__rshift__', 'LShift': '__lshift__',
          'Pow': '__pow__', 'BitXor': '__xor__'}.get(op)
    if ka == 'obj' and isinstance(e.obj(a), IObj) and isinstance(e.obj(a).cls, ClassVal):
        m, _ = e.class_lookup(e.obj(a).cls, nm)
        if m is not UNSET:
            return e.call(Bound(m, a), [b], {})
    if kb == 'obj' and isinstance(e.obj(b), IObj) and isinstance(e.obj(b).cls, ClassVal):
        m, _ = e.class_lookup(e.obj(b).cls, nm.replace('__', '__r', 1))
        if m is not UNSET:
            return e.call(Bound(m, b), [a], {})
    h = e.opts.get('binop')
    if h is not None:
        r = h(e, op, a, b)
        if r is not None:
            return r
    if ka in ('Opaque', 'SV') or kb in ('Opaque', 'SV') or ka == 'obj' or kb == 'obj':
        raise Unsupported('operator %s on objects' % op)
    e.raise_(TypeError, 'unsupported operand types %s %s %s' % (ka, op, kb))


def repeat(e, s, n, k):
    if isinstance(n, (bool, int)):
        if isinstance(s, (str, bytes, tuple)):
            return s * n
        if n <= e.opts['unroll']:
            if k in ('str', 'bytes'):
                return e.mkrope(k, [s] * max(n, 0)) if n > 0 else ('' if k == 'str' else b'')
            r = []
            for _ in range(n):
                r += e.to_segs(s)
            return e.alloc(LObj(r))
        raise Unsupported('repeat')
    if isinstance(s, (str, bytes)) and len(s) == 1:
        kk = e.kvar()
        nt = e.num_term(n)
        # a run of one character: z3 string with known length and content
        r = e.fresh(S, 'rep')
        e.assume(z3.Length(r) == z3.If(nt > 0, nt, 0))
        e.assume(z3.InRe(r, z3.Star(z3.Re(e.str_term(s)))))
        return Sym(k, r)
    if k == 'list':
        segs = e.obj(s).segs
        if all(isinstance(x, Elem) for x in segs):
            pre = set(e.st.heap)
            kk = e.kvar()
            nt = e.num_term(n)
            f = Flat(z3.If(nt > 0, nt, 0), kk, [Case([], [], [Elem(e.freeze(x.v, pre)) for x in segs])])
            return e.alloc(LObj([f]))
    raise Unsupported('symbolic repetition')


def arith(e, op, a, b, ka, kb):
    ca = isinstance(a, (bool, int, Fraction, float))
    cb = isinstance(b, (bool, int, Fraction, float))
    if ca and cb:
        try:
            fp = e.opts['fp']
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                return a * b
            if op == 'Div':
                return a / b
            if op == 'FloorDiv':
                return a // b
            if op == 'Mod':
                return a % b
            if op == 'Pow':
                return a ** b
            if op == 'LShift':
                return a << b
            if op == 'RShift':
                return a >> b
            if op == 'BitAnd':
                return a & b
            if op == 'BitOr':
                return a | b
            if op == 'BitXor':
                return a ^ b
        except ZeroDivisionError:
            e.raise_(ZeroDivisionError, 'division by zero')
        except OverflowError:
            e.raise_(OverflowError, '')
        except TypeError:
            e.raise_(TypeError, '')
    real = 'real' in (ka, kb)
    if e.opts['fp'] == 'round' and 'int' in (ka, kb) and real:
        a, b = to_double(e, a), to_double(e, b)
    x, y = (e.real_term(a), e.real_term(b)) if real or op == 'Div' else (e.num_term(a), e.num_term(b))
    k = 'real' if real or op == 'Div' else 'int'
    if op in ('Add', 'Sub', 'Mult'):
        t = x + y if op == 'Add' else x - y if op == 'Sub' else x * y
        if k == 'real' and e.opts['fp'] == 'round':
            return rounded(e, t)
        return e.norm(Sym(k, t))
    if op in ('Div', 'FloorDiv', 'Mod'):
        if e.branch(y == 0):
            e.raise_(ZeroDivisionError, 'division by zero')
        if op == 'Div':
            if e.opts['fp'] in ('round', 'rounddiv'):
                exact = None
                if cb and b != 0 and Fraction(b).numerator in (1, -1) or cb and b != 0 and Fraction(b).denominator == 1 and (abs(int(b)) & (abs(int(b)) - 1)) == 0:
                    if ka != 'real':
                        exact = z3.And(e.num_term(a) <= 2 ** 53, e.num_term(a) >= -2 ** 53)
                return rounded(e, x / y, exact)
            return e.norm(Sym('real', x / y))
        if real:
            q = z3.ToReal(z3.ToInt(x / y))
            return e.norm(Sym('real', q if op == 'FloorDiv' else x - y * q))
        pos = cb and b > 0 or (not cb and e.must(y > 0))
        if op == 'Mod' and cb and b == e.opts.get('split_mod'):
            # complete case split over the residues
            return e.choose([x % y == i for i in range(b)])
        if op == 'FloorDiv':
            if pos:
                return e.norm(Sym('int', x / y))
            return e.norm(Sym('int', z3.If(y > 0, x / y, (-x) / (-y))))
        if pos:
            return e.norm(Sym('int', x % y))
        return e.norm(Sym('int', z3.If(y > 0, x % y, -((-x) % (-y)))))
    if op == 'Pow':
        if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 4:
            t = (z3.RealVal(1) if k == 'real' else z3.IntVal(1))
            for _ in range(b):
                t = t * x
            return e.norm(Sym(k, t))
        h = e.opts.get('pow')
        if h is not None:
            return h(e, a, b)
        raise Unsupported('symbolic power')
    if op in ('LShift', 'RShift') and isinstance(b, int) and b >= 0 and k == 'int':
        return e.norm(Sym('int', x * (1 << b) if op == 'LShift' else x / (1 << b)))
    if op == 'BitAnd' and isinstance(a, int) and k == 'int':
        a, b, x, y = b, a, y, x
    if op == 'BitAnd' and isinstance(b, int) and b > 0 and (b & (b - 1)) == 0 and k == 'int':
        return e.norm(Sym('int', (x / b) % 2 * b))
    if op == 'BitAnd' and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0 and k == 'int':
        return e.norm(Sym('int', x % (b + 1)))
    raise Unsupported('arithmetic %s' % op)


def to_double(e, v):
    """an int operand of a mixed operation is converted to a double first"""
    if isinstance(v, int) and not isinstance(v, bool):
        try:
            f = Fraction(float(v))
        except OverflowError:
            raise Unsupported('int too large for a double')
        return v if f == v else f
    if isinstance(v, Sym) and v.k == 'int':
        return rounded(e, z3.ToReal(v.t), z3.And(v.t <= 2 ** 53, v.t >= -2 ** 53))
    return v


def rounded(e, t, exact=None):
    """IEEE double result of an exact real t: relative error at most 2^-53 (no overflow/underflow assumed); exact: when
    the result is known to be representable"""
    t = simp(t)
    if z3.is_rational_value(t):
        return Fraction(float(t.as_fraction()))
    r = z3.Function('fl', R, R)(t)
    if e.opts.get('fl_mono'):
        # rounding is monotone and exact on doubles
        for u in e.st.ghost.get('fl', ()):
            q = z3.Function('fl', R, R)(u)
            e.assume(z3.And(z3.Implies(u <= t, q <= r), z3.Implies(t <= u, r <= q)))
        for c in e.opts['fl_mono']:
            f = z3.Q(Fraction(float(c)).numerator, Fraction(float(c)).denominator)
            for g in ((c, float(c)) if Fraction(float(c)) != c else (c,)):
                g = z3.Q(Fraction(g).numerator, Fraction(g).denominator)
                e.assume(z3.And(z3.Implies(t <= g, r <= f), z3.Implies(t >= g, r >= f)))
        e.setghost('fl', e.st.ghost.get('fl', ()) + (t,))
    d = z3.If(t >= 0, t, -t) / z3.RealVal(2 ** 53)
    e.assume(z3.And(r <= t + d, r >= t - d))
    if exact is not None:
        e.assume(z3.Implies(exact, r == t))
    e.assumed.add('IEEE-754 double: relative rounding error <= 2^-53, no overflow')
    return Sym('real', r)


# ------------------------------------------------------------------ comparison
def compare(e, op, a, b):
    if op in ('Is', 'IsNot'):
        r = identical(e, a, b)
        return neg(e, r) if op == 'IsNot' else r
    if op == 'Eq':
        return mkb(e, e.values_eq(a, b))
    if op == 'NotEq':
        return neg(e, e.values_eq(a, b))
    if op == 'In':
        return mkb(e, contains(e, b, a))
    if op == 'NotIn':
        return neg(e, contains(e, b, a))
    a, b = e.resolve(a), e.resolve(b)
    ka, kb = e.kind(a), e.kind(b)
    if ka in NUM and kb in NUM:
        if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if 'real' in (ka, kb):
            x, y = e.real_term(a), e.real_term(b)
        else:
            x, y = e.num_term(a), e.num_term(b)
        return mkb(e, {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
    if ka == kb == 'str':
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        x, y = e.str_term(a), e.str_term(b)
        return mkb(e, {'Lt': x < y, 'LtE': x <= y, 'Gt': y < x, 'GtE': y <= x}[op])
    if ka == 'tuple' and kb == 'tuple' and isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if not e.branch(e.values_eq(x, y)):
                return compare(e, op, x, y)
        return {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b), 'GtE': len(a) >= len(b)}[op]
    nm = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
    if ka == 'obj' and isinstance(e.obj(a), IObj) and isinstance(e.obj(a).cls, ClassVal):
        m, _ = e.class_lookup(e.obj(a).cls, nm)
        if m is not UNSET:
            return e.call(Bound(m, a), [b], {})
    h = e.opts.get('compare')
    if h is not None:
        r = h(e, op, a, b)
        if r is not None:
            return r
    setlike = lambda v, k: k == 'set' or isinstance(v, Opaque) and v.name == 'dict_keys'
    if setlike(a, ka) and setlike(b, kb):
        if op in ('Gt', 'GtE'):
            a, b = b, a
        xs, ys = list(e.concrete_iter(a)), list(e.concrete_iter(b))
        sub = lambda p, q: all(any(e.branch(e.values_eq(x, y)) for y in q) for x in p)
        return sub(xs, ys) and (op in ('LtE', 'GtE') or not sub(ys, xs))
    if ka in ('obj', 'Opaque', 'SV') or kb in ('obj', 'Opaque', 'SV'):
        raise Unsupported('ordering of objects')
    e.raise_(TypeError, 'ordering %s and %s' % (ka, kb))


def mkb(e, t):
    if isinstance(t, bool):
        return t
    return e.norm(Sym('bool', t))


def neg(e, t):
    if isinstance(t, Sym):
        t = t.t
    return (not t) if isinstance(t, bool) else e.norm(Sym('bool', z3.Not(t)))


def identical(e, a, b):
    if b is None or a is None:
        x = a if b is None else b
        if isinstance(x, SV):
            m = e.st.memo.get(x.t.get_id())
            if m is not None and not isinstance(m[0], SV):
                return m[0] is None
            return mkb(e, V.is_VNone(x.t))
        return x is None
    a, b = e.resolve(a), e.resolve(b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.id == b.id:
            return True
        h = e.opts.get('identity')
        if h is not None:
            r = h(e, a, b)
            if r is not None:
                return r
        return False
    if isinstance(a, (bool, Sym)) and isinstance(b, (bool, Sym)) and e.kind(a) == e.kind(b) == 'bool':
        return mkb(e, e.values_eq(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return False if e.kind(a) != e.kind(b) else a is b
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        h = e.opts.get('identity')
        if h is not None:
            r = h(e, a, b)
            if r is not None:
                return r
    if isinstance(a, (ClassVal, ExtClass, Opaque, ModVal, ExtVal)) or isinstance(b, (ClassVal, ExtClass, Opaque, ModVal, ExtVal)):
        return a is b or (type(a) is type(b) and not isinstance(a, (Opaque, ClassVal)) and a == b)
    if isinstance(a, SV) and isinstance(b, SV):
        return mkb(e, a.t == b.t)
    if type(a) is type(b) and isinstance(a, (int, str)):
        return a == b
    if isinstance(a, (FuncVal, Bound)) or isinstance(b, (FuncVal, Bound)):
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        return a is b
    if e.kind(a) != e.kind(b):
        return False
    if e.kind(a) in ('int', 'str'):
        return mkb(e, e.values_eq(a, b))
    raise Unsupported('identity of %r and %r' % (a, b))


def flat_exists(e, n, grp, test):
    """fork: some index satisfies test (over the group's values) or none does; returns bool"""
    k = e.kvar()
    # collect, per case, the negated condition (for the ForAll)
    conds = []
    pure = [True]
    idx0 = e.st.loopidx

    def run():
        e.st.loopidx = idx0 + (k,)
        e.assume(z3.And(k >= 0, k < n))
        mark = len(e.st.dec)
        vs = grp(k)
        out = []
        for v in vs:
            if isinstance(v, NestedFlat):
                pure[0] = False
                continue
            t = test(v)
            if t is True or t is False:
                out.append(z3.BoolVal(t))
            else:
                out.append(t)
        return mark, out

    def onp(mark, ts):
        d = e.st.dec[mark:]
        conds.append((list(d), z3.Or(*ts) if ts else z3.BoolVal(False)))
    e.explore(run, onp)
    if all(z3.is_false(simp(c[1])) for c in conds) and pure[0]:
        return False
    i = e.choose([True, True])
    if i == 0:
        j = e.fresh(I, 'wit')
        e.assume(z3.And(j >= 0, j < n))
        vs = grp(j)
        ts = []
        for v in vs:
            if isinstance(v, NestedFlat):
                if flat_exists(e, v.f.n, lambda q, f=v.f: e.flatten_elems(e.enter_case(f, q)), test):
                    return True
                continue
            t = test(v)
            if t is True:
                return True
            if t is not False:
                ts.append(t)
        if not ts:
            raise Infeasible()
        e.decide(z3.Or(*ts))
        return True
    if not pure[0]:
        e.flag('abstract')
        return False
    allc = [z3.And(*d, z3.Not(c)) if d else z3.Not(c) for d, c in conds]
    if any(mentions_other(x, e, k) for x in allc):
        pass
    e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Or(*allc))))
    return False


def mentions_other(x, e, k):
    return False


def contains(e, c, x):
    """python bool or z3 bool"""
    c = e.resolve(c)
    if isinstance(c, (str, bytes, Rope)) or (isinstance(c, Sym) and c.k in ('str', 'bytes')):
        x = e.resolve(x)
        if e.kind(x) != e.kind(c):
            if e.kind(c) == 'bytes' and e.kind(x) == 'int':
                raise Unsupported('int in bytes')
            e.raise_(TypeError, 'in <string>')
        if isinstance(c, (str, bytes)) and isinstance(x, (str, bytes)):
            return x in c
        return z3.Contains(e.str_term(c), e.str_term(x))
    if isinstance(c, tuple):
        cs = [e.values_eq(x, y) for y in c]
        if any(q is True for q in cs):
            return True
        cs = [q for q in cs if q is not False]
        return z3.Or(*cs) if cs else False
    if isinstance(c, Ref):
        o = e.obj(c)
        if isinstance(o, SetObj):
            return contains(e, tuple(o.elems), x)
        if isinstance(o, DObj):
            f, _ = e.dict_lookup(c, x)
            return f
        if isinstance(o, LObj):
            if all(isinstance(s, Elem) for s in o.segs):
                return contains(e, tuple(s.v for s in o.segs), x)
            for ch in e.chunks_of(c):
                if ch[0] == 's':
                    if flat_exists(e, ch[1], ch[2], lambda v: e.values_eq(x, v)):
                        return True
                else:
                    for v in (ch[1] if ch[0] == 'c' else ch[1]()):
                        if isinstance(v, NestedFlat):
                            if flat_exists(e, v.f.n, lambda q, f=v.f: e.flatten_elems(e.enter_case(f, q)), lambda w: e.values_eq(x, w)):
                                return True
                        elif e.branch(e.values_eq(x, v)):
                            return True
            return False
        if isinstance(o, IObj) and isinstance(o.cls, ClassVal):
            m, _ = e.class_lookup(o.cls, '__contains__')
            if m is not UNSET:
                return e.truth_term(e.call(Bound(m, c), [x], {}))
            m, _ = e.class_lookup(o.cls, '__iter__')
            if m is not UNSET:
                return contains(e, e.call(Bound(m, c), [], {}), x)
    if isinstance(c, Opaque) and '__contains__' in c.attrs:
        return c.attrs['__contains__'](e, x)
    if isinstance(c, Opaque) and 'chunks' in c.attrs:
        if c.name == 'dict_keys':
            f, _ = e.dict_lookup(c.attrs['dict'], x)
            return f
        if c.name == 'range':
            lo, hi, st = c.attrs['range']
            x = e.resolve(x)
            if e.kind(x) == 'int' and st == 1:
                return z3.And(e.num_term(x) >= e.num_term(lo), e.num_term(x) < e.num_term(hi))
        return contains(e, e.alloc(LObj(e.to_segs(c))), x)
    if c is None or e.kind(c) in NUM:
        e.raise_(TypeError, 'argument is not iterable')
    raise Unsupported('in %r' % (c,))


# ------------------------------------------------------------------ text
def py_str(e, v):
    v = e.resolve(v)
    h = e.opts.get('strof')
    if h is not None:
        r = h(e, v)
        if r is not None:
            return r
    if isinstance(v, (str, Rope)) or (isinstance(v, Sym) and v.k == 'str'):
        return v
    if v is None or isinstance(v, (bool, int)):
        return str(v)
    if isinstance(v, float):
        return str(v)
    if isinstance(v, bytes):
        return str(v)
    if isinstance(v, Sym):
        if v.k == 'int':
            r = strint(v.t)
            e.assume(intstr(r) == v.t)
            e.assume(isint(r))
            e.assume(z3.Length(r) > 0)
            return Sym('str', r)
        if v.k == 'bool':
            return 'True' if e.branch(v.t) else 'False'
        if v.k == 'real':
            r = strreal(v.t)
            e.assume(realstr(r) == v.t)
            return Sym('str', r)
        if v.k == 'bytes':
            return Sym('str', repr_(V.VBytes(v.t)))
    if isinstance(v, Fraction):
        r = strreal(e.num_term(v))
        e.assume(realstr(r) == e.num_term(v))
        return Sym('str', r)
    if isinstance(v, Ref):
        o = e.obj(v)
        if isinstance(o, IObj):
            if isinstance(o.cls, ClassVal):
                m, _ = e.class_lookup(o.cls, '__str__')
                if m is not UNSET:
                    return e.call(Bound(m, v), [], {})
                m, _ = e.class_lookup(o.cls, '__repr__')
                if m is not UNSET:
                    return e.call(Bound(m, v), [], {})
            if 'args' in o.attrs and isinstance(o.attrs['args'], tuple):
                a = o.attrs['args']
                if len(a) == 0:
                    return ''
                if len(a) == 1:
                    return py_str(e, a[0])
            return Sym('str', e.fresh(S, 'strobj'))
        try:
            return Sym('str', strv_(e.to_V(v)))
        except Unsupported:
            return Sym('str', e.fresh(S, 'strcont'))
    if isinstance(v, (ClassVal, ExtClass, FuncVal, ExtVal, Opaque, SV, tuple)):
        try:
            return Sym('str', strv_(e.to_V(v)))
        except Unsupported:
            return Sym('str', e.fresh(S, 'strcont'))
    raise Unsupported('str of %r' % (v,))


def py_repr(e, v):
    v = e.resolve(v)
    if v is None or isinstance(v, (bool, int, str, bytes, float)):
        return repr(v)
    if isinstance(v, Sym) and v.k == 'int':
        return py_str(e, v)
    return Sym('str', repr_(e.to_V(v)))


def pct_format(e, f, b):
    if not isinstance(f, str):
        raise Unsupported('% with symbolic format')
    out = []
    i = 0
    mapping = isinstance(b, Ref) and isinstance(e.obj(b), DObj)
    vals = None if mapping else (list(b) if isinstance(b, tuple) else [b])
    pos = 0
    while i < len(f):
        j = f.find('%', i)
        if j < 0:
            out.append(f[i:])
            break
        out.append(f[i:j])
        c = f[j + 1:j + 2]
        if c == '%':
            out.append('%')
            i = j + 2
            continue
        if c == '(' and mapping:
            q = f.index(')', j)
            key = f[j + 2:q]
            v = e.getitem(b, key)
            c = f[q + 1]
            i = q + 2
        else:
            if vals is None or pos >= len(vals):
                e.raise_(TypeError, 'not enough arguments for format string')
            v = vals[pos]
            pos += 1
            i = j + 2
        if c == 's':
            out.append(py_str(e, v))
        elif c == 'd':
            v = e.resolve(v)
            if e.kind(v) not in ('int', 'bool'):
                if e.kind(v) == 'real':
                    raise Unsupported('%d of float')
                e.raise_(TypeError, '%d format')
            out.append(py_str(e, v))
        elif c == 'r':
            out.append(py_repr(e, v))
        else:
            raise Unsupported('format %' + c)
    if vals is not None and pos != len(vals):
        e.raise_(TypeError, 'not all arguments converted')
    return e.mkrope('str', out)


def str_format(e, f, args, kw):
    if not isinstance(f, str):
        raise Unsupported('format with symbolic template')
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        out.append(lit)
        if field is None:
            continue
        if spec:
            raise Unsupported('format spec')
        import re
        m = re.match(r'^([A-Za-z0-9_]*)(.*)$', field)
        head, rest = m.group(1), m.group(2)
        if head == '':
            v = args[auto] if auto < len(args) else e.raise_(IndexError, 'format')
            auto += 1
        elif head.isdigit():
            if int(head) >= len(args):
                e.raise_(IndexError, 'format')
            v = args[int(head)]
        else:
            if head not in kw:
                e.raise_(KeyError, head)
            v = kw[head]
        while rest:
            if rest[0] == '.':
                m = re.match(r'^\.([A-Za-z0-9_]+)(.*)$', rest)
                v = e.getattr_(v, m.group(1))
                rest = m.group(2)
            else:
                m = re.match(r'^\[([^\]]*)\](.*)$', rest)
                kx = m.group(1)
                v = e.getitem(v, int(kx) if kx.isdigit() else kx)
                rest = m.group(2)
        out.append(py_repr(e, v) if conv == 'r' else py_str(e, v))
    return e.mkrope('str', out)


def join(e, sep, it):
    segs = e.to_segs(it)
    k = e.kind(sep)
    if all(isinstance(s, Elem) for s in segs):
        parts = []
        for i, s in enumerate(segs):
            v = e.resolve(s.v)
            if e.kind(v) != k:
                e.raise_(TypeError, 'join: expected %s' % k)
            if i:
                parts.append(sep)
            parts.append(v)
        return e.mkrope(k, parts)
    for s in segs:
        if isinstance(s, Acc):
            raise CarriedRead(s.oid)
    # every element must be text: check generically
    pre = set(e.st.heap)
    out = []
    for s in segs:
        if isinstance(s, Elem):
            v = e.resolve(s.v)
            if e.kind(v) != k:
                e.raise_(TypeError, 'join: expected %s' % k)
            out.append(Elem(v))
        else:
            f = e.flat_from_chunk(s.n, lambda i, s=s: [chk(e, x, k) for x in e.flatten_elems(e.enter_case(s, i))])
            out.append(f)
    if sep == '' or sep == b'':
        return e.mkrope(k, flat_to_ropesegs(e, out))
    return Rope(k, [JoinSeg(sep, out)])


def flat_to_ropesegs(e, segs):
    parts = []
    for s in segs:
        if isinstance(s, Elem):
            parts.append(s.v)
        else:
            parts.append(Flat(s.n, s.k, [Case(c.dec, c.facts, pay_to_rope(c.pay)) for c in s.cases]))
    return parts


def pay_to_rope(pay):
    out = []
    for x in pay:
        if isinstance(x, Elem):
            v = x.v
            if isinstance(v, Rope):
                out += list(v.segs)
            elif isinstance(v, Sym):
                out.append(v.t)
            else:
                out.append(v)
        elif isinstance(x, Flat):
            out.append(Flat(x.n, x.k, [Case(c.dec, c.facts, pay_to_rope(c.pay)) for c in x.cases]))
        else:
            raise Unsupported('join payload')
    return out


def chk(e, x, k):
    if isinstance(x, NestedFlat):
        return x
    v = e.resolve(x)
    if e.kind(v) != k:
        e.raise_(TypeError, 'join: expected %s' % k)
    return v


# ------------------------------------------------------------------ indexing
def norm_index(e, i, n):
    """index term normalised for negatives (branching), and bound check; returns z3 term or int"""
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int) and isinstance(n, int):
        j = i + n if i < 0 else i
        if j < 0 or j >= n:
            e.raise_(IndexError, 'index out of range')
        return j
    it, nt = e.num_term(i), e.num_term(n)
    if isinstance(i, int):
        j = it if i >= 0 else nt + i
    else:
        j = it if not e.branch(it < 0) else nt + it
    j = simp(j)
    if not e.branch(z3.And(j >= 0, j < nt)):
        e.raise_(IndexError, 'index out of range')
    if z3.is_int_value(j):
        return j.as_long()
    return j


def getitem(e, o, k):
    o = e.resolve(o)
    if isinstance(o, (str, bytes, tuple)):
        k = e.resolve(k)
        if e.kind(k) not in ('int', 'bool'):
            e.raise_(TypeError, 'indices must be integers')
        j = norm_index(e, k, len(o))
        if isinstance(j, int):
            return o[j]
        i = e.choose([j == q for q in range(len(o))])
        return o[i]
    if isinstance(o, Rope) or (isinstance(o, Sym) and o.k in ('str', 'bytes')):
        k = e.resolve(k)
        if e.kind(k) not in ('int', 'bool'):
            e.raise_(TypeError, 'string indices must be integers')
        t = e.str_term(o)
        j = norm_index(e, k, Sym('int', z3.Length(t)))
        j = z3.IntVal(j) if isinstance(j, int) else j
        ch = z3.SubString(t, j, 1)
        if o.k == 'bytes':
            return e.norm(Sym('int', z3.StrToCode(ch)))
        return e.norm(Sym('str', ch))
    if isinstance(o, Ref):
        c = e.obj(o)
        if isinstance(c, LObj):
            k = e.resolve(k)
            if e.kind(k) not in ('int', 'bool'):
                e.raise_(TypeError, 'list indices must be integers')
            return list_get(e, c.segs, k)
        if isinstance(c, DObj):
            f, v = e.dict_lookup(o, k)
            if not f:
                e.raise_(KeyError, k)
            return v
        if isinstance(c, IObj) and isinstance(c.cls, ClassVal):
            m, _ = e.class_lookup(c.cls, '__getitem__')
            if m is not UNSET:
                return e.call(Bound(m, o), [k], {})
        e.raise_(TypeError, 'not subscriptable')
    if isinstance(o, Opaque):
        h = o.attrs.get('__getitem__')
        if h is not None:
            return h(e, k)
        if 'chunks' in o.attrs:
            return list_get(e, e.to_segs(o), e.resolve(k))
    if o is None or e.kind(o) in NUM:
        e.raise_(TypeError, 'not subscriptable')
    raise Unsupported('subscript of %r' % (o,))


def seg_single(f):
    return isinstance(f, Flat) and f.cases and all(len(c.pay) == 1 and isinstance(c.pay[0], Elem) for c in f.cases)


def list_get(e, segs, k):
    for s in segs:
        if isinstance(s, Acc):
            raise CarriedRead(s.oid)
    n = e.segs_len(segs)
    j = norm_index(e, k, n)
    if isinstance(j, int) and isinstance(n, int) and all(isinstance(s, Elem) for s in segs):
        return segs[j].v
    # negative constant: from the end
    if isinstance(k, int) and k < 0:
        q = -k
        if q <= len(segs) and all(isinstance(s, Elem) for s in segs[-q:]):
            return segs[-q].v
    jt = z3.IntVal(j) if isinstance(j, int) else j
    off = z3.IntVal(0)
    for s in segs:
        if isinstance(s, Elem):
            if e.branch(jt == off):
                return s.v
            off = simp(off + 1)
        else:
            if not seg_single(s):
                per = {len(c.pay) for c in s.cases if all(isinstance(x, Elem) for x in c.pay)}
                if len(per) == 1 and len(s.cases) == len([c for c in s.cases if all(isinstance(x, Elem) for x in c.pay)]):
                    m = per.pop()
                    if m == 0:
                        continue
                    if e.branch(z3.And(jt >= off, jt < off + s.n * m)):
                        idx = simp((jt - off) / m)
                        vals = e.flatten_elems(e.enter_case(s, idx))
                        r = simp((jt - off) % m)
                        i = e.choose([r == q for q in range(m)])
                        return vals[i]
                    off = simp(off + s.n * m)
                    continue
                raise Unsupported('index into a variable-width part of a list')
            if e.branch(z3.And(jt >= off, jt < off + s.n)):
                return e.enter_case(s, simp(jt - off))[0].v
            off = simp(off + s.n)
    raise Infeasible()


def setitem(e, o, k, v):
    o = e.resolve(o)
    if isinstance(o, Ref):
        c = e.obj(o)
        if isinstance(c, DObj):
            e.dict_set(o, k, v)
            return
        if isinstance(c, LObj) and not isinstance(c, TObj):
            k = e.resolve(k)
            if all(isinstance(s, Elem) for s in c.segs):
                j = norm_index(e, k, len(c.segs))
                if not isinstance(j, int):
                    j = e.choose([j == q for q in range(len(c.segs))])
                segs = list(c.segs)
                segs[j] = Elem(v)
                e.setobj(o, LObj(segs, c.shape))
                return
            # constant position inside the leading/trailing concrete part
            if isinstance(k, int) and k >= 0 and k < len(c.segs) and all(isinstance(s, Elem) for s in c.segs[:k + 1]):
                segs = list(c.segs)
                segs[k] = Elem(v)
                e.setobj(o, LObj(segs, c.shape))
                return
            if isinstance(k, int) and k < 0 and -k <= len(c.segs) and all(isinstance(s, Elem) for s in c.segs[k:]):
                segs = list(c.segs)
                segs[k] = Elem(v)
                e.setobj(o, LObj(segs, c.shape))
                return
            # split a single-element flat at the index
            if len(c.segs) == 1 and seg_single(c.segs[0]):
                s = c.segs[0]
                j = norm_index(e, k, e.norm(Sym('int', s.n)))
                jt = z3.IntVal(j) if isinstance(j, int) else j
                e.setobj(o, LObj([sub_flat(e, s, z3.IntVal(0), jt), Elem(v), sub_flat(e, s, simp(jt + 1), simp(s.n - jt - 1))], c.shape))
                return
            if any(isinstance(s, Acc) for s in c.segs):
                raise CarriedRead([s for s in c.segs if isinstance(s, Acc)][0].oid)
            raise Unsupported('store into a symbolic list')
        if isinstance(c, IObj) and isinstance(c.cls, ClassVal):
            m, _ = e.class_lookup(c.cls, '__setitem__')
            if m is not UNSET:
                e.call(Bound(m, o), [k, v], {})
                return
    if isinstance(o, Opaque) and '__setitem__' in o.attrs:
        o.attrs['__setitem__'](e, k, v)
        return
    if isinstance(o, (str, tuple, bytes)) or (isinstance(o, Sym)):
        e.raise_(TypeError, 'no item assignment')
    raise Unsupported('item assignment')


def sub_flat(e, s, start, n):
    """n groups of s from index start"""
    if z3.is_int_value(simp(start)) and simp(start).as_long() == 0:
        return Flat(n, s.k, s.cases, None)
    k2 = e.kvar()
    sub = [(s.k, k2 + start)]
    return Flat(n, k2, [Case([z3.substitute(c, *sub) for c in cs.dec], [z3.substitute(c, *sub) for c in cs.facts],
                             e.subst_pay(cs.pay, sub)) for cs in s.cases])


def delitem(e, o, k):
    o = e.resolve(o)
    c = e.obj(o) if isinstance(o, Ref) else None
    if isinstance(c, DObj):
        f, _ = e.dict_del(o, k)
        if not f:
            e.raise_(KeyError, k)
        return
    if isinstance(c, LObj):
        list_pop(e, o, k)
        return
    if isinstance(c, IObj) and isinstance(c.cls, ClassVal):
        m, _ = e.class_lookup(c.cls, '__delitem__')
        if m is not UNSET:
            e.call(Bound(m, o), [k], {})
            return
    raise Unsupported('del item')


def getslice(e, o, lo, hi, st):
    o = e.resolve(o)
    lo, hi, st = e.resolve(lo), e.resolve(hi), e.resolve(st)
    if isinstance(o, Opaque) and '__getslice__' in o.attrs:
        return o.attrs['__getslice__'](e, lo, hi, st)
    if isinstance(o, (str, bytes, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
        return o[lo:hi:st]
    if st is not None and st != 1:
        if isinstance(o, Ref) and isinstance(e.obj(o), LObj) and all(isinstance(s, Elem) for s in e.obj(o).segs) and \
                all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return e.alloc(LObj(e.obj(o).segs[lo:hi:st]))
        raise Unsupported('slice step')
    if isinstance(o, (str, bytes, Rope)) or (isinstance(o, Sym) and o.k in ('str', 'bytes')):
        if isinstance(o, Rope):
            r = rope_slice(e, o, lo, hi)
            if r is not None:
                return r
        t = e.str_term(o)
        n = z3.Length(t)
        a, b = clamp(e, lo, n, 0), clamp(e, hi, n, n)
        return e.norm(Sym(e.kind(o), z3.SubString(t, a, simp(z3.If(b > a, b - a, 0)))))
    if isinstance(o, tuple):
        o2 = e.alloc(LObj([Elem(x) for x in o]))
        return getslice(e, o2, lo, hi, st)
    if isinstance(o, Ref) and isinstance(e.obj(o), LObj):
        c = e.obj(o)
        segs = slice_segs(e, c.segs, lo, hi)
        if isinstance(c, TObj):
            if all(isinstance(s, Elem) for s in segs):
                return tuple(s.v for s in segs)
            return e.alloc(TObj(segs))
        return e.alloc(LObj(segs, c.shape))
    if isinstance(o, Ref) and isinstance(e.obj(o), IObj):
        m, _ = e.class_lookup(e.obj(o).cls, '__getitem__')
        if m is not UNSET:
            return e.call(Bound(m, o), [SliceVal(lo, hi, st)], {})
    if o is None or e.kind(o) in NUM:
        e.raise_(TypeError, 'not subscriptable')
    raise Unsupported('slice')


def rope_slice(e, o, lo, hi):
    """drop constant prefix/suffix of a rope by constant amounts"""
    segs = list(o.segs)
    if lo not in (None, 0):
        if not isinstance(lo, int) or lo < 0 or not isinstance(segs[0], (str, bytes)) or len(segs[0]) < lo:
            return None
        segs[0] = segs[0][lo:]
    if hi is not None:
        if not isinstance(hi, int) or hi >= 0 or not isinstance(segs[-1], (str, bytes)) or len(segs[-1]) < -hi:
            return None
        segs[-1] = segs[-1][:hi]
    return e.mkrope(o.k, [s for s in segs])


def clamp(e, i, n, dflt):
    if i is None:
        return dflt if is_z3(dflt) else z3.IntVal(dflt)
    if e.kind(i) not in ('int', 'bool'):
        e.raise_(TypeError, 'slice indices')
    t = e.num_term(i)
    if isinstance(i, int):
        if i < 0:
            return simp(z3.If(n + i < 0, 0, n + i))
        return simp(z3.If(t > n, n, t))
    return simp(z3.If(t < 0, z3.If(n + t < 0, 0, n + t), z3.If(t > n, n, t)))


def slice_segs(e, segs, lo, hi):
    segs = list(segs)
    for s in segs:
        if isinstance(s, Acc):
            raise CarriedRead(s.oid)
    if all(isinstance(s, Elem) for s in segs) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
        return segs[lo:hi]
    if all(isinstance(s, Elem) for s in segs):
        n = len(segs)
        out = []
        if lo is not None and not isinstance(lo, int):
            c = clamp(e, lo, z3.IntVal(n), 0)
            lo = e.choose([c == q for q in range(n + 1)])
        if hi is not None and not isinstance(hi, int):
            c = clamp(e, hi, z3.IntVal(n), n)
            hi = e.choose([c == q for q in range(n + 1)])
        return segs[lo:hi]

    def drop_front(segs, m):
        while m > 0 and segs:
            s = segs[0]
            if isinstance(s, Elem):
                segs = segs[1:]
                m -= 1
                continue
            if not seg_single(s):
                raise Unsupported('slice of a variable-width list')
            if e.branch(s.n >= m):
                return [sub_flat(e, s, z3.IntVal(m), simp(s.n - m))] + segs[1:]
            # shorter than m: enumerate
            i = e.choose([s.n == q for q in range(m)])
            segs = segs[1:]
            m -= i
        return segs

    def drop_back(segs, m):
        while m > 0 and segs:
            s = segs[-1]
            if isinstance(s, Elem):
                segs = segs[:-1]
                m -= 1
                continue
            if not seg_single(s):
                raise Unsupported('slice of a variable-width list')
            if e.branch(s.n >= m):
                return segs[:-1] + [Flat(simp(s.n - m), s.k, s.cases)]
            i = e.choose([s.n == q for q in range(m)])
            segs = segs[:-1]
            m -= i
        return segs
    if lo is not None and isinstance(lo, int) and lo >= 0 and hi is None:
        return drop_front(segs, lo)
    if (lo is None or lo == 0) and isinstance(hi, int) and hi < 0:
        return drop_back(segs, -hi)
    if isinstance(lo, int) and lo >= 0 and isinstance(hi, int) and hi < 0:
        return drop_back(drop_front(segs, lo), -hi)
    if len(segs) == 1 and seg_single(segs[0]):
        s = segs[0]
        a, b = clamp(e, lo, s.n, 0), clamp(e, hi, s.n, s.n)
        return [sub_flat(e, s, a, simp(z3.If(b > a, b - a, 0)))]
    n = e.num_term(e.segs_len(segs))
    if not all(isinstance(s, Elem) or seg_single(s) for s in segs):
        raise Unsupported('general slice of a symbolic list')
    a, b = simp(clamp(e, lo, n, 0)), simp(clamp(e, hi, n, n))
    if e.must(b <= a):
        return []
    left, rest = split_at(e, segs, a)
    if e.must(b >= n):
        return rest
    return split_at(e, rest, simp(z3.If(b > a, b - a, 0)))[0]


def split_at(e, segs, pos):
    """the elements before position pos (>= 0), and the others"""
    left = []
    segs = list(segs)
    while segs:
        if e.must(pos <= 0):
            break
        s = segs[0]
        w = z3.IntVal(1) if isinstance(s, Elem) else s.n
        if e.branch(pos >= w):
            left.append(s)
            segs = segs[1:]
            pos = simp(pos - w)
            continue
        if isinstance(s, Elem):
            break
        left.append(sub_flat(e, s, z3.IntVal(0), pos))
        segs = [sub_flat(e, s, pos, simp(s.n - pos))] + segs[1:]
        break
    return left, segs


def setslice(e, o, lo, hi, v):
    c = e.obj(o)
    if not isinstance(c, LObj):
        raise Unsupported('slice store')
    n = e.segs_len(c.segs)
    if lo is None and hi is None:
        e.setobj(o, LObj(e.to_segs(v)))
        return
    if all(isinstance(s, Elem) for s in c.segs) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
        segs = list(c.segs)
        segs[lo:hi] = e.to_segs(v)
        e.setobj(o, LObj(segs))
        return
    if not all(isinstance(s, Elem) or seg_single(s) for s in c.segs):
        raise Unsupported('store to a general slice of a symbolic list')
    n = e.num_term(n)
    lo, hi = clamp(e, lo, n, 0), clamp(e, hi, n, n)
    a, rest = split_at(e, c.segs, simp(lo))
    _, b = split_at(e, rest, simp(z3.If(hi > lo, hi - lo, 0)))
    e.setobj(o, LObj(list(a) + list(e.to_segs(v)) + list(b)))


# ------------------------------------------------------------------ list operations
def list_append(e, r, v):
    o = e.obj(r)
    e.setobj(r, type(o)(o.segs + (Elem(v),), o.shape))


def list_extend(e, r, it):
    segs = e.to_segs(it)
    o = e.obj(r)
    e.setobj(r, LObj(o.segs + tuple(segs), o.shape))


def list_pop(e, r, k=-1):
    o = e.obj(r)
    segs = list(o.segs)
    k = e.resolve(k)
    n = e.segs_len(segs)
    if not e.branch(e.num_term(n) > 0):
        e.raise_(IndexError, 'pop from empty list')
    if all(isinstance(s, Elem) for s in segs):
        j = norm_index(e, k, len(segs))
        if not isinstance(j, int):
            j = e.choose([j == q for q in range(len(segs))])
        v = segs.pop(j).v
        e.setobj(r, LObj(segs, o.shape))
        return v
    if k == 0:
        v = list_get(e, segs, 0)
        e.setobj(r, LObj(slice_segs(e, segs, 1, None), o.shape))
        return v
    if k == -1:
        v = list_get(e, segs, -1)
        e.setobj(r, LObj(slice_segs(e, segs, None, -1), o.shape))
        return v
    raise Unsupported('pop')


def list_method(e, o, name):
    def m(fn):
        return Builtin('list.' + name, fn)
    if name == 'append':
        return m(lambda e, a, k: list_append(e, o, a[0]))
    if name == 'appendleft':
        return m(lambda e, a, k: e.setobj(o, LObj((Elem(a[0]),) + e.obj(o).segs, e.obj(o).shape)))
    if name == 'extend':
        return m(lambda e, a, k: list_extend(e, o, a[0]))
    if name == 'insert':
        def ins(e, a, k):
            c = e.obj(o)
            i = e.resolve(a[0])
            if i == 0:
                e.setobj(o, LObj((Elem(a[1]),) + c.segs, c.shape))
                return
            if isinstance(i, int) and all(isinstance(s, Elem) for s in c.segs):
                l = list(c.segs)
                l.insert(i, Elem(a[1]))
                e.setobj(o, LObj(l, c.shape))
                return
            if isinstance(i, int) and i > 0 and len(c.segs) >= i and all(isinstance(s, Elem) for s in c.segs[:i]):
                e.setobj(o, LObj(c.segs[:i] + (Elem(a[1]),) + c.segs[i:], c.shape))
                return
            raise Unsupported('insert')
        return m(ins)
    if name == 'pop':
        return m(lambda e, a, k: list_pop(e, o, a[0] if a else -1))
    if name == 'popleft':
        return m(lambda e, a, k: list_pop(e, o, 0))
    if name == 'clear':
        return m(lambda e, a, k: e.setobj(o, LObj(())))
    if name == 'copy':
        return m(lambda e, a, k: e.alloc(LObj(e.obj(o).segs, e.obj(o).shape, e.obj(o).src)))
    if name == 'reverse':
        def rev(e, a, k):
            c = e.obj(o)
            if not all(isinstance(s, Elem) for s in c.segs):
                raise Unsupported('reverse')
            e.setobj(o, LObj(c.segs[::-1]))
        return m(rev)
    if name in ('index', 'count', 'remove'):
        def idx(e, a, k):
            c = e.obj(o)
            if not all(isinstance(s, Elem) for s in c.segs):
                return sym_index(e, o, a[0], name)
            hits = [i for i, s in enumerate(c.segs) if e.branch(e.values_eq(s.v, a[0]))] if name == 'count' else None
            if name == 'count':
                return len(hits)
            for i, s in enumerate(c.segs):
                if e.branch(e.values_eq(s.v, a[0])):
                    if name == 'remove':
                        l = list(c.segs)
                        del l[i]
                        e.setobj(o, LObj(l, c.shape))
                        return None
                    return i
            e.raise_(ValueError, 'not in list')
        return m(idx)
    if name == '__len__':
        return m(lambda e, a, k: e.length(o))
    if name == '__iter__':
        return m(lambda e, a, k: o)
    return NOTFOUND


def sym_index(e, o, x, name):
    if name == 'count':
        r = e.fresh_sym('int', 'cnt')
        e.assume(z3.And(r.t >= 0, r.t <= e.num_term(e.length(o))))
        e.flag('abstract')
        return r
    segs = e.obj(o).segs
    if len(segs) == 1 and seg_single(segs[0]):
        f = segs[0]
        grp = lambda i: e.flatten_elems(e.enter_case(f, i))
        k = e.kvar()
        conds = []

        def run():
            e.assume(z3.And(k >= 0, k < f.n))
            mk = len(e.st.dec)
            v = grp(k)[0]
            return mk, zbool(e.values_eq(v, x))

        def onp(mk, c):
            conds.append(z3.And(*e.st.dec[mk:], z3.Not(c)))
        e.explore(run, onp)
        none = z3.Or(*conds)
        i = e.choose([True, True])
        if i == 0:
            j = e.fresh(I, 'idx')
            e.assume(z3.And(j >= 0, j < f.n))
            e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < j), none)))
            e.decide(zbool(e.values_eq(grp(j)[0], x)))
            if name == 'remove':
                e.setobj(o, LObj([sub_flat(e, f, z3.IntVal(0), j), sub_flat(e, f, simp(j + 1), simp(f.n - j - 1))]))
                return None
            return Sym('int', j)
        e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < f.n), none)))
        e.raise_(ValueError, 'not in list')
    raise Unsupported('list.' + name)


# ------------------------------------------------------------------ dict operations
def dict_method(e, o, name):
    def m(fn):
        return Builtin('dict.' + name, fn)
    if name == 'get':
        def get(e, a, k):
            d = e.obj(o)
            if e.opts.get('merge') and isinstance(a[0], str) and not d.ents and isinstance(d.shape, DictT) and d.shape.opt.get(a[0]) is BoolT and len(a) == 1:
                kt = V.VStr(z3.StringVal(a[0]))
                return SV(z3.If(dhas(d.base, kt), dget(d.base, kt), V.VNone), OneT(NoneT, BoolT))
            f, v = e.dict_lookup(o, a[0])
            return v if f else (a[1] if len(a) > 1 else None)
        return m(get)
    if name in ('keys', 'values', 'items'):
        sel = {'keys': lambda kv: kv[0], 'values': lambda kv: kv[1], 'items': lambda kv: kv}[name]

        def view(e, a, k):
            return Opaque('dict_' + name, {'chunks': lambda e: e.map_chunks(e.dict_items(o), sel), 'dict': o,
                                           'len': lambda e: e.length(o)})
        return m(view)
    if name == 'pop':
        def pop(e, a, k):
            f, v = e.dict_del(o, a[0])
            if f:
                return v
            if len(a) > 1:
                return a[1]
            e.raise_(KeyError, a[0])
        return m(pop)
    if name == 'popitem':
        raise Unsupported('popitem')
    if name == 'setdefault':
        def sd(e, a, k):
            f, v = e.dict_lookup(o, a[0])
            if f:
                return v
            d = a[1] if len(a) > 1 else None
            e.dict_set(o, a[0], d)
            return d
        return m(sd)
    if name == 'update':
        def up(e, a, k):
            for x in a:
                e.dict_update(o, x)
            for kk, v in k.items():
                e.dict_set(o, kk, v)
        return m(up)
    if name == 'copy':
        return m(lambda e, a, k: e.alloc(DObj(e.obj(o).base, e.obj(o).shape, e.obj(o).ents, e.obj(o).absent)))
    if name == 'clear':
        return m(lambda e, a, k: e.setobj(o, DObj()))
    if name == '__contains__':
        return m(lambda e, a, k: e.dict_lookup(o, a[0])[0])
    return NOTFOUND


# ------------------------------------------------------------------ str methods
def str_method(e, o, name):
    def m(fn):
        return Builtin('str.' + name, fn)
    k_ = e.kind(o)

    def const(*xs):
        return all(isinstance(x, (str, bytes, int, type(None), tuple)) and not (isinstance(x, tuple) and not all(isinstance(y, str) for y in x)) for x in xs)
    if name == 'join':
        return m(lambda e, a, k: a[0].attrs['joined'](e, o) if isinstance(a[0], Opaque) and 'joined' in a[0].attrs else join(e, o, a[0]))
    if name == 'format' and k_ == 'str':
        return m(lambda e, a, k: str_format(e, o, a, k))

    def meth(e, a, k):
        a = [e.resolve(x) for x in a]
        if isinstance(o, (str, bytes)) and const(*a) and const(*k.values()):
            try:
                r = getattr(o, name)(*a, **k)
            except Exception as ex:
                e.raise_(type(ex), *[str(x) for x in ex.args])
            return wrap(e, r)
        t = e.str_term(o)
        if name in ('startswith', 'endswith'):
            f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
            x = a[0]
            if isinstance(x, tuple):
                return mkb(e, z3.Or(*[f(e.str_term(y), t) for y in x]) if x else False)
            if isinstance(o, Rope) and isinstance(x, str) and o.segs:
                s = o.segs[0] if name == 'startswith' else o.segs[-1]
                if isinstance(s, str) and len(s) >= len(x):
                    return s.startswith(x) if name == 'startswith' else s.endswith(x)
            return mkb(e, f(e.str_term(x), t))
        if name in ('lower', 'upper'):
            h = e.opts.get('case_model')
            f = {'lower': lower_, 'upper': upper_}[name]
            r = f(t)
            e.assume(f(r) == r)
            return Sym(k_, r)
        if name in ('strip', 'lstrip', 'rstrip'):
            if a and a[0] is not None:
                return strip_model(e, t, name, e.str_term(a[0]), a[0], k_)
            r = z3.Function('str_' + name, S, S)(t)
            e.assume(z3.Length(r) <= z3.Length(t))
            e.assume(z3.Contains(t, r))
            return Sym(k_, r)
        if name == 'replace':
            x, y = e.str_term(a[0]), e.str_term(a[1])
            h = e.opts.get('replace_model')
            if h is not None:
                return h(e, o, a[0], a[1])
            return Sym(k_, replall_(t, x, y))
        if name == 'split':
            if not a or a[0] is None:
                v = splitws_(t)
                return e.from_V(v, ListT(StrT if k_ == 'str' else BytesT))
            if len(a) > 1 or k:
                raise Unsupported('split with maxsplit')
            if not isinstance(a[0], (str, bytes)):
                raise Unsupported('split separator')
            return split_model(e, t, a[0], k_)
        if name == 'encode':
            enc = a[0] if a else k.get('encoding', 'utf-8')
            if not isinstance(enc, str):
                raise Unsupported('encoding')
            return encode_model(e, t, enc.lower().replace('_', '-'))
        if name == 'decode':
            enc = a[0] if a else k.get('encoding', 'utf-8')
            return decode_model(e, t, enc.lower().replace('_', '-'))
        if name in ('find', 'index'):
            st = e.num_term(a[1]) if len(a) > 1 else z3.IntVal(0)
            r = z3.IndexOf(t, e.str_term(a[0]), st)
            if name == 'index' and e.branch(r < 0):
                e.raise_(ValueError, 'substring not found')
            return e.norm(Sym('int', r))
        if name in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isnumeric', 'isidentifier'):
            return Sym('bool', pred(name)(t))
        if name == 'hex' and k_ == 'bytes':
            return Sym('str', z3.Function('bytes_hex', S, S)(t))
        h = e.opts.get('str_method')
        if h is not None:
            r = h(e, o, name, a, k)
            if r is not None:
                return r
        raise Unsupported('str.%s on symbolic text' % name)
    if hasattr(str if k_ == 'str' else bytes, name):
        return m(meth)
    return NOTFOUND


def cparts(t):
    """parts of a concatenation term"""
    t = simp(t)
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        out = []
        for i in range(t.num_args()):
            out += cparts(t.arg(i))
        return out
    return [t]


def cjoin(parts):
    parts = [p for p in parts if not (z3.is_string_value(p) and zstr(p) == '')]
    if not parts:
        return z3.StringVal('')
    return simp(z3.Concat(*parts)) if len(parts) > 1 else parts[0]


def strip_model(e, t, name, ct, c, k_):
    h = e.opts.get('strip_model')
    if h is not None:
        return h(e, t, name, c, k_)
    if name == 'rstrip' and isinstance(c, (str, bytes)) and len(c) == 1:
        cc = c if isinstance(c, str) else c.decode('latin-1')
        ps = cparts(t)
        while ps and z3.is_string_value(ps[-1]):
            v = zstr(ps[-1]).rstrip(cc)
            if v:
                ps[-1] = z3.StringVal(v)
                break
            ps.pop()
        if not ps or z3.is_string_value(ps[-1]):
            return e.norm(Sym(k_, cjoin(ps)))
        if len(ps) == 1 and e.must(z3.Not(z3.SuffixOf(ct, ps[0]))):
            return Sym(k_, ps[0])
        t = cjoin(ps)
    r = z3.Function('str_%s_c' % name, S, S, S)(t, ct)
    e.assume(z3.Length(r) <= z3.Length(t))
    if isinstance(c, (str, bytes)) and len(c) == 1:
        run = z3.Star(z3.Re(ct))
        if name == 'rstrip':
            tail = e.fresh(S, 'tail')
            e.assume(t == z3.Concat(r, tail))
            e.assume(z3.InRe(tail, run))
            e.assume(z3.Not(z3.SuffixOf(ct, r)))
        elif name == 'lstrip':
            head = e.fresh(S, 'head')
            e.assume(t == z3.Concat(head, r))
            e.assume(z3.InRe(head, run))
            e.assume(z3.Not(z3.PrefixOf(ct, r)))
        else:
            head, tail = e.fresh(S, 'head'), e.fresh(S, 'tail')
            e.assume(t == z3.Concat(head, r, tail))
            e.assume(z3.InRe(head, run))
            e.assume(z3.InRe(tail, run))
            e.assume(z3.Not(z3.SuffixOf(ct, r)))
            e.assume(z3.Not(z3.PrefixOf(ct, r)))
    else:
        e.assume(z3.Contains(t, r))
    return Sym(k_, r)


def split_model(e, t, sep, k_):
    h = e.opts.get('split_hook')
    if h is not None:
        r = h(e, t, sep)
        if r is not None:
            return r
    v = split_(t, e.str_term(sep))
    e.assume(V.is_VList(v))
    e.assume(llen(v) >= 1)
    return e.from_V(v, ListT(StrT if k_ == 'str' else BytesT, minlen=1))


def encode_model(e, t, enc):
    if enc in ('utf-8', 'utf8'):
        out = []
        for p in cparts(t):
            if z3.is_string_value(p):
                try:
                    out.append(e.str_term(zstr(p).encode('utf8')))
                except UnicodeEncodeError:
                    e.raise_(UnicodeEncodeError, 'utf-8')
                continue
            r = utf8_(p)
            e.assume(unutf8_(r) == p)
            e.assume(z3.Length(r) >= z3.Length(p))
            e.assume(z3.Length(r) <= 4 * z3.Length(p))
            if z3.is_app(p) and p.decl().name() in e.opts.get('ascii_funcs', ()):
                e.assume(z3.Length(r) == z3.Length(p))
            out.append(r)
        whole = cjoin(out)
        e.setghost('utf8', e.st.ghost.get('utf8', ()) + ((whole, t),))
        return e.norm(Sym('bytes', whole))
    if enc in ('latin-1', 'iso-8859-1', 'ascii'):
        raise Unsupported('encode ' + enc)
    raise Unsupported('encode ' + enc)


def decode_model(e, t, enc):
    if enc in ('utf-8', 'utf8'):
        # valid UTF-8: decode(encode(x)) == x ; invalid raises
        ok = z3.Function('utf8_valid', S, B)(t)
        src = unutf8_(t)
        out = []
        for p in cparts(t):
            if z3.is_string_value(p):
                try:
                    out.append(z3.StringVal(zstr(p).encode('latin-1').decode('utf8')))
                except UnicodeDecodeError:
                    out = None
                    break
            elif z3.is_app(p) and p.decl().name() == 'utf8_encode':
                out.append(p.arg(0))
            else:
                out = None
                break
        if out is not None:
            return e.norm(Sym('str', cjoin(out)))
        for whole, txt in e.st.ghost.get('utf8', ()):
            if e.must(whole == t):
                return e.norm(Sym('str', txt))
        if not e.branch(ok):
            e.raise_(UnicodeDecodeError, 'utf-8')
        e.assume(utf8_(src) == t)
        return Sym('str', src)
    raise Unsupported('decode ' + enc)


def wrap(e, r):
    if isinstance(r, list):
        return e.alloc(LObj([Elem(wrap(e, x)) for x in r]))
    if isinstance(r, tuple):
        return tuple(wrap(e, x) for x in r)
    if isinstance(r, dict):
        return e.alloc(DObj(None, None, [(wrap(e, k), wrap(e, v)) for k, v in r.items()]))
    if isinstance(r, (set, frozenset)):
        return e.alloc(SetObj([wrap(e, x) for x in sorted(r, key=repr)]))
    return r


# ------------------------------------------------------------------ attribute dispatch
def method(e, o, name, default):
    r = NOTFOUND
    if isinstance(o, Ref):
        c = e.obj(o)
        if isinstance(c, LObj):
            r = list_method(e, o, name)
        elif isinstance(c, DObj):
            r = dict_method(e, o, name)
        elif isinstance(c, SetObj):
            if name == 'add':
                r = Builtin('set.add', lambda e, a, k: e.set_add(o, a[0]))
            elif name == 'pop' and len(c.elems) == 1:
                def spop(e, a, k):
                    x = e.obj(o).elems[0]
                    e.setobj(o, SetObj([]))
                    return x
                r = Builtin('set.pop', spop)
            elif name in ('discard', 'remove'):
                def rm(e, a, k):
                    es = [x for x in e.obj(o).elems if not e.branch(e.values_eq(x, a[0]))]
                    if name == 'remove' and len(es) == len(e.obj(o).elems):
                        e.raise_(KeyError, a[0])
                    e.setobj(o, SetObj(es))
                r = Builtin('set.' + name, rm)
            elif name == 'update':
                def up(e, a, k):
                    for x in a:
                        for y in e.concrete_iter(x):
                            e.set_add(o, y)
                r = Builtin('set.update', up)
            elif name in ('union', 'intersection', 'difference'):
                op = {'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub'}[name]

                def sop(e, a, k):
                    x = a[0]
                    if not (isinstance(x, Ref) and isinstance(e.obj(x), SetObj)):
                        s = e.alloc(SetObj())
                        for y in e.concrete_iter(x):
                            e.set_add(s, y)
                        x = s
                    return binop(e, op, o, x)
                r = Builtin('set.' + name, sop)
            elif name == 'copy':
                r = Builtin('set.copy', lambda e, a, k: e.alloc(SetObj(e.obj(o).elems)))
            elif name in ('isdisjoint', 'issubset', 'issuperset'):
                def rel(e, a, k):
                    xs, ys = e.obj(o).elems, list(e.concrete_iter(a[0]))
                    if name == 'issuperset':
                        xs, ys = ys, xs
                    for x in xs:
                        if any(e.branch(e.values_eq(x, y)) for y in ys) != (name != 'isdisjoint'):
                            return False
                    return True
                r = Builtin('set.' + name, rel)
        elif isinstance(c, IterObj):
            if name == '__next__':
                r = Builtin('iter.next', lambda e, a, k: e.builtins['next'].fn(e, [o], {}))
            elif name == '__iter__':
                r = Builtin('iter.iter', lambda e, a, k: o)
    elif isinstance(o, (str, bytes, Rope)) or (isinstance(o, Sym) and o.k in ('str', 'bytes')):
        r = str_method(e, o, name)
    elif isinstance(o, (int, float, Fraction)) or (isinstance(o, Sym) and o.k in NUM):
        if name == 'strftime':
            r = NOTFOUND
        elif name == 'bit_length' and isinstance(o, int):
            r = Builtin('int.bit_length', lambda e, a, k: o.bit_length())
    elif isinstance(o, tuple):
        if name in ('index', 'count'):
            tmp = e.alloc(LObj([Elem(x) for x in o]))
            r = list_method(e, tmp, name)
    elif isinstance(o, Builtin):
        if name == '__name__':
            r = o.name
    if r is NOTFOUND:
        if name == '__class__':
            return type_of(e, o)
        if default is not NOTSET:
            return default
        if isinstance(o, (Opaque, SV, Builtin)):
            raise Unsupported('attribute %s of %r' % (name, o))
        e.raise_(AttributeError, name)
    return r


def opaque_attr(e, o, name, default):
    if o.name == 'dict_keys' and name == '__iter__':
        return Builtin('iter', lambda e, a, k: o)
    if 'getattr' in o.attrs:
        r = o.attrs['getattr'](e, o, name)
        if r is not NOTFOUND:
            return r
    if default is not NOTSET:
        return default
    if o.attrs.get('closed_attrs'):
        e.raise_(AttributeError, name)
    raise Unsupported('attribute %s of %r' % (name, o))


def inst_builtin_attr(e, o, c, name):
    """attributes an instance inherits from builtin bases"""
    cls = c.cls
    for b in (e.mro(cls) if isinstance(cls, ClassVal) else [cls]):
        if isinstance(b, ExtClass):
            if issubclass(b.py, BaseException) and name in ('args', 'with_traceback', '__traceback__'):
                if name == 'args':
                    return ()
                return Builtin(name, lambda e, a, k: o)
            if b.py in (list, dict, str) and '\0base' in c.attrs:
                return method(e, c.attrs['\0base'], name, NOTFOUND)
    h = e.opts.get('instattr')
    if h is not None:
        return h(e, o, c, name)
    return NOTFOUND


def super_attr(e, sv, name):
    o = sv.self
    cls = sv.cls
    own = e.obj(o).cls if isinstance(o, Ref) else o
    mro = e.mro(own) if isinstance(own, ClassVal) else [cls]
    i = mro.index(cls) if cls in mro else 0
    for c in mro[i + 1:]:
        if isinstance(c, ClassVal):
            at = e.obj(c.ref).attrs
            if name in at:
                v = at[name]
                if isinstance(v, FuncVal):
                    if v.kind == 'property':
                        return e.call(Bound(v, o), [], {})
                    return Bound(v, o) if v.kind != 'static' else v
                return v
        elif isinstance(c, ExtClass):
            if name == '__init__':
                def init(e, a, k):
                    if issubclass(c.py, BaseException):
                        e.set_inst_attr(o, 'args', tuple(a))
                return Builtin('__init__', init)
            if name == '__new__':
                return Builtin('__new__', lambda e, a, k: e.alloc(IObj(a[0], {})))
    if name == '__init__':
        return Builtin('__init__', lambda e, a, k: None)
    if name == '__new__':
        return Builtin('__new__', lambda e, a, k: e.alloc(IObj(a[0], {})))
    e.raise_(AttributeError, name)


def extclass_attr(e, o, name, default):
    if o.py is str and name in ('join', 'lower', 'upper', 'strip', 'format', 'replace', 'split', 'startswith'):
        return Builtin('str.' + name, lambda e, a, k: e.call(e.getattr_(a[0], name), a[1:], k))
    if o.py is dict and name == 'fromkeys':
        def fk(e, a, k):
            r = e.alloc(DObj())
            for x in e.concrete_iter(a[0]):
                e.dict_set(r, x, a[1] if len(a) > 1 else None)
            return r
        return Builtin('fromkeys', fk)
    if o.py in (list, dict) and name in ('append', 'update', 'get', 'pop', 'extend', 'items', 'keys', 'values'):
        return Builtin(name, lambda e, a, k: e.call(e.getattr_(a[0], name), a[1:], k))
    if name == '__name__':
        return o.py.__name__
    if name == '__new__':
        return Builtin('__new__', lambda e, a, k: e.alloc(IObj(a[0], {})))
    if o.py is bytes and name == 'fromhex':
        def fh(e, a, k):
            x = e.resolve(a[0])
            if isinstance(x, str):
                return bytes.fromhex(x)
            t = e.str_term(x)
            if z3.is_app(t) and t.decl().name() == 'bytes_hex':
                return Sym('bytes', t.arg(0))
            raise Unsupported('fromhex')
        return Builtin('fromhex', fh)
    q = 'class:' + o.py.__module__ + '.' + o.py.__name__ + '.' + name
    if q in e.externals:
        return Builtin(q, lambda e, a, k: e.externals[q](e, a, k))
    if default is not NOTSET:
        return default
    if not hasattr(o.py, name):
        e.raise_(AttributeError, name)
    if o.py is object and name == '__init__':
        return Builtin('object.__init__', lambda e, a, k: None)
    raise Unsupported('attribute %s of class %s' % (name, o.py.__name__))


# ------------------------------------------------------------------ types
def type_of(e, v):
    v = e.resolve(v)
    k = e.kind(v)
    m = {'none': type(None), 'bool': bool, 'int': int, 'real': float, 'str': str, 'bytes': bytes, 'tuple': tuple,
         'list': list, 'dict': dict, 'set': set}
    if k in m:
        if k == 'real' and e.opts.get('decimal_of') is not None:
            c = e.opts['decimal_of'](e, v)
            if c is not None:
                return c
        return ExtClass(m[k])
    if k == 'obj':
        return e.obj(v).cls
    if isinstance(v, SV):
        h = e.opts.get('objtype')
        if h is not None:
            return h(e, v)
    if isinstance(v, Opaque) and 'type' in v.attrs:
        return v.attrs['type']
    if isinstance(v, (ClassVal, ExtClass)):
        return ExtClass(type)
    raise Unsupported('type of %r' % (v,))


def isinstance_(e, v, c):
    if isinstance(c, tuple):
        return any(isinstance_(e, v, x) for x in c)
    v = e.resolve(v)
    k = e.kind(v)
    m = {'none': type(None), 'bool': bool, 'int': int, 'real': float, 'str': str, 'bytes': bytes, 'tuple': tuple,
         'list': list, 'dict': dict, 'set': set}
    h = e.opts.get('isinstance')
    if h is not None:
        r = h(e, v, c)
        if r is not None:
            return r
    if k in m:
        if isinstance(c, ExtClass):
            return issubclass(m[k], c.py)
        if isinstance(c, ClassVal):
            return False
        if isinstance(c, ExtVal):
            return False
    if k == 'obj':
        cls = e.obj(v).cls
        return e.is_subclass(cls, c)
    if isinstance(v, (ClassVal, ExtClass)):
        return isinstance(c, ExtClass) and c.py in (type, object)
    if isinstance(v, (FuncVal, Bound, Builtin)):
        if isinstance(c, ExtClass):
            import types
            if c.py in (types.FunctionType,):
                return isinstance(v, FuncVal)
            return c.py is object
        return False
    if isinstance(v, SV) and isinstance(v.shape, ObjT):
        if isinstance(c, ExtClass) and c.py in (str, int, bool, float, list, dict, tuple, bytes, set, type(None)):
            return False
    if isinstance(v, Opaque):
        if 'isinstance' in v.attrs:
            return v.attrs['isinstance'](e, c)
        if isinstance(c, ExtClass) and c.py in (str, int, bool, float, list, dict, tuple, bytes, set, type(None)):
            return False
    raise Unsupported('isinstance(%r, %r)' % (v, c))


def call_extclass(e, c, a, kw):
    p = c.py
    a = [x for x in a]
    if issubclass(p, BaseException):
        return e.make_exc(c, *a)
    if p is object:
        return e.alloc(IObj(c, {}))
    if p is str:
        if not a:
            return ''
        if len(a) > 1 or 'encoding' in kw:
            return e.call(e.getattr_(a[0], 'decode'), a[1:], kw)
        return py_str(e, a[0])
    if p is bool:
        if not a:
            return False
        return mkb(e, e.truth_term(a[0]))
    if p is int:
        return to_int(e, a, kw)
    if p is float:
        return to_float(e, a)
    if p in (list, tuple):
        if not a:
            return () if p is tuple else e.alloc(LObj(()))
        if isinstance(a[0], Opaque) and '__list__' in a[0].attrs:
            return a[0].attrs['__list__'](e, p.__name__)
        segs = e.to_segs(a[0])
        if p is tuple:
            if all(isinstance(s, Elem) for s in segs):
                return tuple(s.v for s in segs)
            return e.alloc(TObj(segs))
        return e.alloc(LObj(segs))
    if p.__name__ == 'deque':
        segs = e.to_segs(a[0]) if a else []
        if kw or len(a) > 1:
            raise Unsupported('deque maxlen')
        return e.alloc(LObj(segs))
    if p is dict or p.__name__ == 'OrderedDict':
        r = e.alloc(DObj())
        for x in a:
            e.dict_update(r, x)
        for k, v in kw.items():
            e.dict_set(r, k, v)
        return r
    if p in (set, frozenset) and a and isinstance(e.resolve(a[0]), Sym) and e.resolve(a[0]).k == 'str':
        return Opaque('charset', {})
    if p in (set, frozenset):
        r = e.alloc(SetObj())
        if a:
            for x in e.concrete_iter(a[0]):
                e.set_add(r, x)
        return r
    if p is bytes:
        if not a:
            return b''
        x = e.resolve(a[0])
        if len(a) > 1:
            return e.call(e.getattr_(x, 'encode'), a[1:], kw)
        if e.kind(x) == 'bytes':
            return x
        if e.kind(x) == 'list' and all(isinstance(s, Elem) for s in e.obj(x).segs):
            parts = []
            for s in e.obj(x).segs:
                v = e.resolve(s.v)
                parts.append(bytes([v]) if isinstance(v, int) else Sym('bytes', z3.StrFromCode(e.num_term(v))))
            return e.mkrope('bytes', parts)
        if isinstance(x, int):
            return bytes(x)
        raise Unsupported('bytes()')
    if p is type:
        return type_of(e, a[0])
    q = p.__module__ + '.' + p.__name__
    if q in e.externals:
        e.assumed.add(q)
        return e.externals[q](e, a, kw)
    raise Unsupported('constructor ' + q)


def to_int(e, a, kw):
    if not a:
        return 0
    v = e.resolve(a[0])
    if len(a) > 1 or kw:
        if isinstance(v, (str, bytes)) and isinstance(a[1], int):
            try:
                return int(v, a[1])
            except ValueError:
                e.raise_(ValueError, 'int')
        raise Unsupported('int with base')
    if isinstance(v, (bool, int, float, Fraction)):
        return int(v)
    if isinstance(v, (str, bytes)):
        try:
            return int(v)
        except ValueError:
            e.raise_(ValueError, 'invalid literal for int')
    k = e.kind(v)
    if k == 'int':
        return v
    if k == 'bool':
        return e.norm(Sym('int', e.num_term(v)))
    if k == 'real':
        t = v.t
        return e.norm(Sym('int', z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))
    if k == 'str':
        t = e.str_term(v)
        if z3.is_app(t) and t.decl().name() == 'strint':
            return e.norm(Sym('int', t.arg(0)))
        if not e.branch(isint(t)):
            e.raise_(ValueError, 'invalid literal for int')
        return Sym('int', intstr(t))
    h = e.opts.get('to_int')
    if h is not None:
        r = h(e, v)
        if r is not None:
            return r
    if k in ('none', 'list', 'dict', 'tuple'):
        e.raise_(TypeError, 'int() argument')
    raise Unsupported('int of %r' % (v,))


def to_float(e, a):
    if not a:
        return 0.0
    v = e.resolve(a[0])
    if isinstance(v, (bool, int)):
        return Fraction(v)
    if isinstance(v, (float, Fraction)):
        return v
    if isinstance(v, str):
        try:
            if float(v) in (float('inf'), float('-inf')):
                return Opaque('float ' + v)
            return Fraction(float(v))
        except (ValueError, OverflowError):
            e.raise_(ValueError, 'could not convert string to float')
    k = e.kind(v)
    if k == 'real':
        return v
    if k in ('int', 'bool'):
        if e.opts['fp'] == 'round':
            return rounded(e, e.real_term(v))
        return e.norm(Sym('real', e.real_term(v)))
    if k == 'str':
        t = e.str_term(v)
        if z3.is_app(t) and t.decl().name() == 'str_of_real':
            return e.norm(Sym('real', t.arg(0)))
        if not e.branch(z3.Function('is_float_text', S, B)(t)):
            e.raise_(ValueError, 'could not convert string to float')
        return Sym('real', realstr(t))
    if k in ('none', 'list', 'dict', 'tuple'):
        e.raise_(TypeError, 'float() argument')
    raise Unsupported('float of %r' % (v,))


def instantiate_special(e, cls, a, kw):
    for b in e.mro(cls):
        if isinstance(b, ExtClass) and b.py in (list, dict, str, int, tuple, set):
            raise Unsupported('subclass of builtin ' + b.py.__name__)
    return NOTFOUND


# ------------------------------------------------------------------ builtin functions
def make_range(e, a):
    a = [e.resolve(x) for x in a]
    for x in a:
        if e.kind(x) not in ('int', 'bool'):
            e.raise_(TypeError, 'range')
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if all(isinstance(x, int) for x in (lo, hi, st)):
        return Opaque('range', {'chunks': lambda e: [('c', list(range(lo, hi, st)))] if len(range(lo, hi, st)) <= 4096 else _big(), 'range': (lo, hi, st),
                                'len': lambda e: len(range(lo, hi, st))})
    lt, ht = e.num_term(lo), e.num_term(hi)
    if st == 1:
        n = simp(z3.If(ht > lt, ht - lt, 0))
        if e.must(ht >= lt):
            n = simp(ht - lt)
        grp = lambda i: [e.norm(Sym('int', simp(lt + i)))]
    elif st == -1:
        n = simp(z3.If(lt > ht, lt - ht, 0))
        grp = lambda i: [e.norm(Sym('int', simp(lt - i)))]
    elif isinstance(st, int) and st > 1:
        n = simp(z3.If(ht > lt, (ht - lt + (st - 1)) / st, 0))
        grp = lambda i: [e.norm(Sym('int', simp(lt + i * st)))]
    else:
        raise Unsupported('range step')
    return Opaque('range', {'chunks': lambda e: [('s', n, grp)], 'range': (lo, hi, st), 'len': lambda e: e.norm(Sym('int', n))})


def _big():
    raise Unsupported('large constant range')


def group_width(e, c):
    """a constant number of values per index for an 's' chunk, or None"""
    widths = set()
    k = e.kvar()

    def run():
        e.assume(z3.And(k >= 0, k < c[1]))
        vs = c[2](k)
        return None, vs

    def onp(_, vs):
        widths.add(len(vs) if not any(isinstance(v, NestedFlat) for v in vs) else None)
    e.explore(run, onp)
    return widths.pop() if len(widths) == 1 else None


def b_enumerate(e, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    off = e.num_term(start)
    out = []
    for c in e.chunks_of(a[0]):
        if c[0] == 's':
            w = group_width(e, c)
            if w is None:
                raise Unsupported('enumerate over a variable-width part')

            def grp(i, c=c, off=off, w=w):
                return [(e.norm(Sym('int', simp(off + i * w + j))), v) for j, v in enumerate(c[2](i))]
            out.append(('s', c[1], grp))
            off = simp(off + c[1] * w)
        else:
            vals = c[1] if c[0] == 'c' else c[1]()
            res = []
            for v in vals:
                res.append((e.norm(Sym('int', off)), v))
                off = simp(off + 1)
            out.append(('c', res))
    return e.alloc(IterObj(out))


def b_zip(e, a, kw):
    chs = [list(e.chunks_of(x)) for x in a]
    if not chs:
        return e.alloc(IterObj([]))
    for q in chs:
        for i, c in enumerate(q):
            if c[0] == 'l':
                q[i] = ('c', c[1]())
    out = []
    chs = [[c for c in q if c[0] == 's' or c[1]] for q in chs]
    while all(chs):
        heads = [q[0] for q in chs]
        if all(h[0] == 'c' for h in heads):
            m = min(len(h[1]) for h in heads)
            out.append(('c', [tuple(h[1][i] for h in heads) for i in range(m)]))
            for q in chs:
                rest = q[0][1][m:]
                q[0] = ('c', rest)
                if not rest:
                    q.pop(0)
            continue
        if all(h[0] == 's' for h in heads):
            ns = [h[1] for h in heads]
            ws = [group_width(e, h) for h in heads]
            same = all(e.must(ns[0] == n) for n in ns[1:])
            if same and all(w == 1 for w in ws):
                n = ns[0]
            elif all(w == 1 for w in ws) and all(len(q) == 1 for q in chs):
                n = ns[0]
                for m_ in ns[1:]:
                    n = simp(z3.If(m_ < n, m_, n))
            elif same and len(set(ws)) == 1 and ws[0] is not None:
                n = ns[0]
            else:
                raise Unsupported('zip of differently shaped sequences')

            def grp(i, heads=heads):
                gs = [h[2](i) for h in heads]
                return [tuple(x) for x in zip(*gs)]
            out.append(('s', n, grp))
            for q in chs:
                q.pop(0)
            continue
        # mixed: a concrete run against a symbolic part: peel elements
        hs = [i for i, h in enumerate(heads) if h[0] == 's']
        m = min(len(h[1]) for h in heads if h[0] == 'c')
        row = []
        ok = True
        for i in hs:
            if group_width(e, heads[i]) != 1:
                raise Unsupported('zip of differently shaped sequences')
            if not e.branch(heads[i][1] >= 1):
                ok = False
        if not ok:
            # some symbolic part is empty: drop it and go on with what follows
            for i in hs:
                if e.must(heads[i][1] < 1):
                    chs[i].pop(0)
            continue
        row = []
        for q in chs:
            h = q[0]
            if h[0] == 's':
                row.append(h[2](z3.IntVal(0))[0])
                q[0] = ('s', simp(h[1] - 1), (lambda i, h=h: h[2](simp(i + 1))))
            else:
                row.append(h[1][0])
                q[0] = ('c', h[1][1:])
                if not q[0][1]:
                    q.pop(0)
        out.append(('c', [tuple(row)]))
    return e.alloc(IterObj(out))


def make_builtins(eng):
    b = {}

    def reg(name):
        def d(fn):
            b[name] = Builtin(name, fn)
            return fn
        return d
    for n in dir(pyb):
        o = getattr(pyb, n)
        if isinstance(o, type):
            b[n] = ExtClass(o)
    for n in ('zip', 'map', 'filter', 'enumerate', 'range', 'reversed', 'super', 'property', 'staticmethod', 'classmethod'):
        b.pop(n, None)
    b['NotImplemented'] = Opaque('NotImplemented')
    b['__name__'] = '__main__'

    @reg('len')
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, Opaque) and 'len' in v.attrs:
            return v.attrs['len'](e)
        return e.length(v)

    @reg('isinstance')
    def _(e, a, k):
        return isinstance_(e, a[0], a[1])

    @reg('issubclass')
    def _(e, a, k):
        return e.is_subclass(a[0], a[1])

    @reg('range')
    def _(e, a, k):
        return make_range(e, a)

    b['enumerate'] = Builtin('enumerate', b_enumerate)
    b['zip'] = Builtin('zip', b_zip)

    @reg('map')
    def _(e, a, k):
        if len(a) != 2:
            raise Unsupported('map')
        acc = e.alloc(LObj(()))
        cur = []
        e.for_loop(a[1], lambda v: cur.append(v), lambda: list_append(e, acc, e.call(a[0], [cur[-1]], {})))
        return acc

    @reg('filter')
    def _(e, a, k):
        acc = e.alloc(LObj(()))
        cur = []

        def body():
            v = cur[-1]
            if e.truth(v if a[0] is None else e.call(a[0], [v], {})):
                list_append(e, acc, v)
        e.for_loop(a[1], lambda v: cur.append(v), body)
        return acc

    @reg('hasattr')
    def _(e, a, k):
        r = e.getattr_(a[0], a[1], NOTFOUND)
        return r is not NOTFOUND

    @reg('getattr')
    def _(e, a, k):
        nm = e.resolve(a[1])
        if not isinstance(nm, str):
            raise Unsupported('getattr with symbolic name')
        if len(a) > 2:
            try:
                r = e.getattr_(a[0], nm, NOTFOUND)
            except PyRaise as ex:
                if e.is_subclass(e.obj(ex.val).cls, ExtClass(AttributeError)):
                    return a[2]
                raise
            return a[2] if r is NOTFOUND else r
        return e.getattr_(a[0], nm)

    @reg('setattr')
    def _(e, a, k):
        if not isinstance(a[1], str):
            raise Unsupported('setattr with symbolic name')
        e.setattr_(a[0], a[1], a[2])

    @reg('callable')
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, (FuncVal, Bound, Builtin, ClassVal, ExtClass)):
            return True
        if isinstance(v, Ref) and isinstance(e.obj(v), IObj) and isinstance(e.obj(v).cls, ClassVal):
            return e.class_lookup(e.obj(v).cls, '__call__')[0] is not UNSET
        if isinstance(v, Opaque):
            return '__call__' in v.attrs
        if isinstance(v, (ExtVal, SV)):
            raise Unsupported('callable')
        return False

    @reg('print')
    def _(e, a, k):
        return None

    @reg('repr')
    def _(e, a, k):
        return py_repr(e, a[0])

    @reg('abs')
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, (int, float, Fraction)):
            return abs(v)
        if e.kind(v) in NUM:
            t = e.num_term(v)
            return e.norm(Sym(v.k if v.k != 'bool' else 'int', z3.If(t >= 0, t, -t)))
        e.raise_(TypeError, 'abs')

    @reg('ord')
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, (str, bytes)):
            if len(v) != 1:
                e.raise_(TypeError, 'ord')
            return ord(v)
        t = e.str_term(v)
        if not e.branch(z3.Length(t) == 1):
            e.raise_(TypeError, 'ord')
        return Sym('int', z3.StrToCode(t))

    @reg('chr')
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, int):
            try:
                return chr(v)
            except (ValueError, OverflowError):
                e.raise_(ValueError, 'chr')
        t = e.num_term(v)
        if not e.branch(z3.And(t >= 0, t < 0x110000)):
            e.raise_(ValueError, 'chr')
        return Sym('str', z3.StrFromCode(t))

    def minmax(which):
        def f(e, a, k):
            if 'key' in k:
                raise Unsupported('min/max with key')
            vals = e.concrete_iter(a[0]) if len(a) == 1 else list(a)
            if not vals:
                if 'default' in k:
                    return k['default']
                e.raise_(ValueError, 'empty')
            cur = e.resolve(vals[0])
            for v in vals[1:]:
                v = e.resolve(v)
                if isinstance(cur, (int, float, Fraction)) and isinstance(v, (int, float, Fraction)):
                    cur = min(cur, v) if which == 'min' else max(cur, v)
                    continue
                c = compare(e, 'Lt' if which == 'min' else 'Gt', v, cur)
                if e.kind(cur) in NUM and e.kind(v) == e.kind(cur) and isinstance(c, Sym):
                    cur = e.norm(Sym(e.kind(cur) if e.kind(cur) != 'bool' else 'int', z3.If(c.t, e.num_term(v), e.num_term(cur))))
                elif e.truth(c):
                    cur = v
            return cur
        return f
    b['min'] = Builtin('min', minmax('min'))
    b['max'] = Builtin('max', minmax('max'))

    @reg('sum')
    def _(e, a, k):
        h = e.opts.get('sum')
        chs = e.chunks_of(a[0])
        if any(c[0] == 's' for c in chs):
            if h is not None:
                return h(e, a)
            raise Unsupported('sum over a symbolic sequence')
        r = a[1] if len(a) > 1 else 0
        for v in e.concrete_iter(e.alloc(IterObj(chs))):
            r = binop(e, 'Add', r, v)
        return r

    def quant(which):
        def f(e, a, k):
            for c in e.chunks_of(a[0]):
                test = (lambda v: e.truth_term(v)) if which == 'any' else (lambda v: _not(e.truth_term(v)))
                if c[0] == 's':
                    if flat_exists(e, c[1], c[2], test):
                        return which == 'any'
                else:
                    for v in (c[1] if c[0] == 'c' else c[1]()):
                        if isinstance(v, NestedFlat):
                            if flat_exists(e, v.f.n, lambda q, f=v.f: e.flatten_elems(e.enter_case(f, q)), test):
                                return which == 'any'
                        elif e.branch(test(v)):
                            return which == 'any'
            return which != 'any'
        return f
    b['any'] = Builtin('any', quant('any'))
    b['all'] = Builtin('all', quant('all'))

    @reg('iter')
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, Ref) and isinstance(e.obj(v), IterObj):
            return v
        return e.alloc(IterObj(e.chunks_of(v)))

    @reg('next')
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, Opaque) and '__next__' in v.attrs:
            return v.attrs['__next__'](e)
        if isinstance(v, Ref):
            o = e.obj(v)
            if isinstance(o, IterObj):
                chs = list(o.chunks)
                while chs:
                    c = chs[0]
                    if c[0] == 'l':
                        c = ('c', c[1]())
                    if c[0] == 'c':
                        if not c[1]:
                            chs.pop(0)
                            continue
                        chs[0] = ('c', c[1][1:])
                        e.setobj(v, IterObj(chs))
                        return c[1][0]
                    if group_width(e, c) != 1:
                        raise Unsupported('next on a variable-width iterator')
                    if e.branch(c[1] >= 1):
                        chs[0] = ('s', simp(c[1] - 1), (lambda i, c=c: c[2](simp(i + 1))))
                        e.setobj(v, IterObj(chs))
                        return c[2](z3.IntVal(0))[0]
                    chs.pop(0)
                e.setobj(v, IterObj([]))
                if len(a) > 1:
                    return a[1]
                e.raise_(StopIteration)
            if isinstance(o, IObj) and isinstance(o.cls, ClassVal):
                m, _ = e.class_lookup(o.cls, '__next__')
                if m is not UNSET:
                    return e.call(Bound(m, v), [], {})
            if isinstance(o, LObj):
                # generators are evaluated eagerly into lists
                if len(a) > 1 and not o.segs:
                    return a[1]
                if not e.branch(e.num_term(e.length(v)) > 0):
                    if len(a) > 1:
                        return a[1]
                    e.raise_(StopIteration)
                return list_pop(e, v, 0)
        raise Unsupported('next')

    @reg('reversed')
    def _(e, a, k):
        v = e.resolve(a[0])
        segs = e.to_segs(v)
        if all(isinstance(s, Elem) for s in segs):
            return e.alloc(LObj(segs[::-1]))
        if len(segs) == 1 and seg_single(segs[0]):
            s = segs[0]
            k2 = e.kvar()
            sub = [(s.k, s.n - 1 - k2)]
            return e.alloc(LObj([Flat(s.n, k2, [Case([z3.substitute(c, *sub) for c in cs.dec], [z3.substitute(c, *sub) for c in cs.facts],
                                                     e.subst_pay(cs.pay, sub)) for cs in s.cases])]))
        raise Unsupported('reversed')

    @reg('sorted')
    def _(e, a, k):
        v = e.concrete_iter(a[0])
        if all(isinstance(x, (int, float)) for x in v) or all(isinstance(x, str) for x in v):
            if 'key' not in k:
                return e.alloc(LObj([Elem(x) for x in sorted(v, reverse=bool(k.get('reverse', False)))]))
        if len(v) <= 1:
            return e.alloc(LObj([Elem(x) for x in v]))
        raise Unsupported('sorted')

    @reg('id')
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, Ref):
            return v.id
        raise Unsupported('id')

    @reg('round')
    def _(e, a, k):
        v = e.resolve(a[0])
        if isinstance(v, (int, float, Fraction)) and len(a) == 1:
            return round(v)
        if e.kind(v) == 'int' and len(a) == 1:
            return v
        if len(a) == 1 and e.kind(v) == 'real':
            t = v.t
            f = z3.ToInt(t)
            d = t - z3.ToReal(f)
            r = z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1)))
            return e.norm(Sym('int', r))
        if len(a) == 2 and e.kind(v) in ('real', 'int') and isinstance(e.resolve(a[1]), int) and e.resolve(a[1]) >= 0:
            if e.kind(v) == 'int':
                return v
            sc = 10 ** e.resolve(a[1])
            t = e.real_term(v) * sc
            f = z3.ToInt(t)
            d = t - z3.ToReal(f)
            r = z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1)))
            return e.norm(Sym('real', z3.ToReal(r) / sc))
        raise Unsupported('round')

    @reg('divmod')
    def _(e, a, k):
        return (binop(e, 'FloorDiv', a[0], a[1]), binop(e, 'Mod', a[0], a[1]))

    @reg('pow')
    def _(e, a, k):
        if len(a) == 2:
            return binop(e, 'Pow', a[0], a[1])
        h = e.opts.get('pow3')
        if h is not None:
            return h(e, a)
        if all(isinstance(x, int) for x in a):
            return pow(*a)
        raise Unsupported('pow')

    @reg('hash')
    def _(e, a, k):
        v = e.resolve(a[0])
        k = e.kind(v)
        if k in ('str', 'bytes') and not isinstance(v, Ref):
            # a function of the content, different contents may share it
            return Sym('int', z3.Function('py_hash_' + k, S, I)(e.str_term(v)))
        raise Unsupported('hash')

    @reg('vars')
    def _(e, a, k):
        raise Unsupported('vars')

    @reg('open')
    def _(e, a, k):
        return e.call(ExtVal('open'), a, k)

    @reg('globals')
    def _(e, a, k):
        raise Unsupported('globals')

    @reg('eval')
    def _(e, a, k):
        h = e.externals.get('eval')
        if h is None:
            raise Unsupported('eval')
        e.assumed.add('eval')
        return h(e, a, k)

    @reg('super')
    def _(e, a, k):
        return SuperVal(a[0], a[1])
    return b


def _not(t):
    return (not t) if isinstance(t, bool) else z3.Not(t)
