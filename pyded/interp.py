"""Statement and expression semantics of the verified Python subset, calls, loop summaries and invariants."""
import ast
import copy
from fractions import Fraction

import z3

from .values import *
from . import engine as E
from .engine import (Unsupported, Infeasible, PyRaise, ReturnEx, BreakEx, ContinueEx, PathEnd, CarriedRead, Budget,
                     Env, LazyVal, NestedFlat, simp, zbool, is_z3, walk_scope, Ctx, PathRes)

_scope_cache = {}


def scope_info(node):
    key = id(node)
    r = _scope_cache.get(key)
    if r is not None and r[0] is node:
        return r[1]
    loc, glb, nl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    for n in walk_scope(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.Global):
            glb.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
    loc -= glb
    loc -= nl
    _scope_cache[key] = (node, (frozenset(loc), frozenset(glb), frozenset(nl)))
    return _scope_cache[key][1]


class GenReturn(Exception):
    pass


class Interp:
    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if e.fid is not None:
                if e.is_class and not first:
                    e = e.parent
                    continue
                if name not in e.globals:
                    fr = self.st.heap[e.fid]
                    if name in fr:
                        v = fr[name]
                        if isinstance(v, Poison):
                            raise CarriedRead(v.loc)
                        if isinstance(v, Last):
                            v = self.read_last(v)
                            self._setframe(e.fid, name, v)
                        if isinstance(v, LazyVal):
                            v = self.ev(v.node, v.env)
                        return v
                    if e.locals is not None and name in e.locals and name not in e.nonlocals:
                        self.raise_(UnboundLocalError, name)
                else:
                    break
            first = False
            e = e.parent
        v = self.get_global(env.mod, name, NOTFOUND)
        if v is not NOTFOUND:
            return v
        if name in self.builtins:
            return self.builtins[name]
        self.raise_(NameError, name)

    def store_name(self, name, v, env):
        if name in env.globals:
            self._setframe(self.modframe(env.mod), name, v)
            return
        e = env
        if name in env.nonlocals:
            e = env.parent
            while e is not None and not (e.fid is not None and e.locals is not None and name in e.locals):
                e = e.parent
            if e is None:
                raise Unsupported('nonlocal ' + name)
        while e.fid is None:
            e = e.parent
        self._setframe(e.fid, name, v)

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        self.tick()
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(n).__name__)
        return m(n, env)

    def ev_Constant(self, n, env):
        if isinstance(n.value, (complex, type(Ellipsis))):
            raise Unsupported('constant')
        return n.value

    def ev_Name(self, n, env):
        return self.lookup(n.id, env)

    def ev_Tuple(self, n, env):
        return tuple(self.ev_elts(n.elts, env))

    def ev_List(self, n, env):
        segs = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                segs += self.to_segs(self.ev(x.value, env))
            else:
                segs.append(Elem(self.ev(x, env)))
        return self.alloc(LObj(segs))

    def ev_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.concrete_iter(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return out

    def to_segs(self, v):
        """list segments of an iterable"""
        v = self.resolve(v)
        if isinstance(v, (tuple, list)):
            return [Elem(x) for x in v]
        if isinstance(v, (str,)):
            return [Elem(c) for c in v]
        if isinstance(v, Ref) and isinstance(self.obj(v), LObj):
            return list(self.obj(v).segs)
        out = []
        for c in self.chunks_of(v):
            if c[0] == 'c':
                out += [Elem(x) for x in c[1]]
            elif c[0] == 'l':
                out += [Elem(x) for x in c[1]()]
            else:
                out.append(self.flat_from_chunk(c[1], c[2]))
        return out

    def flat_from_chunk(self, n, grp):
        """Flat whose group at k is [Elem] of grp(k)"""
        cases = []
        pre = set(self.st.heap)
        k = self.kvar()
        idx0 = self.st.loopidx

        def run():
            self.st.loopidx = idx0 + (k,)
            self.assume(z3.And(k >= 0, k < n))
            mark = (len(self.st.dec), len(self.st.facts))
            return mark, grp(k)

        def onp(mark, vals):
            pay = []
            for x in vals:
                if isinstance(x, NestedFlat):
                    pay.append(x.f)
                else:
                    pay.append(Elem(self.freeze(x, pre)))
            cases.append(Case(self.st.dec[mark[0]:], self.st.facts[mark[1]:], pay))
        self.explore(run, onp)
        return Flat(n, k, cases)

    def concrete_iter(self, v):
        out = []
        for c in self.chunks_of(v):
            if c[0] == 'c':
                out += c[1]
            elif c[0] == 'l':
                out += c[1]()
            else:
                raise Unsupported('symbolic-length unpacking')
        return out

    def ev_Dict(self, n, env):
        r = self.alloc(DObj())
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.resolve(self.ev(v, env))
                self.dict_update(r, src)
            else:
                kk = self.ev(k, env)
                vv = self.ev(v, env)
                self.dict_set(r, kk, vv)
        return r

    def dict_update(self, r, src):
        src = self.resolve(src)
        o = self.obj(src)
        if isinstance(o, DObj):
            t = self.obj(r)
            if not t.ents and t.base is None and not t.absent:
                self.setobj(r, DObj(o.base, o.shape, o.ents, o.absent))
                return
            for c in self.dict_items(src):
                if c[0] == 's':
                    f = self.flat_from_chunk(c[1], c[2])
                    t = self.obj(r)
                    self.setobj(r, DObj(t.base, t.shape, t.ents + (self.flat_pairs(f),), t.absent))
                else:
                    for kv in (c[1] if c[0] == 'c' else c[1]()):
                        self.dict_set(r, kv[0], kv[1])
            return
        if isinstance(o, LObj):
            for kv in self.concrete_iter(src):
                a, b = self.concrete_iter(kv)
                self.dict_set(r, a, b)
            return
        raise Unsupported('dict update')

    def flat_pairs(self, f):
        return f

    def ev_Set(self, n, env):
        r = self.alloc(SetObj())
        for x in n.elts:
            self.set_add(r, self.ev(x, env))
        return r

    def set_add(self, r, x):
        x = self.resolve(x)
        o = self.obj(r)
        for e in o.elems:
            q = self.values_eq(e, x)
            if q is True:
                return
            if q is not False and self.must(q):
                return
        self.setobj(r, SetObj(o.elems + (x,)))

    def ev_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == len(n.values) - 1:
                return v
            if self.truth(v) != is_and:
                return v
        return v

    def ev_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else self.norm(Sym('bool', z3.Not(t)))
        v = self.resolve(v)
        if isinstance(v, (int, float, Fraction)):
            if isinstance(n.op, ast.USub):
                return -v
            if isinstance(n.op, ast.UAdd):
                return +v
            return ~v
        k = self.kind(v)
        if k in ('int', 'real', 'bool'):
            t = self.num_term(v)
            if isinstance(n.op, ast.USub):
                return self.norm(Sym('int' if k == 'bool' else k, -t))
            if isinstance(n.op, ast.UAdd):
                return v
            if k != 'real':
                return self.norm(Sym('int', -t - 1))
        self.raise_(TypeError, 'bad operand type for unary')

    def ev_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.bi.binop(self, op, a, b)

    def ev_Compare(self, n, env):
        a = self.ev(n.left, env)
        res = None
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(c, env)
            r = self.compare(type(op).__name__, a, b)
            if i == len(n.ops) - 1 and res is None:
                return r
            if i == len(n.ops) - 1:
                return r
            if not self.truth(r):
                return r
            res = r
            a = b
        return res

    def compare(self, op, a, b):
        return self.bi.compare(self, op, a, b)

    def ev_IfExp(self, n, env):
        if self.opts.get('merge') and self.texts_only(n.body, env) and self.texts_only(n.orelse, env):
            # both arms are texts without effects: one path with a conditional text
            c = self.truth_term(self.ev(n.test, env))
            if not isinstance(c, bool):
                c = simp(c)
                if not (z3.is_true(c) or z3.is_false(c)):
                    return Sym('str', z3.If(c, self.str_term(self.ev(n.body, env)), self.str_term(self.ev(n.orelse, env))))
                c = z3.is_true(c)
            return self.ev(n.body if c else n.orelse, env)
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def texts_only(self, n, env):
        """an expression of text constants, local texts and +"""
        if isinstance(n, ast.Constant):
            return isinstance(n.value, str)
        if isinstance(n, ast.BinOp):
            return isinstance(n.op, ast.Add) and self.texts_only(n.left, env) and self.texts_only(n.right, env)
        if isinstance(n, ast.Name):
            v = dict(self.st.heap[env.fid]).get(n.id, UNSET)
            return isinstance(v, str) or (isinstance(v, Sym) and v.k == 'str')
        return False

    def ev_Lambda(self, n, env):
        return self.make_func(n, env, None, '<lambda>')

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def ev_JoinedStr(self, n, env):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                if x.format_spec is not None:
                    raise Unsupported('format spec')
                v = self.ev(x.value, env)
                parts.append(self.bi.py_repr(self, v) if x.conversion == 114 else self.bi.py_str(self, v))
        return self.mkrope('str', parts)

    def ev_Attribute(self, n, env):
        return self.getattr_(self.ev(n.value, env), n.attr)

    def ev_Subscript(self, n, env):
        o = self.ev(n.value, env)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, env) if n.slice.lower else None
            hi = self.ev(n.slice.upper, env) if n.slice.upper else None
            st = self.ev(n.slice.step, env) if n.slice.step else None
            return self.bi.getslice(self, o, lo, hi, st)
        return self.getitem(o, self.ev(n.slice, env))

    def getitem(self, o, k):
        return self.bi.getitem(self, o, k)

    def ev_Starred(self, n, env):
        raise Unsupported('starred')

    def ev_ListComp(self, n, env):
        h = self.opts.get('comp_hook')
        if h is not None:
            r = h(self, n, env)
            if r is not NotImplemented:
                return r
        acc = self.alloc(LObj(()))
        self.comp(n.generators, 0, env, lambda e: self.bi.list_append(self, acc, self.ev(n.elt, e)), n)
        return acc

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, n, env):
        acc = self.alloc(LObj(()))
        self.comp(n.generators, 0, env, lambda e: self.bi.list_append(self, acc, self.ev(n.elt, e)), n)
        r = self.alloc(SetObj())
        for x in self.concrete_iter(acc):
            self.set_add(r, x)
        return r

    def ev_DictComp(self, n, env):
        acc = self.alloc(DObj())
        self.comp(n.generators, 0, env,
                  lambda e: self.dict_set(acc, self.ev(n.key, e), self.ev(n.value, e)), n)
        return acc

    def comp(self, gens, i, env, emit, node):
        g = gens[i]
        if i == 0:
            names = set()
            for gg in gens:
                for x in ast.walk(gg.target):
                    if isinstance(x, ast.Name):
                        names.add(x.id)
            it = self.ev(g.iter, env)
            fid = self.alloc(FrameObj()).id
            cenv = Env(env.mod, env, fid, locals_=frozenset(names), func=env.func, cls=env.cls)
        else:
            cenv = env
            it = self.ev(g.iter, env)

        def body():
            for c in g.ifs:
                if not self.truth(self.ev(c, cenv)):
                    return
            if i + 1 < len(gens):
                self.comp(gens, i + 1, cenv, emit, node)
            else:
                emit(cenv)
        self.for_loop(it, lambda v: self.assign(g.target, v, cenv), body)

    def ev_Yield(self, n, env):
        e = env
        v = self.ev(n.value, env) if n.value is not None else None
        self.bi.list_append(self, self.gen_list(env), v)
        return None

    def ev_YieldFrom(self, n, env):
        it = self.ev(n.value, env)
        gl = self.gen_list(env)
        self.bi.list_extend(self, gl, it)
        return None

    def gen_list(self, env):
        e = env
        while e is not None:
            if e.fid is not None and '\0gen' in self.st.heap[e.fid]:
                return self.st.heap[e.fid]['\0gen']
            e = e.parent
        raise Unsupported('yield')

    def ev_Await(self, n, env):
        return self.ev(n.value, env)

    def ev_Call(self, n, env):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            e = env
            while e is not None and e.cls is None:
                e = e.parent
            if e is None:
                raise Unsupported('super()')
            return SuperVal(e.cls, e.self_)
        if isinstance(n.func, ast.Name) and n.func.id == 'locals':
            raise Unsupported('locals()')
        f = self.ev(n.func, env)
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                v = self.resolve(self.ev(x.value, env))
                args += self.concrete_iter(v)
            else:
                args.append(self.ev(x, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.resolve(self.ev(k.value, env))
                for c in self.dict_items(d):
                    if c[0] == 's':
                        raise Unsupported('** of a symbolic dict')
                    for kk, vv in (c[1] if c[0] == 'c' else c[1]()):
                        if not isinstance(kk, str):
                            raise Unsupported('** with symbolic key')
                        kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)

    # ------------------------------------------------------------ attributes
    def getattr_(self, o, name, default=NOTSET):
        o = self.resolve(o) if not isinstance(o, SV) or o.shape is None or not isinstance(o.shape, ObjT) else o
        if isinstance(o, ModVal):
            info = self.module(o.name)
            v = self.get_global(o.name, name, NOTFOUND)
            if v is NOTFOUND:
                if name in ('__name__',):
                    return o.name
                if default is not NOTSET:
                    return default
                self.raise_(AttributeError, name)
            return v
        if isinstance(o, ExtVal):
            return self.ext(o.name + '.' + name)
        if isinstance(o, SuperVal):
            return self.bi.super_attr(self, o, name)
        if isinstance(o, ClassVal):
            if name == '__name__':
                return o.name
            if name == '__mro__':
                return tuple(self.mro(o))
            v, c = self.class_lookup(o, name)
            if v is UNSET:
                if name == '__doc__':
                    return None
                if default is not NOTSET:
                    return default
                self.raise_(AttributeError, name)
            if isinstance(v, FuncVal) and v.kind == 'class':
                return Bound(v, o)
            return v
        if isinstance(o, Ref):
            c = self.obj(o)
            if isinstance(c, IObj):
                return self.inst_attr(o, c, name, default)
            return self.bi.method(self, o, name, default)
        if isinstance(o, Opaque):
            if name in o.attrs:
                return o.attrs[name]
            return self.bi.opaque_attr(self, o, name, default)
        if isinstance(o, SV):
            h = self.opts.get('objattr')
            if h is not None:
                return h(self, o, name)
            raise Unsupported('attribute %s of opaque object' % name)
        if isinstance(o, FuncVal):
            if name == '__name__':
                return o.name
            if name == '__doc__':
                return None
            if default is not NOTSET:
                return default
            raise Unsupported('function attribute ' + name)
        if isinstance(o, ExtClass):
            return self.bi.extclass_attr(self, o, name, default)
        return self.bi.method(self, o, name, default)

    def inst_attr(self, o, c, name, default=NOTSET):
        cls = c.cls
        v, owner = (UNSET, None)
        if isinstance(cls, ClassVal):
            v, owner = self.class_lookup(cls, name)
        if v is not UNSET and isinstance(v, FuncVal) and v.kind == 'property':
            return self.call(Bound(v, o), [], {})
        if name in c.attrs:
            x = c.attrs[name]
            if isinstance(x, Poison):
                raise CarriedRead(x.loc)
            if isinstance(x, Last):
                x = self.read_last(x)
                self.set_inst_attr(o, name, x)
            return x
        if v is not UNSET:
            if isinstance(v, FuncVal):
                if v.kind == 'static':
                    return v
                if v.kind == 'class':
                    return Bound(v, cls)
                return Bound(v, o)
            if isinstance(v, Builtin) or isinstance(v, Bound):
                return v
            return v
        if name == '__class__':
            return cls
        if name == '__getattribute__':
            return Builtin(name, lambda e, a, k: e.getattr_(o, a[0]))
        if name == '__dict__':
            raise Unsupported('__dict__')
        r = self.bi.inst_builtin_attr(self, o, c, name)
        if r is not NOTFOUND:
            return r
        if isinstance(cls, ClassVal):
            g, _ = self.class_lookup(cls, '__getattr__')
            if g is not UNSET:
                return self.call(Bound(g, o), [name], {})
        if default is not NOTSET:
            return default
        self.raise_(AttributeError, name)

    def set_inst_attr(self, o, name, v):
        c = self.obj(o)
        at = dict(c.attrs)
        at[name] = v
        self.setobj(o, IObj(c.cls, at))

    def setattr_(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, Ref) and isinstance(self.obj(o), IObj):
            c = self.obj(o)
            if isinstance(c.cls, ClassVal):
                s, _ = self.class_lookup(c.cls, name + '@setter')
                if s is not UNSET:
                    self.call(Bound(s, o), [v], {})
                    return
                p, _ = self.class_lookup(c.cls, name)
                if isinstance(p, FuncVal) and p.kind == 'property':
                    self.raise_(AttributeError, name)
                sa, _ = self.class_lookup(c.cls, '__setattr__')
                if sa is not UNSET:
                    raise Unsupported('__setattr__')
            self.set_inst_attr(o, name, v)
            return
        if isinstance(o, ClassVal):
            self.set_inst_attr(o.ref, name, v)
            return
        if isinstance(o, ModVal):
            self._setframe(self.modframe(o.name), name, v)
            return
        if isinstance(o, Opaque):
            h = o.attrs.get('__setattr__')
            if h is not None:
                return h(self, name, v)
        if isinstance(o, SV):
            h = self.opts.get('objsetattr')
            if h is not None:
                return h(self, o, name, v)
        raise Unsupported('attribute store on %r' % (o,))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(t.slice, ast.Slice):
                lo = self.ev(t.slice.lower, env) if t.slice.lower else None
                hi = self.ev(t.slice.upper, env) if t.slice.upper else None
                if t.slice.step is not None:
                    raise Unsupported('step slice store')
                self.bi.setslice(self, o, lo, hi, v)
            else:
                self.bi.setitem(self, o, self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                vals = self.concrete_iter(v)
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    self.raise_(ValueError, 'not enough values to unpack')
                for x, y in zip(t.elts[:i], vals[:i]):
                    self.assign(x, y, env)
                mid = vals[i:len(vals) - after]
                self.assign(t.elts[i].value, self.alloc(LObj([Elem(x) for x in mid])), env)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(x, y, env)
                return
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        v = self.resolve(v)
        if isinstance(v, Ref) and isinstance(self.obj(v), LObj) and not all(isinstance(s, Elem) for s in self.obj(v).segs):
            ln = self.length(v)
            if not self.branch(self.num_term(ln) == n):
                self.raise_(ValueError, 'unpack')
            return [self.getitem(v, i) for i in range(n)]
        vals = self.concrete_iter(v)
        if len(vals) != n:
            self.raise_(ValueError, 'unpack')
        return vals

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body:
            self.ex(s, env)

    def ex(self, s, env):
        self.tick()
        m = getattr(self, 'ex_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        m(s, env)

    def ex_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def ex_Pass(self, s, env):
        pass

    def ex_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def ex_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def ex_AugAssign(self, s, env):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            self.store_name(t.id, self.augop(op, old, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.augop(op, old, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            old = self.getitem(o, k)
            self.bi.setitem(self, o, k, self.augop(op, old, self.ev(s.value, env)))
        else:
            raise Unsupported('augmented target')

    def augop(self, op, old, v):
        old = self.resolve(old)
        if op == 'Add' and isinstance(old, Ref) and isinstance(self.obj(old), LObj) and not isinstance(self.obj(old), TObj):
            self.bi.list_extend(self, old, v)
            return old
        return self.binop(op, old, v)

    def ex_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def ex_Return(self, s, env):
        raise ReturnEx(self.ev(s.value, env) if s.value is not None else None)

    def ex_Raise(self, s, env):
        if s.exc is None:
            cur = self.st.ghost.get('handling')
            if cur is None:
                self.raise_(RuntimeError, 'No active exception')
            raise PyRaise(cur)
        v = self.ev(s.exc, env)
        if s.cause is not None:
            self.ev(s.cause, env)
        if isinstance(v, (ClassVal, ExtClass, ExtVal)):
            v = self.call(v, [], {})
        raise PyRaise(v)

    def ex_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.raise_(AssertionError)

    def ex_Break(self, s, env):
        raise BreakEx()

    def ex_Continue(self, s, env):
        raise ContinueEx()

    def ex_Global(self, s, env):
        pass

    ex_Nonlocal = ex_Global

    def ex_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.resolve(self.ev(t.value, env))
                if isinstance(t.slice, ast.Slice):
                    lo = self.ev(t.slice.lower, env) if t.slice.lower else None
                    hi = self.ev(t.slice.upper, env) if t.slice.upper else None
                    self.bi.setslice(self, o, lo, hi, ())
                    continue
                self.bi.delitem(self, o, self.ev(t.slice, env))
            elif isinstance(t, ast.Name):
                e = env
                fr = FrameObj(self.st.heap[e.fid])
                if t.id not in fr:
                    self.raise_(UnboundLocalError, t.id)
                del fr[t.id]
                self.st.heap[e.fid] = fr
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                c = self.obj(o)
                at = dict(c.attrs)
                if t.attr not in at:
                    self.raise_(AttributeError, t.attr)
                del at[t.attr]
                self.setobj(o, IObj(c.cls, at))
            else:
                raise Unsupported('delete')

    def ex_FunctionDef(self, s, env):
        qual = (env.func + '.<locals>.' if env.func else '') + s.name
        f = self.make_func(s, env, None, qual)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), [v], {})
        self.store_name(s.name, v, env)

    def ex_ClassDef(self, s, env):
        self.store_name(s.name, self.make_class(s, env, s.name), env)

    def ex_Import(self, s, env):
        info = self.module(env.mod)
        for a in s.names:
            self.store_name(a.asname or a.name.split('.')[0], self.import_value(info, s, a), env)

    def ex_ImportFrom(self, s, env):
        info = self.module(env.mod)
        for a in s.names:
            if a.name == '*':
                raise Unsupported('import *')
            self.store_name(a.asname or a.name, self.import_value(info, s, a), env)

    def ex_Try(self, s, env):
        def core():
            try:
                self.try_depth += 1 if s.handlers else 0
                try:
                    self.exec_block(s.body, env)
                finally:
                    self.try_depth -= 1 if s.handlers else 0
            except PyRaise as e:
                exc = e.val
                for h in s.handlers:
                    if h.type is None or self.exc_matches(exc, self.ev(h.type, env)):
                        saved = self.st.ghost.get('handling')
                        self.setghost('handling', exc)
                        if h.name:
                            self.store_name(h.name, exc, env)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.setghost('handling', saved)
                        if h.name and h.name in self.st.heap.get(env.fid, {}):
                            fr = FrameObj(self.st.heap[env.fid])
                            fr.pop(h.name, None)
                            self.st.heap[env.fid] = fr
                        return
                raise
            else:
                self.exec_block(s.orelse, env)
        if not s.finalbody:
            core()
            return
        try:
            core()
        except (PyRaise, ReturnEx, BreakEx, ContinueEx) as e:
            self.exec_block(s.finalbody, env)
            raise e
        self.exec_block(s.finalbody, env)

    def setghost(self, k, v):
        g = dict(self.st.ghost)
        g[k] = v
        self.st.ghost = g

    def exc_matches(self, exc, t):
        if isinstance(t, tuple):
            # may fork on opaque classes
            for x in t:
                if self.exc_matches(exc, x):
                    return True
            return False
        if isinstance(exc, Ref):
            c = self.obj(exc).cls
        else:
            raise Unsupported('exception value')
        h = self.opts.get('exc_match')
        if h is not None:
            r = h(self, c, t)
            if r is not None:
                return r
        return self.is_subclass(c, t)

    def ex_With(self, s, env):
        def rec(i):
            if i == len(s.items):
                self.exec_block(s.body, env)
                return
            it = s.items[i]
            cm = self.ev(it.context_expr, env)
            v = self.call(self.getattr_(cm, '__enter__'), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            ex = self.getattr_(cm, '__exit__')
            try:
                rec(i + 1)
            except PyRaise as e:
                r = self.call(ex, [self.obj(e.val).cls, e.val, None], {})
                if self.truth(r):
                    return
                raise
            except (ReturnEx, BreakEx, ContinueEx):
                self.call(ex, [None, None, None], {})
                raise
            self.call(ex, [None, None, None], {})
        rec(0)

    # ------------------------------------------------------------ loops
    def ex_For(self, s, env):
        it = self.ev(s.iter, env)
        h = self.opts.get('for_inv')
        if h is not None and h(self, it, lambda v: self.assign(s.target, v, env), lambda: self.body_once(s.body, env), env):
            return
        broke = self.for_loop(it, lambda v: self.assign(s.target, v, env), lambda: self.exec_block(s.body, env))
        if not broke:
            self.exec_block(s.orelse, env)

    def body_once(self, body, env):
        """one iteration, for a loop decided by its contract"""
        try:
            self.exec_block(body, env)
        except ContinueEx:
            pass
        except BreakEx:
            raise Unsupported('break in a loop under contract')

    def for_loop(self, it, bind, body):
        """returns True when left by break"""
        if self.watch is not None and 'live' in self.opts:
            v = self.resolve(it)
            v = v.attrs['dict'] if isinstance(v, Opaque) and 'dict' in v.attrs else v
            o = self.obj(v) if isinstance(v, Ref) else None
            if isinstance(o, DObj) and o.base is not None and self.is_view(v.id, o):
                if self.root_of(o) in self.st.roots:
                    self.opts['live'](self, o)
        for c in self.chunks_of(it):
            if c[0] == 's':
                if self.sym_for(c[1], c[2], bind, body):
                    return True
            else:
                for v in (c[1] if c[0] == 'c' else c[1]()):
                    if isinstance(v, NestedFlat):
                        if self.sym_for(v.f.n, lambda i, f=v.f: self.flatten_elems(self.enter_case(f, i)), bind, body):
                            return True
                        continue
                    bind(v)
                    try:
                        body()
                    except BreakEx:
                        return True
                    except ContinueEx:
                        pass
        return False

    def run_group(self, vals, bind, body):
        """one index of a symbolic sequence: each value through the body; returns 'ok' or 'break'"""
        for v in vals:
            if isinstance(v, NestedFlat):
                if self.sym_for(v.f.n, lambda i, f=v.f: self.flatten_elems(self.enter_case(f, i)), bind, body):
                    return 'break'
                continue
            bind(v)
            try:
                body()
            except BreakEx:
                return 'break'
            except ContinueEx:
                pass
        return 'ok'

    def sym_for(self, n, grp, bind, body):
        """summary of a loop over 0..n-1; True when the path leaves by break"""
        n = simp(n)
        if self.must(n <= 0):
            return False
        mx = self.opts.get('small_unroll')
        plan = {}
        for rnd in range(24):
            try:
                res = self.loop_round(n, grp, bind, body, plan)
            except LoopRetry:
                continue
            if res is not None:
                break
        else:
            raise Unsupported('loop summary does not stabilise')
        cases, exits, k, pre, base = res
        drop = exits and self.opts.get('drop_raise') and not self.try_depth and \
            all(isinstance(x[0], PyRaise) for x in exits)
        if drop:
            # only completed runs matter to this task: a raising iteration ends the run
            self.install_after(plan, pre, n, cases, k)
            self.normal_before(cases, k, n)
            return False
        if exits:
            # leave early at some iteration, or complete
            i = self.choose([True, True])
            if i == 1:
                k0 = self.fresh(I, 'brk')
                self.assume(z3.And(k0 >= 0, k0 < n))
                self.install(plan, pre, k0, cases, k, None)
                self.normal_before(cases, k, k0)
                vals = grp(k0)
                r = self.run_group(vals, bind, body)
                if r == 'break':
                    return True
                raise Infeasible()
        self.install_after(plan, pre, n, cases, k)
        if exits:
            self.normal_before(cases, k, n)
        return False

    def normal_before(self, cases, k, bound):
        """every index below bound took one of the normal cases"""
        if not cases:
            self.assume(bound <= 0)
            return
        ds = []
        for c in cases:
            ds.append(z3.And(*c.dec) if c.dec else z3.BoolVal(True))
        d = simp(z3.Or(*ds))
        if z3.is_true(d):
            return
        self.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < bound), d)), branch=not self.opts.get('drop_raise'))

    def loop_round(self, n, grp, bind, body, plan):
        """explore one generic iteration under plan; returns None/retry when plan grew"""
        base = self.snapshot()
        pre = base
        k = self.kvar()
        idx0 = self.st.loopidx
        cases = []
        exits = []
        obl0 = len(self.obligations)
        grew = [False]
        b0 = len(base.dec)

        def run():
            self.st.loopidx = idx0 + (k,)
            self.assume(z3.And(k >= 0, k < n))
            f0 = len(self.st.facts)
            self.install(plan, pre, k, None, k, 'generic')
            mark = (len(self.st.dec), len(self.st.facts))
            memo0 = dict(self.st.memo)
            heap0 = dict(self.st.heap)
            try:
                r = self.run_group(grp(k), bind, body)
            except (ReturnEx, PyRaise, BreakEx) as e:
                return 'exit', (e, mark)
            except CarriedRead as cr:
                if cr.loc in plan and plan[cr.loc][0] in ('poison', 'acc'):
                    self.promote(plan, cr.loc, pre)
                    raise LoopRetry()
                raise
            if r == 'break':
                return 'exit', ('break', mark)
            self.check_elem_mutation(memo0)
            return 'ok', (mark, heap0)

        ids0 = set(base.heap)

        def onp(kind, val):
            if kind == 'exit':
                exits.append(val)
                return
            mark, heap0 = val
            diff = self.loop_diff(heap0, ids0, plan, pre)
            if diff:
                grew[0] = True
                for loc, kind_ in diff.items():
                    plan[loc] = kind_
                raise LoopRetry()
            pay = self.payloads(plan, pre, ids0)
            cases.append(Case(self.st.dec[mark[0]:], self.st.facts[mark[1]:], pay))
        try:
            self.explore(run, onp)
        except LoopRetry:
            self.restore_to(base)
            del self.obligations[obl0:]
            raise
        # check carried updates
        ok = self.check_carried(plan, pre, cases, k, base)
        if not ok:
            self.restore_to(base)
            del self.obligations[obl0:]
            raise LoopRetry()
        return cases, exits, k, pre, base

    def restore_to(self, base):
        c = self.st.counter
        self.restore(base)
        self.st.counter = max(c, self.st.counter)

    def check_elem_mutation(self, memo0):
        for key, m in self.st.memo.items():
            if m is None or key in memo0 and memo0[key] is m:
                continue
            if len(m) > 1 and m[1] is not None and isinstance(m[0], Ref):
                if self.st.heap.get(m[0].id) is not m[1] and not isinstance(self.st.heap.get(m[0].id), IterObj):
                    raise Unsupported('in-place update of an element of a symbolic sequence')

    def loop_diff(self, heap0, ids0, plan, pre):
        """locations of pre-existing objects changed by this path and not yet in the plan"""
        out = {}
        for i in ids0:
            a, b = heap0.get(i), self.st.heap.get(i)
            if a is b:
                continue
            if isinstance(a, FrameObj):
                for x in b:
                    if x not in a:
                        if isinstance(i, tuple) and i[0] == 'm':
                            continue          # lazily evaluated module binding
                        if ('f', i, x) not in plan:
                            out[('f', i, x)] = ('poison', None)
                    elif a[x] is not b[x] and not (isinstance(a[x], (int, str, bool)) and type(a[x]) is type(b[x]) and a[x] == b[x]):
                        if isinstance(a[x], LazyVal):
                            continue
                        if ('f', i, x) not in plan:
                            out[('f', i, x)] = ('poison', None)
                for x in a:
                    if x not in b and ('f', i, x) not in plan:
                        out[('f', i, x)] = ('poison', None)
            elif isinstance(a, IObj):
                for x in set(a.attrs) | set(b.attrs):
                    va, vb = a.attrs.get(x, UNSET), b.attrs.get(x, UNSET)
                    if va is vb or isinstance(va, LazyVal):
                        continue
                    if isinstance(va, (int, str, bool)) and type(va) is type(vb) and va == vb:
                        continue
                    if ('a', i, x) not in plan:
                        out[('a', i, x)] = ('poison', None)
            elif isinstance(a, (LObj, DObj)):
                if ('o', i) not in plan:
                    out[('o', i)] = ('acc', None)
            elif isinstance(a, IterObj):
                raise Unsupported('iterator consumed inside a loop')
            elif isinstance(a, SetObj):
                raise Unsupported('set built in a loop')
            else:
                raise Unsupported('loop modifies %s' % type(a).__name__)
        return out

    def get_loc(self, heap, loc):
        if loc[0] == 'f':
            return heap[loc[1]].get(loc[2], UNSET)
        if loc[0] == 'a':
            return heap[loc[1]].attrs.get(loc[2], UNSET)
        return heap[loc[1]]

    def set_loc(self, loc, v):
        if loc[0] == 'f':
            fr = FrameObj(self.st.heap[loc[1]])
            if v is UNSET:
                fr.pop(loc[2], None)
            else:
                fr[loc[2]] = v
            self.st.heap[loc[1]] = fr
        elif loc[0] == 'a':
            o = self.st.heap[loc[1]]
            at = dict(o.attrs)
            if v is UNSET:
                at.pop(loc[2], None)
            else:
                at[loc[2]] = v
            self.st.heap[loc[1]] = IObj(o.cls, at)
        else:
            self.st.heap[loc[1]] = v

    def promote(self, plan, loc, pre):
        """the generic iteration reads what earlier iterations left in loc"""
        kind = plan[loc][0]
        if kind == 'poison':
            init = self.get_loc(pre.heap, loc)
            k = self.kind(init) if not isinstance(init, (SV, Last, Poison)) and init is not UNSET else None
            if isinstance(init, bool):
                plan[loc] = ('havoc', 'bool')
            elif k in ('int',):
                plan[loc] = ('count', None)
            elif k in ('str', 'bytes'):
                plan[loc] = ('straccum', None)
            elif k in ('real', 'bool'):
                plan[loc] = ('havoc', k)
            elif init is None or isinstance(init, SV):
                plan[loc] = ('havoc', 'any')
            elif isinstance(init, Ref) and isinstance(self.st.heap.get(init.id), LObj):
                plan[loc] = ('listvar', None)
            else:
                raise Unsupported('loop-carried %s' % (type(init).__name__,))
        else:
            o = self.get_loc(pre.heap, loc)
            if isinstance(o, LObj):
                plan[loc] = ('havoclist', None)
            else:
                plan[loc] = ('havocdict', None)

    def install(self, plan, pre, k, cases, kv, mode):
        """put the state before iteration k into the heap.  mode 'generic': markers; None: exact prefix (cases given)"""
        for loc, (kind, extra) in plan.items():
            init = self.get_loc(pre.heap, loc)
            if kind == 'acc':
                if cases is None:
                    a = Acc(id(plan), loc)
                    if isinstance(init, DObj):
                        self.set_loc(loc, DObj(init.base, init.shape, init.ents + (a,), init.absent))
                    else:
                        self.set_loc(loc, type(init)(init.segs + (a,), init.shape, None))
                else:
                    self.set_loc(loc, self.accumulated(init, k, kv, cases, loc))
            elif kind == 'poison':
                if cases is None:
                    self.set_loc(loc, Poison(loc))
                elif all(c.pay[loc] is UNCHANGED for c in cases):
                    self.set_loc(loc, init)
                else:
                    self.set_loc(loc, self.last_of(loc, k, kv, cases, init))
            elif kind == 'count':
                c = extra if extra is not None else self.fresh(I, 'step')
                if extra is None:
                    # unknown step: generic integer
                    g = self.fresh(I, 'cnt')
                    self.set_loc(loc, Sym('int', g))
                    st = self.st.ghost.get('carr', {})
                    st = dict(st)
                    st[loc] = g
                    self.setghost('carr', st)
                else:
                    self.set_loc(loc, self.norm(Sym('int', self.num_term(init) + c * k)))
            elif kind == 'straccum':
                if cases is None:
                    self.set_loc(loc, self.mkrope(self.kind(init), [init, Acc(id(plan), loc)]))
                else:
                    f = self.flat_payload(loc, k, kv, cases)
                    self.set_loc(loc, self.mkrope(self.kind(init), [init, f]))
            elif kind == 'havoc':
                self.flag('abstract')
                if extra == 'any':
                    v = SV(self.fresh(V, 'hav'))
                else:
                    v = self.fresh_sym(extra, 'hav')
                self.set_loc(loc, v)
            elif kind == 'havoclist':
                self.flag('abstract')
                r = self.list_of_V(self.fresh(V, 'havl'), AnyT)
                self.set_loc(loc, self.obj(r))
            elif kind == 'havocdict':
                self.flag('abstract')
                t = self.fresh(V, 'havd')
                self.assume(V.is_VDict(t))
                self.assume(dlen(t) >= 0)
                self.set_loc(loc, DObj(t, MapT(AnyT)))
            elif kind == 'listvar':
                self.flag('abstract')
                r = self.list_of_V(self.fresh(V, 'havl'), AnyT)
                self.set_loc(loc, r)
            else:
                raise Unsupported('plan ' + kind)

    def install_after(self, plan, pre, n, cases, k):
        self.install(plan, pre, n, cases, k, None)

    def flat_payload(self, loc, n, k, cases):
        return Flat(n, k, [Case(c.dec, c.facts, c.pay[loc]) for c in cases])

    def accumulated(self, init, n, k, cases, loc):
        f = self.flat_payload(loc, n, k, cases)
        if all(len(c.pay) == 0 for c in f.cases):
            return init
        if isinstance(init, DObj):
            return DObj(init.base, init.shape, init.ents + (f,), init.absent)
        return type(init)(init.segs + (f,), init.shape, None)

    def last_of(self, loc, n, k, cases, before):
        return Last(n, k, [Case(c.dec, c.facts, c.pay[loc]) for c in cases], before)

    def payloads(self, plan, pre, ids0):
        """what this iteration contributes to every planned location (frozen)"""
        out = {}
        for loc, (kind, extra) in plan.items():
            cur = self.get_loc(self.st.heap, loc)
            init = self.get_loc(pre.heap, loc)
            if kind == 'acc':
                if isinstance(init, DObj):
                    old = init.ents + (Acc(id(plan), loc),)
                    if cur.ents[:len(old)] != old or cur.base is not init.base or cur.absent != init.absent:
                        plan[loc] = ('havocdict', None)
                        raise LoopRetry()
                    out[loc] = [self.freeze_pair(e, ids0) for e in cur.ents[len(old):]]
                else:
                    old = init.segs + (Acc(id(plan), loc),)
                    if cur.segs[:len(old)] != old:
                        plan[loc] = ('havoclist', None)
                        raise LoopRetry()
                    out[loc] = [self.freeze_seg(s, ids0) for s in cur.segs[len(old):]]
            elif kind == 'poison':
                if isinstance(cur, Poison):
                    out[loc] = UNCHANGED
                else:
                    try:
                        out[loc] = self.freeze(cur, ids0) if cur is not UNSET else UNSETV
                    except Unsupported:
                        out[loc] = OPAQUE
            elif kind == 'count':
                if extra is None:
                    g = self.st.ghost['carr'][loc]
                    cv = self.resolve(cur)
                    if self.kind(cv) not in ('int', 'bool'):
                        plan[loc] = ('havoc', 'any')
                        raise LoopRetry()
                    d = simp(self.num_term(cv) - g)
                    out[loc] = ('delta', d)
                else:
                    out[loc] = ('val', self.num_term(self.resolve(cur)))
            elif kind == 'straccum':
                ini = self.mkrope(self.kind(init), [init, Acc(id(plan), loc)])
                if isinstance(cur, Rope) and cur.segs[:len(ini.segs)] == ini.segs:
                    rest = cur.segs[len(ini.segs):]
                    out[loc] = [s for s in rest]
                else:
                    plan[loc] = ('havoc', self.kind(init))
                    raise LoopRetry()
            else:
                out[loc] = None
        return out

    def freeze_pair(self, e, ids0):
        if isinstance(e, tuple):
            return Elem(FFrozen('tuple', [self.freeze(e[0], ids0), self.freeze(e[1], ids0)]))
        return self.freeze_seg(e, ids0)

    def check_carried(self, plan, pre, cases, k, base):
        ok = True
        for loc, (kind, extra) in list(plan.items()):
            if kind == 'count' and extra is None:
                ds = [c.pay[loc][1] for c in cases]
                if ds and all(z3.is_int_value(d) for d in ds) and len({d.as_long() for d in ds}) == 1:
                    plan[loc] = ('count', ds[0])
                elif ds and all(d.eq(ds[0]) for d in ds) and not mentions(ds[0], k) and not has_fresh(ds[0], self, base):
                    plan[loc] = ('count', ds[0])
                else:
                    plan[loc] = ('havoc', 'int')
                ok = False
            elif kind == 'count':
                init = self.get_loc(pre.heap, loc)
                for c in cases:
                    want = self.num_term(init) + extra * (k + 1)
                    if not z3.is_true(simp(c.pay[loc][1] == want)):
                        plan[loc] = ('havoc', 'int')
                        return False
        return ok

    # ------------------------------------------------------------ while
    def ex_While(self, s, env):
        h = self.opts.get('while_loop')
        if h is not None and h(self, s, env, lambda: self.truth(self.ev(s.test, env)), lambda: self.exec_block(s.body, env)):
            return
        broke = False
        unroll = 0
        limit = self.opts['unroll_while']
        while True:
            c = self.truth_term(self.ev(s.test, env))
            if c is False or (c is not True and self.must(z3.Not(c))):
                break
            if c is True and self.opts.get('gen_while') and unroll >= self.opts['gen_while']:
                raise ReturnEx(None)
            if c is not True and self.opts.get('while_split'):
                if not self.branch(c):
                    break
                if unroll >= self.opts['while_split']:
                    raise Unsupported('loop bound')
            elif c is not True and not self.must(c):
                # symbolic condition: cut the loop
                broke = self.sym_while(s, env)
                if broke:
                    return
                break
            unroll += 1
            if unroll > limit:
                broke = self.sym_while(s, env)
                if broke:
                    return
                break
            try:
                self.exec_block(s.body, env)
            except BreakEx:
                return
            except ContinueEx:
                pass
        self.exec_block(s.orelse, env)

    def sym_while(self, s, env):
        """cut a while loop with template invariants (Houdini); True when left by break"""
        base = self.snapshot()
        mod = {}
        b = base
        # 1. modified locations, to a fixpoint
        for rnd in range(8):
            grew = [False]
            obl0 = len(self.obligations)

            def run():
                self.havoc_locs(mod, base)
                try:
                    if not self.truth(self.ev(s.test, env)):
                        raise PathEnd()
                    self.exec_block(s.body, env)
                except ContinueEx:
                    pass
                except (ReturnEx, PyRaise, BreakEx):
                    raise PathEnd()
                return 'ok', None

            def onp(kind, val):
                d = self.loop_diff(base.heap, set(base.heap), mod, base)
                for loc in d:
                    if loc not in mod:
                        mod[loc] = ('w', self.get_loc(self.st.heap, loc))
                        grew[0] = True
            self.explore(run, onp)
            del self.obligations[obl0:]
            if not grew[0]:
                break
        # 2. candidate invariants
        cands = self.while_candidates(mod, base)
        for rnd in range(12):
            bad = set()
            obl0 = len(self.obligations)

            def run2():
                self.havoc_locs(mod, base)
                for c in cands:
                    self.assume(zbool(c(self)))
                try:
                    if not self.truth(self.ev(s.test, env)):
                        raise PathEnd()
                    self.exec_block(s.body, env)
                except ContinueEx:
                    pass
                except (ReturnEx, PyRaise, BreakEx):
                    raise PathEnd()
                return 'ok', None

            def onp2(kind, val):
                for c in cands:
                    if c not in bad:
                        try:
                            okk = self.must(zbool(c(self)))
                        except Unsupported:
                            okk = False
                        if not okk:
                            bad.add(c)
            self.explore(run2, onp2)
            del self.obligations[obl0:]
            if not bad:
                break
            cands = [c for c in cands if c not in bad]
        else:
            cands = []
        # 3. continue after the loop from an arbitrary invariant state
        i = self.choose([True, True])
        self.havoc_locs(mod, base)
        if any(kind == 'w' for kind, _ in mod.values()):
            self.flag('abstract')
        for c in cands:
            self.assume(zbool(c(self)))
        t = self.truth(self.ev(s.test, env))
        if i == 0:
            if t:
                raise Infeasible()
            return False
        if not t:
            raise Infeasible()
        try:
            self.exec_block(s.body, env)
        except BreakEx:
            return True
        except ContinueEx:
            pass
        raise Infeasible()

    def havoc_locs(self, mod, base):
        for loc, (kind, after) in mod.items():
            init = self.get_loc(base.heap, loc)
            if loc[0] == 'o':
                if isinstance(init, DObj):
                    t = self.fresh(V, 'whd')
                    self.assume(V.is_VDict(t))
                    self.assume(dlen(t) >= 0)
                    self.set_loc(loc, DObj(t, MapT(AnyT)))
                elif isinstance(init, LObj):
                    shp = init.shape
                    hv = self.opts.get('havoc_list')
                    v = hv(self, loc, init) if hv else None
                    self.set_loc(loc, v if v is not None else self.obj(self.list_of_V(self.fresh(V, 'whl'), AnyT)))
                else:
                    raise Unsupported('while havoc')
                continue
            k = None
            for x in (init, after):
                if x is UNSET or isinstance(x, (Poison, Last)):
                    kx = 'unset'
                elif isinstance(x, SV):
                    kx = 'any'
                else:
                    kx = self.kind_in(x, base)
                k = kx if k in (None, 'unset') else (k if kx == k or kx == 'unset' else 'any')
            if k in KSORT:
                self.set_loc(loc, self.fresh_sym(k, 'wh'))
            elif k == 'any':
                self.set_loc(loc, SV(self.fresh(V, 'whv')))
            elif k == 'list':
                self.set_loc(loc, self.list_of_V(self.fresh(V, 'whl'), AnyT))
            elif k == 'none':
                pass
            elif k in ('obj',):
                h = self.opts.get('havoc_obj')
                v = h(self, loc, init, after) if h else None
                if v is None:
                    v = self.clone_havoc(init if isinstance(init, Ref) else after, base)
                self.set_loc(loc, v)
            else:
                raise Unsupported('while-modified %s' % (k,))

    def clone_havoc(self, ref, base):
        """a fresh instance of the same class with fresh scalar attributes"""
        o = self.st.heap.get(ref.id) or base.heap.get(ref.id)
        if o is None or not isinstance(o, IObj):
            raise Unsupported('while-modified object')
        at = {}
        for a, v in o.attrs.items():
            k = self.kind_in(v, base)
            if k in KSORT:
                at[a] = self.fresh_sym(k, 'wh')
            else:
                raise Unsupported('while-modified object attribute')
        return self.alloc(IObj(o.cls, at))

    def kind_in(self, v, base):
        try:
            return self.kind(v)
        except KeyError:
            return 'obj'

    def while_candidates(self, mod, base):
        """numeric bounds against the initial values and zero, order between modified values, for modified numeric
        locations and attributes of modified objects"""
        locs = []
        for loc, (kind, after) in mod.items():
            init = self.get_loc(base.heap, loc)
            if loc[0] != 'o' and init is not UNSET and not isinstance(init, (SV, Poison, Last)):
                try:
                    kd = self.kind(init)
                except Exception:
                    continue
                if kd in ('int',):
                    locs.append((lambda e, loc=loc: e.get_loc(e.st.heap, loc), self.num_term(init)))
                elif kd == 'obj' and isinstance(init, Ref):
                    o = base.heap.get(init.id)
                    if isinstance(o, IObj):
                        for a, v in o.attrs.items():
                            if self.kind_in(v, base) == 'int':
                                locs.append((lambda e, loc=loc, a=a: e.obj(e.get_loc(e.st.heap, loc)).attrs[a],
                                             self.num_term(v)))
        c = []

        def num(e, f):
            return e.num_term(e.resolve(f(e)))
        for f, ini in locs:
            c.append(lambda e, f=f, ini=ini: num(e, f) >= ini)
            c.append(lambda e, f=f, ini=ini: num(e, f) <= ini)
            c.append(lambda e, f=f: num(e, f) >= 0)
            for g, ini2 in locs:
                if g is f:
                    continue
                c.append(lambda e, f=f, g=g: num(e, f) <= num(e, g))
                c.append(lambda e, f=f, ini2=ini2: num(e, f) <= ini2)
                c.append(lambda e, f=f, ini2=ini2: num(e, f) >= ini2)
        extra = self.opts.get('while_inv')
        if extra:
            c += extra(self, mod, base)
        # keep those true initially
        out = []
        for x in c:
            try:
                if self.must(zbool(x(self))):
                    out.append(x)
            except (Unsupported, KeyError, AttributeError):
                pass
        return out

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        self.tick()
        f = self.resolve(f) if not isinstance(f, (FuncVal, Bound, Builtin)) else f
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.func, FuncVal):
                return self.call_func(f.func, [f.self] + list(args), kw)
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, list(args), kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExtClass):
            return self.bi.call_extclass(self, f, args, kw)
        if isinstance(f, ExtVal):
            m = self.externals.get(f.name)
            if m is None:
                pre = f.name
                while '.' in pre:
                    pre = pre.rsplit('.', 1)[0]
                    m = self.externals.get(pre + '.*')
                    if m is not None:
                        break
            if m is None:
                raise Unsupported('no model of ' + f.name)
            self.assumed.add(f.name)
            return m(self, args, kw)
        if isinstance(f, Ref) and isinstance(self.obj(f), IObj):
            c = self.obj(f).cls
            m, _ = self.class_lookup(c, '__call__') if isinstance(c, ClassVal) else (UNSET, None)
            if m is not UNSET:
                return self.call(Bound(m, f), args, kw)
        if isinstance(f, Opaque) and '__call__' in f.attrs:
            return f.attrs['__call__'](self, args, kw)
        if isinstance(f, SV):
            h = self.opts.get('objcall')
            if h is not None:
                return h(self, f, args, kw)
        if f is None or isinstance(f, (int, str, bool)):
            self.raise_(TypeError, 'not callable')
        raise Unsupported('call of %r' % (f,))

    def key_of(self, f):
        return f.mod + ':' + f.qual

    def call_func(self, f, args, kw):
        c = self.contracts.get(self.key_of(f))
        if c is None and f.cls is not None:
            c = self.contracts.get('*:' + f.qual)
        if c is not None:
            self.used_contracts.add(self.key_of(f))
            r = c(self, f, args, kw)
            if r is not INLINE:
                return r
        return self.inline(f, args, kw)

    def inline(self, f, args, kw):
        self.inlined.add(self.key_of(f))
        if f.kind == 'decorated':
            raise Unsupported('decorated function ' + f.qual)
        self.depth += 1
        if self.depth > self.opts['inline_depth']:
            self.depth -= 1
            raise Unsupported('inlining depth (recursion without contract) at ' + f.qual)
        if self.watch is not None and self.depth == 1:
            self.mark_shared()
            if 'on_enter' in self.opts:
                self.opts['on_enter'](self)
        try:
            if isinstance(f.node, ast.FunctionDef) and f.cls is None and f.closure is None and f.node.decorator_list:
                return self.call_decorated(f, args, kw)
            return self.run_body(f, args, kw)
        finally:
            self.depth -= 1

    def call_decorated(self, f, args, kw):
        """a module-level function under decorators of the repository"""
        node = copy.copy(f.node)
        node.decorator_list = []
        v = FuncVal(f.name, f.qual, f.mod, node, None, None, f.kind)
        v.defaults, v.kwdefaults, v.is_gen = f.defaults, f.kwdefaults, f.is_gen
        env = Env(f.mod, None, self.modframe(f.mod))
        for d in reversed(f.node.decorator_list):
            v = self.call(self.ev(d, env), [v], {})
        return self.call(v, args, kw)

    def bind_args(self, f, args, kw):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        fr = {}
        args = list(args)
        if len(args) > len(params):
            if a.vararg is None:
                self.raise_(TypeError, 'too many arguments for ' + f.qual)
            fr[a.vararg.arg] = tuple(args[len(params):])
        elif a.vararg is not None:
            fr[a.vararg.arg] = ()
        for p, v in zip(params, args):
            fr[p] = v
        kw = dict(kw)
        for p in list(kw):
            if p in params or any(x.arg == p for x in a.kwonlyargs):
                if p in fr:
                    self.raise_(TypeError, 'multiple values for ' + p)
                fr[p] = kw.pop(p)
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in fr:
                j = i - (len(params) - nd)
                if j < 0:
                    self.raise_(TypeError, 'missing argument %s of %s' % (p, f.qual))
                fr[p] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in fr:
                if x.arg not in f.kwdefaults:
                    self.raise_(TypeError, 'missing keyword ' + x.arg)
                fr[x.arg] = f.kwdefaults[x.arg]
        if kw:
            if a.kwarg is None:
                self.raise_(TypeError, 'unexpected keyword of ' + f.qual)
        if a.kwarg is not None:
            r = self.alloc(DObj(None, None, tuple(kw.items())))
            fr[a.kwarg.arg] = r
        return fr

    def run_body(self, f, args, kw):
        fr = self.bind_args(f, args, kw)
        loc, glb, nl = scope_info(f.node)
        fid = self.alloc(FrameObj(fr)).id
        parent = f.closure
        env = Env(f.mod, parent, fid, locals_=loc, globals_=glb, nonlocals_=nl, func=f.qual, cls=f.cls)
        if f.cls is not None and args:
            env.self_ = args[0]
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        if f.is_gen:
            g = self.alloc(LObj(()))
            self._setframe(fid, '\0gen', g)
            try:
                self.exec_block(f.node.body, env)
            except ReturnEx:
                pass
            return g
        try:
            self.exec_block(f.node.body, env)
        except ReturnEx as r:
            return r.val
        return None

    def instantiate(self, cls, args, kw):
        c = self.contracts.get(cls.mod + ':' + cls.name)
        if c is not None:
            self.used_contracts.add(cls.mod + ':' + cls.name)
            r = c(self, cls, args, kw)
            if r is not INLINE:
                return r
        r = self.bi.instantiate_special(self, cls, args, kw)
        if r is not NOTFOUND:
            return r
        new, owner = self.class_lookup(cls, '__new__')
        if new is not UNSET:
            o = self.call_func(new, [cls] + list(args), kw)
        else:
            o = self.alloc(IObj(cls, {}))
            if any(isinstance(b, ExtClass) and isinstance(b.py, type) and issubclass(b.py, BaseException) for b in self.mro(cls)):
                self.setobj(o, IObj(cls, {'args': tuple(args)}))
        init, _ = self.class_lookup(cls, '__init__')
        if init is not UNSET:
            self.call_func(init, [o] + list(args), kw)
        elif args and new is UNSET and not any(not isinstance(b, ClassVal) and not (isinstance(b, ExtClass) and b.py is object) for b in self.mro(cls)):
            self.raise_(TypeError, 'takes no arguments')
        return o

    # ------------------------------------------------------------ structural equality obligations
    def prove_eq(self, name, a, b, why=''):
        """oblige that code value a equals specification value b"""
        from . import eqs
        return eqs.prove_eq(self, name, a, b, why)


class LoopRetry(Exception):
    pass


def mentions(t, k):
    todo = [t]
    while todo:
        x = todo.pop()
        if x.eq(k):
            return True
        todo.extend(x.children())
    return False


def has_fresh(t, eng, base):
    """does t mention a constant/function created after base?"""
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and '!' in x.decl().name():
            try:
                if int(x.decl().name().rsplit('!', 1)[1]) > base.counter:
                    return True
            except ValueError:
                pass
        todo.extend(x.children())
    return False
