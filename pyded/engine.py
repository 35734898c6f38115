"""Path-wise verification-condition generator for (a subset of) Python, over the unmodified AST of /repo.

Every function is executed symbolically from its own source; forks are replayed from decision prefixes, loops over
symbolic sequences are summarised (exact accumulation) or cut by inferred invariants, calls to functions under
contract use the contract, calls to other /repo functions are inlined, calls outside /repo use the assumed models in
externals.  Anything outside the subset raises Unsupported: never a verdict."""
import ast
import os
import time
import builtins as pybuiltins
from fractions import Fraction

import z3

from .values import *

# ------------------------------------------------------------------ control flow


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, val):
        self.val = val


class ReturnEx(Exception):
    def __init__(self, val):
        self.val = val


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathEnd(Exception):
    """stop exploring this path (obligations on it were already issued)"""


class CarriedRead(Exception):
    def __init__(self, loc):
        self.loc = loc


class Budget(Exception):
    pass


def simp(t):
    return z3.simplify(t)


def zbool(c):
    if c is True or c is False:
        return z3.BoolVal(c)
    return c


def is_z3(x):
    return isinstance(x, z3.ExprRef)


class Ctx:
    def __init__(self, prefix, pending):
        self.prefix = prefix
        self.pos = 0
        self.pending = pending


class State:
    __slots__ = ('heap', 'next_id', 'counter', 'memo', 'dec', 'facts', 'loopidx', 'flags', 'trace', 'ghost', 'shared', 'roots')

    def __init__(self):
        self.heap = {}
        self.next_id = 1
        self.counter = 0
        self.memo = {}
        self.dec = []
        self.facts = []
        self.loopidx = ()
        self.flags = frozenset()
        self.trace = ()
        self.ghost = {}
        self.shared = frozenset()     # objects of the module and class state (with opts['watch'])
        self.roots = frozenset()      # symbolic inputs that state holds

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.next_id = self.next_id
        s.counter = self.counter
        s.memo = dict(self.memo)
        s.dec = list(self.dec)
        s.facts = list(self.facts)
        s.loopidx = self.loopidx
        s.flags = self.flags
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        s.shared, s.roots = self.shared, self.roots
        return s


class PathRes:
    __slots__ = ('dec', 'facts', 'kind', 'val', 'st')

    def __init__(self, dec, facts, kind, val, st):
        self.dec, self.facts, self.kind, self.val, self.st = dec, facts, kind, val, st


class Obligation:
    __slots__ = ('func', 'name', 'status', 'time', 'model', 'reason', 'backend', 'flags')

    def __init__(self, func, name, status, t, model=None, reason='', backend='z3', flags=()):
        self.func, self.name, self.status, self.time = func, name, status, t
        self.model, self.reason, self.backend, self.flags = model, reason, backend, flags


class ModInfo:
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.bind = {}
        self.prev = {}       # definition that uses the name's own earlier definition -> that one
        self.setattrs = []
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.bind[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            if n.id in self.bind and any(isinstance(x, ast.Name) and x.id == n.id for x in ast.walk(st.value)):
                                self.prev[n.id, st.lineno] = self.bind[n.id]
                            self.bind[n.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.bind[st.target.id] = st
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    if a.name == '*':
                        self.bind.setdefault('*', []).append(st)
                    else:
                        self.bind[a.asname or a.name.split('.')[0]] = (st, a)
            elif isinstance(st, ast.Try):
                self._collect(st.handlers[0].body if st.handlers else [])
                self._collect(st.body)
            elif isinstance(st, ast.If):
                self._collect(st.orelse)
                self._collect(st.body)
            elif isinstance(st, ast.With):
                self._collect(st.body)
            elif isinstance(st, (ast.For, ast.While)):
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.bind[n.id] = st
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self.bind[st.target.id] = st
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                    isinstance(st.value.func, ast.Name) and st.value.func.id == 'setattr':
                self.setattrs.append(st)


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class EngineBase:
    def __init__(self, repo, contracts=None, externals=None, values=None, opts=None, overrides=None):
        self.repo = repo
        self.contracts = dict(contracts or {})
        self.externals = dict(externals or {})
        self.extvalues = dict(values or {})      # dotted external -> value
        self.overrides = dict(overrides or {})   # 'mod:name' -> fn(engine) -> value
        self.opts = {'branch_ms': 1500, 'prove_ms': 30000, 'max_paths': 6000, 'max_steps': 4000000,
                     'inline_depth': 60, 'fp': 'real', 'unroll': 64, 'unroll_while': 24, 'deadline': None}
        self.opts.update(opts or {})
        self.mods = {}
        self.st = State()
        self.ctx = None
        self.obligations = []
        self.cur = '?'
        self.solver_time = 0.0
        self.try_depth = 0
        self._kn = None
        self.queries = 0
        self.depth = 0
        self.lazy = 0
        self.watch = self.opts.get('watch')
        self.steps = 0
        self.assumed = set()      # externals actually used
        self.inlined = set()
        self.used_contracts = set()
        self.verifying = None
        self.npaths = 0
        self.deterministic = True
        self._sat_cache = {}
        self._keep = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.opts['branch_ms'])
        self._branchable = {}
        from . import builtins_ as bi
        self.bi = bi
        self.builtins = bi.make_builtins(self)

    # ------------------------------------------------------------ state helpers
    def snapshot(self):
        return self.st.copy()

    def restore(self, s):
        self.st = s.copy()

    def alloc(self, content):
        i = self.st.next_id
        self.st.next_id += 1
        self.st.heap[i] = content
        return Ref(i)

    def obj(self, ref):
        return self.st.heap[ref.id]

    def setobj(self, ref, content):
        if self.watch is not None and self.depth and not self.lazy:
            w = self.store_watched(ref.id, content)
            self.st.heap[ref.id] = content
            if w and 'after' in self.opts:
                self.opts['after'](self)
            return
        self.st.heap[ref.id] = content

    # -------------------------------------------------------------- frame of the shared state (opts['watch'])
    def store_watched(self, i, new):
        if self.opts.get('remark'):
            self.mark_shared()
        old = self.st.heap.get(i)
        if i in self.st.shared or isinstance(i, tuple) or (isinstance(old, (DObj, LObj)) and self.root_of(old) in self.st.roots and self.is_view(i, old)):
            self.watch(self, i, old, new)
            return True
        return False

    def is_view(self, i, o):
        """whether an object is a part of a symbolic input itself (and no copy of it)"""
        t = o.base if isinstance(o, DObj) else o.src
        m = self.st.memo.get(simp(t).get_id())
        return m is not None and isinstance(m[0], Ref) and m[0].id == i

    def root_of(self, o):
        """the symbolic input an unmodified part of which the object stands for"""
        t = o.base if isinstance(o, DObj) else o.src
        while t is not None and z3.is_app(t) and t.num_args():
            t = t.arg(0)
        return t.decl().name() if t is not None and z3.is_app(t) else None

    def mark_shared(self):
        """everything the modules and classes hold is shared by the threads of the process"""
        todo = [fr for k, fr in self.st.heap.items() if isinstance(k, tuple)] + [v for v in self.st.ghost.get('shared', ())]
        seen, roots = set(self.st.shared), set(self.st.roots) | set(self.opts.get('shared_roots', ()))
        done = set()
        while todo:
            x = todo.pop()
            if isinstance(x, ClassVal):
                x = x.ref
            if isinstance(x, Ref):
                if x.id in done:
                    continue
                done.add(x.id)
                seen.add(x.id)
                x = self.st.heap.get(x.id)
            if isinstance(x, dict):
                todo.extend(x.values())
            elif isinstance(x, (tuple, list)):
                todo.extend(x)
            elif isinstance(x, IObj):
                todo.extend(x.attrs.values())
                todo.append(x.cls)
            elif isinstance(x, DObj):
                if x.base is not None:
                    roots.add(self.root_of(x))
                todo.extend(v for en in x.ents if isinstance(en, tuple) for v in en)
            elif isinstance(x, LObj):
                if x.src is not None:
                    roots.add(self.root_of(x))
                todo.extend(s.v for s in x.segs if isinstance(s, Elem))
            elif isinstance(x, SetObj):
                todo.extend(x.elems)
            elif isinstance(x, FuncVal):
                todo.extend(x.defaults)
                todo.extend((x.kwdefaults or {}).values())
            elif isinstance(x, Bound):
                todo.extend([x.func, x.self] if hasattr(x, 'self') else [])
        self.st.shared, self.st.roots = frozenset(seen), frozenset(r for r in roots if r)

    def lazily(self, f):
        """evaluates a piece of module or class state on first use"""
        if self.watch is None:
            return f()
        n0 = self.st.next_id
        self.lazy += 1
        try:
            return f()
        finally:
            self.lazy -= 1
            if self.depth and not self.lazy:
                self.st.shared = self.st.shared | frozenset(range(n0, self.st.next_id))

    def fresh(self, sort, hint='f'):
        self.st.counter += 1
        name = '%s!%d' % (hint, self.st.counter)
        if self.st.loopidx:
            f = z3.Function(name, *([I] * len(self.st.loopidx)), sort)
            return f(*self.st.loopidx)
        return z3.Const(name, sort)

    def fresh_sym(self, k, hint='v'):
        return Sym(k, self.fresh(KSORT[k], hint))

    def flag(self, f):
        self.st.flags = self.st.flags | {f}

    def assume(self, c, branch=True):
        """a fact (valid here by definition, model or contract); branch=False: used in proofs only, not when paths are pruned"""
        c = zbool(c)
        c = simp(c)
        if z3.is_true(c):
            return
        self.st.facts.append(c)
        if branch:
            self.solver.add(c)
        if z3.is_false(c):
            raise Infeasible()

    def decide(self, c):
        c = simp(zbool(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.st.dec.append(c)
        self.solver.add(c)

    def tick(self):
        self.steps += 1
        if self.steps > self.opts['max_steps']:
            raise Budget('step budget')
        if self.opts['deadline'] and (self.steps & 255) == 0 and time.time() > self.opts['deadline']:
            raise Budget('time budget')

    # ------------------------------------------------------------ solver
    def known_fact(self, c):
        """True/False when c or its negation is literally among the facts of the path"""
        st = self.st
        kn = self._kn
        if kn is None or kn[0] is not st.facts or kn[2] is not st.dec or kn[1] > len(st.facts) or kn[3] > len(st.dec):
            kn = [st.facts, 0, st.dec, 0, {}]
        d = kn[4]

        def add(x):
            if z3.is_and(x):
                for y in x.children():
                    add(y)
                return
            d[x.get_id()] = x
        for x in st.facts[kn[1]:]:
            add(x)
        for x in st.dec[kn[3]:]:
            add(x)
        kn[1], kn[3] = len(st.facts), len(st.dec)
        self._kn = kn
        if z3.is_and(c) or z3.is_or(c):
            return None
        n = c.arg(0) if z3.is_not(c) else z3.Not(c)
        if n.get_id() in d:
            return False
        return None

    def feasible(self, c):
        kn = self.known_fact(c)
        if kn is not None:
            return kn
        t0 = time.time()
        self.queries += 1
        r = self.solver.check(c)
        if r == z3.unknown:
            r2 = z3.Solver()
            r2.set('timeout', self.opts['branch_ms'])
            r2.add(*self.st.facts)
            r2.add(*self.st.dec)
            r2.add(c)
            r = r2.check()
        self.solver_time += time.time() - t0
        return r != z3.unsat

    def prove_now(self, c, ms=None):
        """(status, model) of validity of c under the path condition"""
        c = simp(zbool(c))
        if z3.is_true(c):
            return 'unsat', None, ''
        t0 = time.time()
        self.queries += 1
        s = z3.Solver()
        s.set('timeout', ms or self.opts['prove_ms'])
        s.add(*self.st.facts)
        s.add(*self.st.dec)
        s.add(z3.Not(c))
        r = s.check()
        reason = ''
        m = None
        if r == z3.sat:
            m = s.model()
        elif r == z3.unknown:
            reason = s.reason_unknown()
            r2 = self.second_opinion(s)
            if r2 is not None:
                r = r2
        self.solver_time += time.time() - t0
        return str(r), m, reason

    def second_opinion(self, s):
        try:
            import subprocess, tempfile
            txt = s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write('(set-logic ALL)\n' + txt)
                name = f.name
            try:
                out = subprocess.run(['cvc5', '--strings-exp', '--tlimit=15000', name], capture_output=True,
                                     text=True, timeout=25).stdout.strip().split('\n')[0]
            finally:
                os.unlink(name)
            if out == 'unsat':
                return z3.unsat
        except Exception:
            pass
        return None

    def must(self, c):
        c = simp(zbool(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return not self.feasible(z3.Not(c))

    # ------------------------------------------------------------ forking
    def branch(self, c):
        """fork on a z3 bool (or python bool); returns the python bool taken"""
        if c is True or c is False:
            return c
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.choose([c, z3.Not(c)]) == 0

    def choose(self, opts):
        """fork over alternatives (z3 conditions, or True for free choices)"""
        ctx = self.ctx
        if ctx is None:
            raise Unsupported('fork outside exploration')
        if ctx.pos < len(ctx.prefix):
            i = ctx.prefix[ctx.pos]
            ctx.pos += 1
            forced = i < 0
            if forced:
                i = -i - 1
            if opts[i] is not True:
                if forced:
                    pass
                else:
                    self.decide(opts[i])
            return i
        feas = [i for i, c in enumerate(opts) if c is True or self.feasible(c)]
        if not feas:
            raise Infeasible()
        forced = len(feas) == 1 and len(opts) > 0
        if len(feas) > 1:
            for i in reversed(feas[1:]):
                ctx.pending.append(ctx.prefix + [i])
        i = feas[0]
        ctx.prefix = ctx.prefix + [(-i - 1) if forced else i]
        ctx.pos += 1
        if opts[i] is not True and not forced:
            self.decide(opts[i])
        elif forced and opts[i] is not True:
            # implied by the path condition: keep as derived fact for later syntactic use
            self.solver.add(opts[i])
        return i

    def explore(self, run, on_path):
        """run() under every feasible decision sequence; on_path(kind, value) is called inside the path's scope"""
        outer = self.ctx
        base = self.snapshot()
        maxc = base.counter
        pending = [[]]
        n = 0
        depth0 = self.depth
        try:
            while pending:
                prefix = pending.pop()
                n += 1
                self.npaths += 1
                if n > self.opts['max_paths']:
                    raise Budget('path budget')
                self.ctx = Ctx(prefix, pending)
                self.restore(base)
                self.depth = depth0
                self.solver.push()
                try:
                    try:
                        kind, val = run()
                    except Infeasible:
                        continue
                    except PathEnd:
                        maxc = max(maxc, self.st.counter)
                        continue
                    on_path(kind, val)
                    maxc = max(maxc, self.st.counter)
                except Infeasible:
                    pass
                finally:
                    self.solver.pop()
        finally:
            self.restore(base)
            self.st.counter = maxc
            self.ctx = outer
            self.depth = depth0
        return n

    def outcomes(self, thunk):
        """run thunk and classify: ('ok', value) or ('raise', excref)"""
        try:
            return 'ok', thunk()
        except PyRaise as e:
            return 'raise', e.val

    # ------------------------------------------------------------ obligations
    def oblige(self, name, c, info=''):
        """issue one proof obligation at this point of this path"""
        t0 = time.time()
        status, model, reason = self.prove_now(c)
        ob = Obligation(self.cur, name, {'unsat': 'discharged', 'sat': 'refuted'}.get(status, 'unknown'),
                        time.time() - t0, None, reason, flags=self.flags_of(status, c))
        if ob.status != 'discharged':
            ob.reason = (info + ' ' if info else '') + 'goal: %s' % (str(simp(zbool(c)))[:600],) + \
                ((' ; solver: ' + reason) if reason else '')
            if model is not None:
                ob.model = self.model_text(model)
        self.obligations.append(ob)
        return ob.status == 'discharged'

    def fail(self, name, why):
        """an obligation that fails structurally on a feasible path"""
        t0 = time.time()
        status, model, reason = self.prove_now(z3.BoolVal(False))
        if status == 'unsat':
            self.obligations.append(Obligation(self.cur, name, 'discharged', time.time() - t0))
            return True
        ob = Obligation(self.cur, name, 'refuted' if status == 'sat' else 'unknown', time.time() - t0,
                        self.model_text(model) if model is not None else None, why, flags=self.flags_of(status))
        self.obligations.append(ob)
        return False

    def flags_of(self, status, goal=None):
        """flags of an obligation; one that fails is 'abstract' if it speaks about a text this interpreter has no meaning for"""
        fl = set(self.st.flags)
        if status == 'sat' and 'abstract' not in fl:
            seen, todo = set(), [zbool(goal)] if goal is not None else []
            todo += self.st.dec
            while todo:
                t = todo.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_quantifier(t):
                    todo.append(t.body())
                elif z3.is_app(t):
                    n = t.decl().name()
                    if n in ('py_str', 'py_repr') or n.startswith(('strobj!', 'strcont!')):
                        fl.add('abstract')
                        break
                    todo.extend(t.children())
        return tuple(sorted(fl))

    def ok(self, name):
        self.obligations.append(Obligation(self.cur, name, 'discharged', 0.0))

    def model_text(self, m):
        out = {}
        try:
            for d in m.decls():
                if d.arity() == 0:
                    out[d.name()] = str(m[d])[:200]
        except Exception:
            pass
        return out

    # ------------------------------------------------------------ modules
    def mod_path(self, name):
        p = os.path.join(VERIF if name.split('.')[0] == 'refspec' else self.repo, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        if os.path.isdir(p) and any(f.endswith('.py') for f in os.listdir(p)):
            return None, True
        return None, False

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = self.mod_path(name)
        m = ModInfo(name, path, pkg) if path else None
        self.mods[name] = m
        return m

    def is_repo_mod(self, name):
        path, pkg = self.mod_path(name)
        return path is not None or pkg

    def modframe(self, mod):
        key = ('m', mod)
        if key not in self.st.heap:
            self.st.heap[key] = FrameObj()
        return key

    def get_global(self, mod, name, default=UNSET):
        key = self.modframe(mod)
        fr = self.st.heap[key]
        if name in fr:
            return fr[name]
        ov = self.overrides.get(mod + ':' + name)
        if ov is not None:
            v = ov(self)
            self.st.heap[key] = FrameObj(self.st.heap[key])
            self.st.heap[key][name] = v
            return v
        info = self.module(mod)
        if info is not None and name in info.bind:
            v = self.lazily(lambda: self.eval_binding(info, name))
            self.st.heap[key] = FrameObj(self.st.heap[key])
            self.st.heap[key][name] = v
            return v
        if info is not None and '*' in info.bind:
            for st in info.bind['*']:
                m = self._resolve_from(info, st)
                if self.is_repo_mod(m):
                    v = self.get_global(m, name, None)
                    if v is not None:
                        return v
        if name == '__name__':
            return mod
        if self.is_repo_mod(mod + '.' + name):
            return ModVal(mod + '.' + name)
        if default is not UNSET:
            return default
        raise PyRaise(self.make_exc(NameError, name)) if False else Unsupported('global %s.%s' % (mod, name))

    def _setframe(self, key, name, v):
        if self.watch is not None and isinstance(key, tuple) and self.depth and not self.lazy:
            self.watch(self, key, name, v)
        self.st.heap[key] = FrameObj(self.st.heap[key])
        self.st.heap[key][name] = v
        if self.watch is not None and isinstance(key, tuple) and self.depth and not self.lazy and 'after' in self.opts:
            self.opts['after'](self)

    def _resolve_from(self, info, st):
        if st.level:
            base = info.name.split('.')
            if not info.is_pkg:
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)]
            return '.'.join(base + ([st.module] if st.module else []))
        return st.module

    def import_value(self, info, st, a):
        if isinstance(st, ast.Import):
            name = a.name if a.asname else a.name.split('.')[0]
            return ModVal(name) if self.is_repo_mod(name) else self.ext(name)
        m = self._resolve_from(info, st)
        if self.is_repo_mod(m):
            if self.is_repo_mod(m + '.' + a.name):
                v = self.get_global(m, a.name, None) if m != info.name and self.module(m) and a.name in self.module(m).bind else None
                return v if v is not None else ModVal(m + '.' + a.name)
            return self.get_global(m, a.name)
        return self.ext(m + '.' + a.name)

    def ext(self, name):
        if name in self.extvalues:
            v = self.extvalues[name]
            return v(self) if callable(v) and not isinstance(v, type) else v
        import importlib
        parts = name.split('.')
        # stdlib exception / builtin classes
        if parts[0] in ('builtins', 'collections', 'decimal', 'datetime', 'io', 'numbers'):
            try:
                o = importlib.import_module(parts[0])
                for p in parts[1:]:
                    o = getattr(o, p)
                if isinstance(o, type):
                    return ExtClass(o)
            except Exception:
                pass
        return ExtVal(name)

    def eval_binding(self, info, name):
        return self.eval_def(info, name, info.bind[name])

    def eval_def(self, info, name, b):
        if isinstance(b, tuple):
            return self.import_value(info, b[0], b[1])
        old = info.prev.get((name, getattr(b, 'lineno', None)))
        if old is not None:
            self._setframe(self.modframe(info.name), name, self.eval_def(info, name, old))
        fr = self.modframe(info.name)
        env = Env(info.name, None, fr)
        if isinstance(b, ast.FunctionDef):
            return self.make_func(b, env, None, b.name)
        if isinstance(b, ast.ClassDef):
            return self.make_class(b, env, b.name)
        if isinstance(b, (ast.Assign, ast.AnnAssign)):
            if b.value is None:
                raise Unsupported('global ' + name)
            later = info.bind.get(b.value.id) if isinstance(b.value, ast.Name) else None
            if isinstance(later, ast.AST) and later.lineno > b.lineno and b.value.id in self.builtins:
                v = self.builtins[b.value.id]        # the module redefines the name only further down
            else:
                v = self.ev(b.value, env)
            if isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        return v
                # destructuring
                for t in b.targets:
                    self.assign(t, v, env)
                return self.st.heap[fr][name]
            return v
        raise Unsupported('module-level binding of %s in %s' % (name, info.name))

    # ------------------------------------------------------------ functions and classes
    def make_func(self, node, env, cls, qual, kind=None):
        f = FuncVal(getattr(node, 'name', '<lambda>'), qual, env.mod, node, env if env.fid is not None and env.fid != ('m', env.mod) else None, cls, kind)
        a = node.args
        f.defaults = tuple(self.ev(d, env) for d in a.defaults)
        f.kwdefaults = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.is_gen = has_yield(node)
        return f

    def make_class(self, node, env, qual):
        bases = [self.ev(b, env) for b in node.bases]
        attrs = {}
        ref = self.alloc(IObj(None, attrs))
        c = ClassVal(node.name, env.mod, node, bases, ref, qual)
        fid = self.alloc(FrameObj()).id
        cenv = Env(env.mod, env, fid, is_class=True)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                kind = None
                skip = False
                v = None
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
                        kind = {'staticmethod': 'static', 'classmethod': 'class', 'property': 'property'}[d.id]
                    elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                        kind = 'setter'
                        skip = True
                    else:
                        kind = 'decorated'
                fenv = Env(env.mod, env, env.fid) if env.fid is not None else env
                f = self.make_func(st, env, c, qual + '.' + st.name, kind)
                nm = st.name + ('@setter' if kind == 'setter' else '')
                self._setframe(fid, nm, f)
            elif isinstance(st, ast.Expr):
                continue
            elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.Pass)):
                if isinstance(st, ast.Pass) or (isinstance(st, ast.AnnAssign) and st.value is None):
                    continue
                names = [t.id for t in (st.targets if isinstance(st, ast.Assign) else [st.target]) if isinstance(t, ast.Name)]
                # evaluated lazily: class constants may need externals
                for nme in names:
                    self._setframe(fid, nme, LazyVal(st.value, cenv))
            elif isinstance(st, ast.ClassDef):
                self._setframe(fid, st.name, self.make_class(st, cenv, qual + '.' + st.name))
            else:
                raise Unsupported('class body statement %s' % type(st).__name__)
        d = dict(self.st.heap[fid])
        self.setobj(ref, IObj(None, d))
        info = self.module(env.mod)
        if info is not None:
            key = self.modframe(env.mod)
            for st in info.setattrs:
                tgt = st.value.args[0]
                if isinstance(tgt, ast.Name) and tgt.id == node.name:
                    self._setframe(key, node.name, c)
                    self.ev(st.value, Env(env.mod, None, key))
        return c

    def mro(self, cls):
        out = []

        def add(c):
            if c in out:
                return
            out.append(c)
        # simple depth-first, left-to-right with late duplicates (sufficient for single inheritance chains)
        todo = [cls]
        while todo:
            c = todo.pop(0)
            add(c)
            if isinstance(c, ClassVal):
                todo = list(c.bases) + todo
        return out

    def class_lookup(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, ClassVal):
                at = self.obj(c.ref).attrs
                if name in at:
                    v = at[name]
                    if isinstance(v, LazyVal):
                        v = self.lazily(lambda: self.ev(v.node, v.env))
                        o = self.obj(c.ref)
                        na = dict(o.attrs)
                        na[name] = v
                        self.st.heap[c.ref.id] = IObj(o.cls, na)
                    return v, c
        return UNSET, None

    def is_subclass(self, c, d):
        if c is d or c == d:
            return True
        if isinstance(c, ClassVal):
            return any(self.is_subclass(b, d) for b in c.bases) or (isinstance(d, ExtClass) and d.py is object)
        if isinstance(c, ExtClass) and isinstance(d, ExtClass):
            try:
                return issubclass(c.py, d.py)
            except TypeError:
                return False
        if isinstance(c, ExtVal) and isinstance(d, ExtClass) and d.py in (Exception, BaseException, object):
            return True
        return False

    def make_exc(self, py, *args):
        return self.alloc(IObj(py if isinstance(py, (ClassVal, ExtClass, ExtVal)) else ExtClass(py), {'args': tuple(args)}))

    def raise_(self, py, *args):
        raise PyRaise(self.make_exc(py, *args))

    def exc_class(self, ref):
        return self.obj(ref).cls

    # ------------------------------------------------------------ V <-> value
    def to_V(self, v):
        if v is None:
            return V.VNone
        if v is True or v is False:
            return V.VBool(z3.BoolVal(v))
        if isinstance(v, int):
            return V.VInt(z3.IntVal(v))
        if isinstance(v, float):
            return V.VReal(z3.RealVal(str(Fraction(v))))
        if isinstance(v, Fraction):
            return V.VReal(z3.RealVal(str(v)))
        if isinstance(v, str):
            return V.VStr(z3.StringVal(v))
        if isinstance(v, bytes):
            return V.VBytes(z3.StringVal(v.decode('latin-1')))
        if isinstance(v, Sym):
            c = {'int': V.VInt, 'bool': V.VBool, 'real': V.VReal, 'str': V.VStr, 'bytes': V.VBytes}[v.k]
            return simp(c(v.t))
        if isinstance(v, Rope):
            return self.to_V(self.rope_term(v))
        if isinstance(v, SV):
            return v.t
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, LObj) and o.src is not None:
                return o.src
            if isinstance(o, DObj) and o.base is not None and not o.ents and not o.absent:
                return o.base
            if isinstance(o, LObj):
                if all(isinstance(s, Elem) for s in o.segs):
                    return self.mk_container('list', [s.v for s in o.segs])
                if len(o.segs) == 1 and isinstance(o.segs[0], Flat):
                    nm = 'flatlist!%s' % self.flat_key(o.segs[0])
                    return z3.Const(nm, V)
            if isinstance(o, DObj) and o.base is None and all(isinstance(e, tuple) for e in o.ents):
                items = []
                for k, x in o.ents:
                    items += [k, x]
                return self.mk_container('dict', items)
            if isinstance(o, IObj):
                return V.VObj(z3.IntVal(v.id))
            raise Unsupported('embedding %s' % type(o).__name__)
        if isinstance(v, tuple):
            return self.mk_container('tuple', list(v))
        if isinstance(v, (ClassVal, ExtClass, FuncVal, ModVal, ExtVal, Opaque, Builtin, Bound)):
            return V.VObj(z3.Int('obj!' + repr(v)))
        raise Unsupported('embedding %r' % (v,))

    def flat_key(self, f):
        import hashlib
        h = hashlib.md5()
        h.update(str(simp(f.n)).encode())
        for c in f.cases:
            h.update(repr([self._key(d) for d in c.dec]).encode())
            h.update(self._paykey(c.pay, f.k).encode())
        s = h.hexdigest()
        return s.replace(str(f.k), 'k')

    def _key(self, t):
        return t.sexpr() if is_z3(t) else repr(t)

    def _paykey(self, p, k):
        def r(x):
            if is_z3(x):
                return x.sexpr()
            if isinstance(x, (Sym, SV, FSrc)):
                return type(x).__name__ + x.t.sexpr()
            if isinstance(x, (list, tuple)):
                return '[' + ','.join(r(y) for y in x) + ']'
            if isinstance(x, dict):
                return '{' + ','.join(str(a) + ':' + r(b) for a, b in x.items()) + '}'
            if isinstance(x, Elem):
                return 'E' + r(x.v)
            if isinstance(x, FFrozen):
                return x.kind + r(x.data)
            if isinstance(x, Rope):
                return 'R' + r(x.segs)
            if isinstance(x, Flat):
                return 'F' + self.flat_key(x)
            return repr(x)
        return r(p).replace(str(k), 'k')

    def mk_container(self, kind, vals):
        ts = [self.to_V(x) for x in vals]
        f = z3.Function('mk%s%d' % (kind, len(ts)), *([V] * len(ts)), V) if ts else None
        t = f(*ts) if ts else z3.Const('mk%s0' % kind, V)
        if kind in ('list', 'tuple'):
            con = V.is_VList if kind == 'list' else V.is_VTuple
            self.assume(con(t))
            self.assume(llen(t) == len(ts))
            for i, x in enumerate(ts):
                self.assume(lget(t, z3.IntVal(i)) == x)
        elif kind == 'dict':
            self.assume(V.is_VDict(t))
        self.st.memo.setdefault(t.get_id(), None)
        self._keep.append(t)
        return t

    def from_V(self, t, shape=None):
        t = simp(t)
        self._keep.append(t)
        key = t.get_id()
        if self.st.memo.get(key) is not None:
            return self.st.memo[key][0]
        d = t.decl().name() if z3.is_app(t) else ''
        if d == 'VNone':
            return None
        if d in ('VInt', 'VBool', 'VReal', 'VStr', 'VBytes'):
            return self.norm(Sym({'VInt': 'int', 'VBool': 'bool', 'VReal': 'real', 'VStr': 'str', 'VBytes': 'bytes'}[d], t.arg(0)))
        while isinstance(shape, RecT):
            shape = shape.thunk()
        v = self._shape_value(t, shape)
        self.st.memo[key] = (v, self.st.heap.get(v.id) if isinstance(v, Ref) else None)
        return v

    def _shape_value(self, t, shape):
        if shape is None or isinstance(shape, AnyS):
            return SV(t, None)
        if isinstance(shape, NoneS):
            self.assume(V.is_VNone(t))
            return None
        if isinstance(shape, _ScalarT):
            rec, acc = SC[shape.k]
            self.assume(rec(t))
            if shape.fact:
                for c in shape.fact(simp(acc(t))):
                    self.assume(c)
            return Sym(shape.k, simp(acc(t)))
        if isinstance(shape, LitT):
            if len(shape.vals) == 1:
                self.assume(t == self.to_V(shape.vals[0]))
                return shape.vals[0]
            self.assume(z3.Or(*[t == self.to_V(x) for x in shape.vals]))
            ks = {type(x) for x in shape.vals}
            if len(ks) == 1 and ks <= {str, int, bool}:
                k = {str: 'str', int: 'int', bool: 'bool'}[ks.pop()]
                rec, acc = SC[k]
                self.assume(rec(t))
                return Sym(k, simp(acc(t)))
            return SV(t, shape)
        if isinstance(shape, ListT):
            self.assume(V.is_VList(t))
            self.assume(llen(t) >= shape.minlen)
            if shape.maxlen is not None:
                self.assume(llen(t) <= shape.maxlen)
            if shape.fact:
                for c in shape.fact(self, t):
                    self.assume(c)
            return self.list_of_V(t, shape.elem)
        if isinstance(shape, TupT):
            self.assume(V.is_VList(t) if shape.kind == 'list' else V.is_VTuple(t))
            self.assume(llen(t) == len(shape.elems))
            es = [self.from_V(lget(t, z3.IntVal(i)), s) for i, s in enumerate(shape.elems)]
            if shape.kind == 'tuple':
                return tuple(es)
            return self.alloc(LObj([Elem(e) for e in es], None, t))
        if isinstance(shape, (DictT, MapT)):
            self.assume(V.is_VDict(t))
            r = self.alloc(DObj(t, shape))
            if isinstance(shape, MapT):
                self.assume(dlen(t) >= 0)
            if isinstance(shape, DictT):
                for k in shape.req:
                    self.assume(dhas(t, V.VStr(z3.StringVal(k))))
            if shape.fact:
                self.st.memo[t.get_id()] = (r, self.st.heap[r.id])
                for c in shape.fact(self, t, r):
                    self.assume(c)
            return r
        if isinstance(shape, SingleT):
            return SV(t, shape)
        if isinstance(shape, OneT):
            return SV(t, shape)
        if isinstance(shape, ObjT):
            self.assume(V.is_VObj(t))
            return SV(t, shape)
        raise Unsupported('shape %r' % (shape,))

    def list_of_V(self, t, elem, cls=LObj):
        k = self.kvar()
        f = Flat(llen(t), k, [Case([], [], [Elem(FSrc(lget(t, k), elem))])], tag=('src', t.get_id()))
        self.assume(llen(t) >= 0)
        return self.alloc(cls([f], elem, t))

    def kvar(self):
        self.st.counter += 1
        return z3.Int('k!%d' % self.st.counter)

    def norm(self, v):
        """turn constant Syms into python constants"""
        if isinstance(v, Sym):
            t = simp(v.t)
            if v.k == 'int' and z3.is_int_value(t):
                return t.as_long()
            if v.k == 'bool':
                if z3.is_true(t):
                    return True
                if z3.is_false(t):
                    return False
            if v.k == 'str' and z3.is_string_value(t):
                return zstr(t)
            if v.k == 'bytes' and z3.is_string_value(t):
                try:
                    return zstr(t).encode('latin-1')
                except Exception:
                    return Sym('bytes', t)
            return Sym(v.k, t)
        return v

    def resolve(self, v, want=None):
        """make the dynamic type of an SV known (forking over its possible tags)"""
        if isinstance(v, Last):
            v = self.read_last(v)
        if not isinstance(v, SV):
            return v
        t = v.t
        m = self.st.memo.get(t.get_id())
        if m is not None and not isinstance(m[0], SV):
            return m[0]
        shape = v.shape
        while isinstance(shape, RecT):
            shape = shape.thunk()
        if isinstance(shape, OneT):
            alts = list(shape.alts)
            conds = [self.shape_tag(t, s) for s in alts]
            if len(set(c.sexpr() if is_z3(c) else str(c) for c in conds)) != len(conds):
                raise Unsupported('ambiguous alternatives of a shape')
            self.assume(z3.Or(*[zbool(c) for c in conds]))
            i = self.choose(conds)
            self.st.memo[t.get_id()] = None
            v2 = self.from_V(t, alts[i])
            self.st.memo[t.get_id()] = (v2, self.st.heap.get(v2.id) if isinstance(v2, Ref) else None)
            return self.resolve(v2)
        if isinstance(shape, SingleT):
            ops = list(shape.ops)
            k0 = dkey(t, z3.IntVal(0))
            self.assume(V.is_VDict(t))
            self.assume(V.is_VStr(k0))
            self.assume(dlen(t) == 1)
            opts = [k0 == V.VStr(z3.StringVal(o)) for o in ops]
            if shape.other is not None:
                opts.append(z3.And(*[k0 != V.VStr(z3.StringVal(o)) for o in ops]) if ops else z3.BoolVal(True))
            else:
                self.assume(z3.Or(*opts))
            i = self.choose(opts)
            if i < len(ops):
                key = ops[i]
                sh = shape.ops[key]
            else:
                key = Sym('str', V.sv(k0))
                sh = shape.other
            val = self.from_V(dget(t, k0), sh)
            r = self.alloc(DObj(None, None, ((key, val),)))
            self.st.ghost.setdefault('src', {})
            g = dict(self.st.ghost['src'])
            g[r.id] = t
            self.st.ghost['src'] = g
            self.st.memo[t.get_id()] = (r, self.st.heap[r.id])
            return r
        if isinstance(shape, LitT):
            i = self.choose([t == self.to_V(x) for x in shape.vals])
            self.st.memo[t.get_id()] = (shape.vals[i],)
            return shape.vals[i]
        if isinstance(shape, ObjT):
            return v
        # unknown: fork over all tags
        tags = [('none', V.is_VNone), ('int', V.is_VInt), ('str', V.is_VStr), ('bool', V.is_VBool), ('real', V.is_VReal),
                ('list', V.is_VList), ('dict', V.is_VDict), ('tuple', V.is_VTuple), ('bytes', V.is_VBytes), ('obj', V.is_VObj)]
        i = self.choose([p(t) for _, p in tags])
        k = tags[i][0]
        if k == 'none':
            r = None
        elif k in SC:
            r = Sym(k, simp(SC[k][1](t)))
        elif k == 'list':
            r = self.list_of_V(t, None)
        elif k == 'tuple':
            r = self.list_of_V(t, None, TObj)
        elif k == 'dict':
            r = self.alloc(DObj(t, MapT(AnyT)))
        else:
            r = SV(t, ObjT())
        self.st.memo[t.get_id()] = (r, self.st.heap.get(r.id) if isinstance(r, Ref) else None)
        return r

    def shape_tag(self, t, s):
        while isinstance(s, RecT):
            s = s.thunk()
        if isinstance(s, NoneS):
            return V.is_VNone(t)
        if isinstance(s, _ScalarT):
            return SC[s.k][0](t)
        if isinstance(s, ListT) or (isinstance(s, TupT) and s.kind == 'list'):
            return V.is_VList(t)
        if isinstance(s, TupT):
            return V.is_VTuple(t)
        if isinstance(s, (DictT, MapT)):
            if isinstance(s, DictT) and s.req and len(s.req) <= 3 and getattr(s, 'tagkeys', True):
                return z3.And(V.is_VDict(t), *[dhas(t, V.VStr(z3.StringVal(k))) for k in s.req],
                              dlen(t) >= len(s.req))
            return V.is_VDict(t)
        if isinstance(s, SingleT):
            k0 = dkey(t, z3.IntVal(0))
            return z3.And(V.is_VDict(t), dlen(t) == 1)
        if isinstance(s, LitT):
            return z3.Or(*[t == self.to_V(x) for x in s.vals])
        if isinstance(s, ObjT):
            return V.is_VObj(t)
        if isinstance(s, AnyS):
            return z3.BoolVal(True)
        raise Unsupported('shape tag')

    def sym_input(self, name, shape):
        return self.from_V(z3.Const(name, V), shape)

    # ------------------------------------------------------------ segments: freeze / thaw
    def freeze(self, v, pre_ids, seen=None):
        if isinstance(v, Ref):
            if v.id in pre_ids:
                return v
            o = self.obj(v)
            src = self.st.ghost.get('src', {}).get(v.id)
            if isinstance(o, LObj):
                if o.src is not None:
                    return FSrc(o.src, TupShapeHint(o) if not isinstance(o, TObj) else None)
                return FFrozen('list', [self.freeze_seg(s, pre_ids) for s in o.segs])
            if isinstance(o, DObj):
                if o.base is not None and not o.ents and not o.absent:
                    return FSrc(o.base, o.shape)
                if o.base is not None:
                    raise Unsupported('freezing a modified symbolic dict')
                if any(not isinstance(e, tuple) for e in o.ents):
                    return FFrozen('dictsegs', [self.freeze_seg(s, pre_ids) if not isinstance(s, tuple) else
                                                (self.freeze(s[0], pre_ids), self.freeze(s[1], pre_ids)) for s in o.ents])
                return FFrozen('dict', [(self.freeze(k, pre_ids), self.freeze(x, pre_ids)) for k, x in o.ents] + ([('\0src', src)] if src is not None else []))
            if isinstance(o, IObj):
                return FFrozen('obj', (o.cls, {k: self.freeze(x, pre_ids) for k, x in o.attrs.items()}))
            if isinstance(o, SetObj):
                return FFrozen('set', [self.freeze(x, pre_ids) for x in o.elems])
            raise Unsupported('freeze %s' % type(o).__name__)
        if isinstance(v, tuple):
            return FFrozen('tuple', [self.freeze(x, pre_ids) for x in v])
        if isinstance(v, SV):
            return FSrc(v.t, v.shape)
        if isinstance(v, Bound):
            raise Unsupported('freeze bound method')
        if isinstance(v, Last):
            return self.freeze(self.read_last(v), pre_ids)
        return v

    def freeze_seg(self, s, pre_ids):
        if isinstance(s, Elem):
            return Elem(self.freeze(s.v, pre_ids))
        if isinstance(s, Flat):
            return s
        raise Unsupported('freeze segment %r' % (s,))

    def thaw(self, v, sub):
        """instantiate a frozen payload with index substitution sub (list of (var, term))"""
        if v is None or isinstance(v, (bool, int, str, bytes, float, Fraction)):
            return v
        if isinstance(v, Sym):
            return self.norm(Sym(v.k, z3.substitute(v.t, *sub)))
        if isinstance(v, FSrc):
            t = simp(z3.substitute(v.t, *sub))
            sh = v.shape
            return self.from_V(t, sh.shape_for(self) if isinstance(sh, TupShapeHint) else sh)
        if isinstance(v, FFrozen):
            if v.kind == 'tuple':
                return tuple(self.thaw(x, sub) for x in v.data)
            if v.kind == 'list':
                return self.alloc(LObj([self.thaw_seg(s, sub) for s in v.data]))
            if v.kind == 'dict':
                ents = tuple((self.thaw(k, sub), self.thaw(x, sub)) for k, x in v.data if k != '\0src')
                r = self.alloc(DObj(None, None, ents))
                for k, x in v.data:
                    if isinstance(k, str) and k == '\0src':
                        g = dict(self.st.ghost.get('src', {}))
                        g[r.id] = simp(z3.substitute(x, *sub))
                        self.st.ghost['src'] = g
                return r
            if v.kind == 'dictsegs':
                return self.alloc(DObj(None, None, [self.thaw_seg(x, sub) if not isinstance(x, tuple) else
                                                    (self.thaw(x[0], sub), self.thaw(x[1], sub)) for x in v.data]))
            if v.kind == 'obj':
                return self.alloc(IObj(v.data[0], {k: self.thaw(x, sub) for k, x in v.data[1].items()}))
            if v.kind == 'set':
                return self.alloc(SetObj([self.thaw(x, sub) for x in v.data]))
        if isinstance(v, Rope):
            return Rope(v.k, [self.thaw_seg(s, sub) for s in v.segs])
        if isinstance(v, tuple):
            return tuple(self.thaw(x, sub) for x in v)
        return v

    def thaw_seg(self, s, sub):
        if isinstance(s, Elem):
            return Elem(self.thaw(s.v, sub))
        if isinstance(s, Flat):
            return Flat(z3.substitute(s.n, *sub), s.k,
                        [Case([z3.substitute(c, *sub) for c in cs.dec], [z3.substitute(c, *sub) for c in cs.facts],
                              self.subst_pay(cs.pay, sub)) for cs in s.cases], s.tag)
        if is_z3(s):
            return simp(z3.substitute(s, *sub))
        return s

    def subst_pay(self, p, sub):
        """substitute in a frozen payload without instantiating it"""
        if isinstance(p, list):
            return [self.subst_pay(x, sub) for x in p]
        if isinstance(p, tuple):
            return tuple(self.subst_pay(x, sub) for x in p)
        if isinstance(p, Elem):
            return Elem(self.subst_pay(p.v, sub))
        if isinstance(p, Sym):
            return Sym(p.k, z3.substitute(p.t, *sub))
        if isinstance(p, FSrc):
            return FSrc(z3.substitute(p.t, *sub), p.shape)
        if isinstance(p, FFrozen):
            if p.kind == 'obj':
                return FFrozen('obj', (p.data[0], {k: self.subst_pay(x, sub) for k, x in p.data[1].items()}))
            return FFrozen(p.kind, self.subst_pay(p.data, sub))
        if isinstance(p, Flat):
            return self.thaw_seg(p, sub)
        if isinstance(p, Rope):
            return Rope(p.k, [self.subst_pay(x, sub) for x in p.segs])
        if is_z3(p):
            return z3.substitute(p, *sub)
        return p

    def enter_case(self, f, idx):
        """choose the case of Flat f holding at index idx; returns the thawed payload"""
        sub = [(f.k, idx)]
        if len(f.cases) == 0:
            raise Infeasible()
        if len(f.cases) == 1:
            i = 0
        else:
            i = self.choose([simp(z3.And(*[z3.substitute(c, *sub) for c in cs.dec])) if cs.dec else z3.BoolVal(True)
                             for cs in f.cases])
        cs = f.cases[i]
        for c in cs.dec + cs.facts:
            self.assume(z3.substitute(c, *sub))
        pay = cs.pay
        return [self.thaw_seg(s, sub) for s in pay] if isinstance(pay, list) else self.thaw(pay, sub)

    def read_last(self, L):
        """value of a location after a summarised loop"""
        if not isinstance(L, Last):
            return L
        if not self.branch(L.n >= 1):
            if L.before is UNSET:
                self.raise_(UnboundLocalError, 'local')
            return self.read_last(L.before)
        if any(c.pay is OPAQUE for c in L.cases):
            raise Unsupported('value left by a loop')
        if not any(c.pay is UNCHANGED for c in L.cases):
            v = self.enter_case(Flat(L.n, L.k, L.cases), simp(L.n - 1))
        else:
            # conditionally written: either never, or last at some index j
            unch = [z3.And(*c.dec) if c.dec else z3.BoolVal(True) for c in L.cases if c.pay is UNCHANGED]
            i = self.choose([True, True])
            if i == 0:
                self.assume(z3.ForAll([L.k], z3.Implies(z3.And(L.k >= 0, L.k < L.n), z3.Or(*unch))))
                if L.before is UNSET:
                    self.raise_(UnboundLocalError, 'local')
                return self.read_last(L.before)
            j = self.fresh(I, 'lastw')
            self.assume(z3.And(j >= 0, j < L.n))
            self.assume(z3.ForAll([L.k], z3.Implies(z3.And(L.k > j, L.k < L.n), z3.Or(*unch))))
            v = self.enter_case(Flat(L.n, L.k, [c for c in L.cases if c.pay is not UNCHANGED]), j)
        if v is UNSETV:
            self.raise_(UnboundLocalError, 'local')
        return v

    # ------------------------------------------------------------ chunks of iterables
    def chunks_of(self, v):
        """list of ('c', [values]) or ('s', n, group(idx)->[values])"""
        v = self.resolve(v)
        if isinstance(v, (tuple, list)):
            return [('c', list(v))]
        if isinstance(v, str):
            return [('c', list(v))]
        if isinstance(v, bytes):
            return [('c', list(v))]
        if isinstance(v, Sym) and v.k in ('str', 'bytes'):
            t = v.t
            n = z3.Length(t)
            kk = v.k

            def grp(i):
                ch = z3.SubString(t, i, 1)
                if kk == 'str':
                    return [Sym('str', ch)]
                return [Sym('int', z3.StrToCode(ch))]
            return [('s', n, grp)]
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, LObj):
                return self.seg_chunks(o.segs)
            if isinstance(o, DObj):
                return self.map_chunks(self.dict_items(v), lambda kv: kv[0])
            if isinstance(o, SetObj):
                return [('c', list(o.elems))]
            if isinstance(o, IterObj):
                ch = o.chunks
                self.setobj(v, IterObj([]))
                return ch
            if isinstance(o, IObj):
                m, _ = self.class_lookup(o.cls, '__iter__')
                if m is not UNSET:
                    return self.chunks_of(self.call(Bound(m, v), [], {}))
        if isinstance(v, Opaque) and 'chunks' in v.attrs:
            return v.attrs['chunks'](self)
        if isinstance(v, ClassVal):
            raise Unsupported('iterating a class')
        if v is None or isinstance(v, (int, float)) or (isinstance(v, Sym) and v.k in ('int', 'bool', 'real')):
            self.raise_(TypeError, 'not iterable')
        raise Unsupported('iterating %r' % (v,))

    def seg_chunks(self, segs):
        out = []
        for s in segs:
            if isinstance(s, Elem):
                if out and out[-1][0] == 'c':
                    out[-1][1].append(s.v)
                else:
                    out.append(('c', [s.v]))
            elif isinstance(s, Flat):
                def grp(i, s=s):
                    return self.flatten_elems(self.enter_case(s, i))
                n = self.norm(Sym('int', s.n))
                if isinstance(n, int):
                    for j in range(n):
                        out.append(('l', (lambda j=j, grp=grp: grp(z3.IntVal(j)))))
                else:
                    out.append(('s', s.n, grp))
            elif isinstance(s, Acc):
                raise CarriedRead(('list', s.oid))
            else:
                raise Unsupported('segment %r' % (s,))
        return out

    def flatten_elems(self, segs):
        out = []
        for s in segs:
            if isinstance(s, Elem):
                out.append(s.v)
            elif isinstance(s, Flat):
                n = self.norm(Sym('int', s.n))
                if isinstance(n, int) and n <= self.opts['unroll']:
                    for j in range(n):
                        out += self.flatten_elems(self.enter_case(s, z3.IntVal(j)))
                else:
                    out.append(NestedFlat(s))
            else:
                raise Unsupported('nested segment')
        return out

    def map_chunks(self, chunks, fn):
        out = []
        for c in chunks:
            if c[0] == 'c':
                out.append(('c', [fn(x) for x in c[1]]))
            elif c[0] == 'l':
                out.append(('l', (lambda c=c: [fn(x) for x in c[1]()])))
            else:
                out.append(('s', c[1], (lambda i, c=c: [fn(x) for x in c[2](i)])))
        return out

    def dict_items(self, ref):
        """chunks of (key, value) tuples of a dict"""
        o = self.obj(ref)
        out = []
        if o.base is not None:
            sh = o.shape
            if isinstance(sh, DictT):
                if o.absent or o.ents:
                    raise Unsupported('iterating a modified symbolic dict')
                items = []
                for k, s in sh.req.items():
                    items.append((k, self.from_V(dget(o.base, V.VStr(z3.StringVal(k))), s)))
                for k, s in sh.opt.items():
                    kt = V.VStr(z3.StringVal(k))
                    if self.branch(dhas(o.base, kt)):
                        items.append((k, self.from_V(dget(o.base, kt), s)))
                return [('c', items)]
            if o.absent or o.ents:
                raise Unsupported('iterating a modified symbolic map')
            base = o.base

            def grp(i):
                kt = dkey(base, i)
                self.assume(V.is_VStr(kt))
                self.assume(dhas(base, kt))
                self.assume(didx(base, kt) == i)
                if sh.keys is not None:
                    self.assume(z3.Or(*[kt == V.VStr(z3.StringVal(x)) for x in sh.keys]))
                k = self.from_V(kt, StrT)
                return [(k, self.from_V(dget(base, kt), sh.val))]
            out.append(('s', dlen(base), grp))
            return out
        conc = []
        for e in o.ents:
            if isinstance(e, tuple):
                conc.append(e)
            elif isinstance(e, Flat):
                if conc:
                    out.append(('c', conc))
                    conc = []

                def grp(i, e=e):
                    return [x.v for x in self.enter_case(e, i)]
                out.append(('s', e.n, grp))
            elif isinstance(e, Acc):
                raise CarriedRead(('dict', e.oid))
            else:
                raise Unsupported('dict segment')
        if conc:
            out.append(('c', conc))
        return out

    # ------------------------------------------------------------ dict access
    def key_eq(self, a, b):
        """python bool or z3 bool: equality of two dict keys"""
        if isinstance(a, (str, int, bytes, type(None))) and isinstance(b, (str, int, bytes, type(None))):
            return a == b
        r = self.values_eq(a, b)
        return r

    def dict_lookup(self, ref, key):
        """(found, value)"""
        key = self.resolve(key)
        o = self.obj(ref)
        for e in reversed(o.ents):
            if isinstance(e, tuple):
                if self.branch(self.key_eq(e[0], key)):
                    return True, e[1]
            elif isinstance(e, Acc):
                raise CarriedRead(('dict', e.oid))
            elif isinstance(e, Flat):
                ok, v = self.flat_dict_lookup(ref, e, key)
                if ok:
                    return True, v
        if o.base is None:
            return False, None
        for k in o.absent:
            if self.branch(self.key_eq(k, key)):
                return False, None
        sh = o.shape
        if not isinstance(key, (str, Sym)) or (isinstance(key, Sym) and key.k != 'str'):
            if isinstance(key, (Ref,)):
                self.raise_(TypeError, 'unhashable')
            return False, None
        if isinstance(sh, DictT):
            if isinstance(key, str):
                kt = V.VStr(z3.StringVal(key))
                if key in sh.req:
                    return True, self.from_V(dget(o.base, kt), sh.req[key])
                if key in sh.opt:
                    if self.branch(dhas(o.base, kt)):
                        return True, self.from_V(dget(o.base, kt), sh.opt[key])
                    return False, None
                return False, None
            names = list(sh.req) + list(sh.opt)
            opts = [key.t == z3.StringVal(x) for x in names]
            opts.append(z3.And(*[key.t != z3.StringVal(x) for x in names]) if names else z3.BoolVal(True))
            i = self.choose(opts)
            if i == len(names):
                return False, None
            return self.dict_lookup(ref, names[i])
        if isinstance(sh, MapT):
            kt = self.to_V(key)
            has = dhas(o.base, kt)
            if sh.keys is not None:
                self.assume(z3.Implies(has, z3.Or(*[kt == V.VStr(z3.StringVal(x)) for x in sh.keys])))
            if self.branch(has):
                self.assume(z3.And(dkey(o.base, didx(o.base, kt)) == kt, didx(o.base, kt) >= 0,
                                   didx(o.base, kt) < dlen(o.base)))
                return True, self.from_V(dget(o.base, kt), sh.val)
            return False, None
        raise Unsupported('dict shape')

    def flat_dict_lookup(self, ref, e, key):
        """over-approximation: either some iteration stored an equal key, or (no fact) none did"""
        mk = ('flk', id(e), self.to_V(key).get_id())
        memo = self.st.ghost.get(mk)
        if memo is not None:
            return memo[0]
        if self.choose([True, True]) == 1:
            self.flag('abstract')
            self.setghost(mk, ((False, None), e, key))
            return False, None
        j = self.fresh(I, 'dj')
        self.assume(z3.And(j >= 0, j < e.n))
        pay = [x for x in self.enter_case(e, j)]
        if not pay:
            raise Infeasible()
        i = self.choose([True] * len(pay)) if len(pay) > 1 else 0
        x = pay[i]
        k, v = x.v if isinstance(x, Elem) else x
        eq = self.key_eq(k, key)
        if eq is False:
            raise Infeasible()
        if eq is not True:
            self.assume(eq)
        if len(pay) > 1:
            self.flag('abstract')
        self.setghost(mk, ((True, v), e, key))
        return True, v

    def dict_set(self, ref, key, val):
        key = self.resolve(key)
        o = self.obj(ref)
        if isinstance(key, Ref):
            self.raise_(TypeError, 'unhashable')
        ents = list(o.ents)
        if isinstance(key, (str, int, bytes, type(None), tuple)) or True:
            for i, e in enumerate(ents):
                if isinstance(e, tuple):
                    q = self.key_eq(e[0], key)
                    if q is True:
                        ents[i] = (e[0], val)
                        self.setobj(ref, DObj(o.base, o.shape, ents, o.absent))
                        return
                    if q is not False:
                        if self.branch(q):
                            ents[i] = (e[0], val)
                            self.setobj(ref, DObj(o.base, o.shape, ents, o.absent))
                            return
        absent = tuple(k for k in o.absent if not self.branch(self.key_eq(k, key))) if o.absent else ()
        self.setobj(ref, DObj(o.base, o.shape, ents + [(key, val)], absent))

    def dict_del(self, ref, key):
        """remove; returns (found, old)"""
        found, old = self.dict_lookup(ref, key)
        if not found:
            return False, None
        o = self.obj(ref)
        ents = []
        for e in o.ents:
            if isinstance(e, tuple) and self.branch(self.key_eq(e[0], key)):
                continue
            ents.append(e)
        absent = o.absent + ((key,) if o.base is not None else ())
        self.setobj(ref, DObj(o.base, o.shape, ents, absent))
        return True, old

    # ------------------------------------------------------------ equality at code level
    def flat_eq(self, oa, ob):
        """equality of two lists of texts of unknown length"""
        def one(o):
            if len(o.segs) != 1 or not isinstance(o.segs[0], Flat):
                return None
            f = o.segs[0]
            if len(f.cases) != 1 or f.cases[0].dec or len(f.cases[0].pay) != 1 or not isinstance(f.cases[0].pay[0], Elem):
                return None
            v = f.cases[0].pay[0].v
            if not (isinstance(v, (SV, FSrc)) and v.shape is StrT):
                return None
            return f.n, f.k, v.t
        x, y = one(oa), one(ob)
        if x is None or y is None:
            return None
        j = self.fresh(I, 'j')
        a, b = z3.substitute(x[2], (x[1], j)), z3.substitute(y[2], (y[1], j))
        return z3.And(x[0] == y[0], z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x[0]), a == b)))

    def values_eq(self, a, b):
        a = self.norm(a) if isinstance(a, Sym) else a
        b = self.norm(b) if isinstance(b, Sym) else b
        if isinstance(a, Last) or isinstance(b, Last):
            a, b = self.resolve(a), self.resolve(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opaque) and '__eq__' in x.attrs:
                return x.attrs['__eq__'](self, y)
        if isinstance(a, SV) and isinstance(b, SV):
            if a.t.eq(b.t):
                return True
            return a.t == b.t
        if isinstance(b, SV):
            a, b = b, a
        if isinstance(a, SV):
            if b is None or isinstance(b, (bool, int, str, bytes, Sym)):
                m = self.st.memo.get(a.t.get_id())
                if m is not None and not isinstance(m[0], SV):
                    return self.values_eq(m[0], b)
                return a.t == self.to_V(b)
            return self.values_eq(self.resolve(a), b)
        num = (bool, int, float, Fraction)
        if isinstance(a, num) and isinstance(b, num):
            return a == b
        if isinstance(a, (str, bytes, type(None))) and isinstance(b, (str, bytes, type(None), int, float)) or \
                isinstance(b, (str, bytes, type(None))) and isinstance(a, (int, float)):
            return a == b
        ka, kb = self.kind(a), self.kind(b)
        if ka in ('int', 'bool', 'real') and kb in ('int', 'bool', 'real'):
            return self.num_term(a) == self.num_term(b) if (ka == 'real') == (kb == 'real') else \
                self.real_term(a) == self.real_term(b)
        if ka == kb and ka in ('str', 'bytes'):
            if isinstance(a, Rope) or isinstance(b, Rope):
                return self.rope_eq(a, b)
            return self.str_term(a) == self.str_term(b)
        if ka != kb:
            return False
        if ka == 'tuple':
            if len(a) != len(b):
                return False
            cs = [self.values_eq(x, y) for x, y in zip(a, b)]
            if any(c is False for c in cs):
                return False
            cs = [c for c in cs if c is not True]
            return z3.And(*cs) if cs else True
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                oa = self.obj(a)
                if not isinstance(oa, IObj):
                    return True
            oa, ob = self.obj(a), self.obj(b)
            if isinstance(oa, IObj) and isinstance(ob, IObj):
                m, _ = self.class_lookup(oa.cls, '__eq__') if oa.cls else (UNSET, None)
                if m is not UNSET:
                    return self.truth_term(self.call(Bound(m, a), [b], {}))
                return a.id == b.id
            if isinstance(oa, LObj) and isinstance(ob, LObj):
                if len(oa.segs) == 0 or len(ob.segs) == 0:
                    n = self.length(b if len(oa.segs) == 0 else a)
                    return n == 0 if isinstance(n, int) else self.num_term(n) == 0
                if all(isinstance(s, Elem) for s in oa.segs + ob.segs):
                    return self.values_eq(tuple(s.v for s in oa.segs), tuple(s.v for s in ob.segs))
                r = self.flat_eq(oa, ob)
                if r is None:
                    raise Unsupported('== on symbolic lists')
                return r
            if isinstance(oa, DObj) and isinstance(ob, DObj):
                return self.dicts_eq(a, b)
            if isinstance(oa, SetObj):
                raise Unsupported('== on sets')
            return False
        return a is b or a == b

    def dicts_eq(self, a, b):
        oa, ob = self.obj(a), self.obj(b)
        if oa.base is None and ob.base is None and all(isinstance(e, tuple) for e in oa.ents + ob.ents):
            if len(oa.ents) != len(ob.ents):
                return False
            cs = []
            for k, v in oa.ents:
                f, w = self.dict_lookup(b, k)
                if not f:
                    return False
                c = self.values_eq(v, w)
                if c is False:
                    return False
                if c is not True:
                    cs.append(c)
            return z3.And(*cs) if cs else True
        if oa.base is not None and ob.base is None:
            a, b, oa, ob = b, a, ob, oa
        if oa.base is None and ob.base is not None and not ob.ents and isinstance(ob.shape, DictT):
            keys = [k for k, _ in oa.ents]
            if not all(isinstance(k, str) for k in keys):
                raise Unsupported('== on dicts')
            if any(k not in keys for k in ob.shape.req):
                return False
            for k in keys:
                if k not in ob.shape.req and k not in ob.shape.opt:
                    return False
            cs = []
            for k in ob.shape.opt:
                h = dhas(ob.base, V.VStr(z3.StringVal(k)))
                cs.append(h if k in keys else z3.Not(h))
            for k, v in oa.ents:
                f, w = self.dict_lookup(b, k)
                if not f:
                    return False
                c = self.values_eq(v, w)
                if c is False:
                    return False
                if c is not True:
                    cs.append(c)
            return z3.And(*cs) if cs else True
        if oa.base is not None and ob.base is not None and oa.base.eq(ob.base) and not oa.ents and not ob.ents and not oa.absent and not ob.absent:
            return True
        if oa.base is not None and isinstance(oa.shape, MapT) and not oa.ents and ob.base is None:
            if len(ob.ents) == 0:
                return dlen(oa.base) == 0
        if ob.base is not None and isinstance(ob.shape, MapT) and not ob.ents and oa.base is None:
            if len(oa.ents) == 0:
                return dlen(ob.base) == 0
            if any(isinstance(k, str) and isinstance(ob.shape.keys, (list, tuple)) and k not in ob.shape.keys for k, _ in oa.ents):
                return False
        raise Unsupported('== on symbolic dicts')

    # ------------------------------------------------------------ kinds and coercions
    def kind(self, v):
        if v is None:
            return 'none'
        if v is True or v is False:
            return 'bool'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, (float, Fraction)):
            return 'real'
        if isinstance(v, str):
            return 'str'
        if isinstance(v, bytes):
            return 'bytes'
        if isinstance(v, (Sym, Rope)):
            return v.k
        if isinstance(v, tuple):
            return 'tuple'
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, TObj):
                return 'tuple'
            if isinstance(o, LObj):
                return 'list'
            if isinstance(o, DObj):
                return 'dict'
            if isinstance(o, SetObj):
                return 'set'
            if isinstance(o, IterObj):
                return 'iter'
            return 'obj'
        return type(v).__name__

    def num_term(self, v):
        if v is True or v is False:
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            return z3.RealVal(str(Fraction(v)))
        if isinstance(v, Fraction):
            return z3.RealVal(str(v))
        if isinstance(v, Sym):
            if v.k == 'bool':
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            return v.t
        raise Unsupported('numeric term of %r' % (v,))

    def real_term(self, v):
        t = self.num_term(v)
        return z3.ToReal(t) if t.sort() == I else t

    def str_term(self, v):
        if isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(v, bytes):
            return z3.StringVal(v.decode('latin-1'))
        if isinstance(v, Sym) and v.k in ('str', 'bytes'):
            return v.t
        if isinstance(v, Rope):
            return self.rope_term(v).t
        raise Unsupported('string term of %r' % (v,))

    def rope_term(self, r):
        ts = []
        for s in r.segs:
            if isinstance(s, (str, bytes)):
                ts.append(self.str_term(s))
            elif is_z3(s):
                ts.append(s)
            elif isinstance(s, Flat):
                nm = 'flatstr!%s' % self.flat_key(s)
                ts.append(z3.Const(nm, S))
            else:
                if isinstance(s, Acc):
                    raise CarriedRead(('str', s.oid))
                raise Unsupported('rope segment')
        if not ts:
            return Sym(r.k, z3.StringVal(''))
        return Sym(r.k, ts[0] if len(ts) == 1 else z3.Concat(*ts))

    def mkrope(self, k, parts):
        segs = []
        for p in parts:
            if isinstance(p, Rope):
                new = p.segs
            elif isinstance(p, (str, bytes)):
                new = (p,) if len(p) else ()
            elif isinstance(p, Sym):
                new = (p.t,)
            else:
                new = (p,)
            for s in new:
                if segs and isinstance(s, (str, bytes)) and isinstance(segs[-1], type(s)):
                    segs[-1] = segs[-1] + s
                else:
                    segs.append(s)
        if all(isinstance(s, (str, bytes)) for s in segs):
            return segs[0] if segs else ('' if k == 'str' else b'')
        if any(isinstance(s, (Flat, Acc, JoinSeg)) for s in segs):
            return Rope(k, segs)
        ts = [self.str_term(s) if isinstance(s, (str, bytes)) else s for s in segs]
        return Sym(k, simp(ts[0] if len(ts) == 1 else z3.Concat(*ts)))

    def rope_eq(self, a, b):
        sa = a.segs if isinstance(a, Rope) else (self.str_term(a),)
        sb = b.segs if isinstance(b, Rope) else (self.str_term(b),)
        ra, rb = self.rope_term(Rope('str', sa)), self.rope_term(Rope('str', sb))
        return ra.t == rb.t

    def truth_term(self, v):
        """python bool or z3 bool"""
        if isinstance(v, SV) and isinstance(v.shape, OneT) and all(x is NoneT or x is BoolT for x in v.shape.alts):
            return z3.And(V.is_VBool(v.t), V.bv(v.t))
        v = self.resolve(v)
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float, str, bytes, tuple, Fraction)):
            return bool(v)
        if isinstance(v, Sym):
            if v.k == 'bool':
                return v.t
            if v.k in ('int', 'real'):
                return v.t != 0
            return z3.Length(v.t) > 0
        if isinstance(v, Rope):
            return z3.Length(self.rope_term(v).t) > 0
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, (LObj, DObj, SetObj)):
                n = self.length(v)
                return n > 0 if isinstance(n, int) else self.num_term(n) > 0
            if isinstance(o, IObj) and o.cls is not None:
                m, _ = self.class_lookup(o.cls, '__bool__')
                if m is not UNSET:
                    return self.truth_term(self.call(Bound(m, v), [], {}))
                m, _ = self.class_lookup(o.cls, '__len__')
                if m is not UNSET:
                    return self.truth_term(self.call(Bound(m, v), [], {}))
            return True
        if isinstance(v, SV):
            if 'truth' in self.opts:
                return self.opts['truth'](self, v)
            return True
        if isinstance(v, Opaque) and 'truth' in v.attrs:
            t = v.attrs['truth']
            return t(self) if callable(t) else t
        return True

    def truth(self, v):
        return self.branch(self.truth_term(v))

    def length(self, v):
        v = self.resolve(v)
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if isinstance(v, Sym) and v.k in ('str', 'bytes'):
            return self.norm(Sym('int', z3.Length(v.t)))
        if isinstance(v, Rope):
            return self.norm(Sym('int', z3.Length(self.rope_term(v).t)))
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, LObj):
                return self.segs_len(o.segs)
            if isinstance(o, DObj):
                if o.base is None and all(isinstance(e, tuple) for e in o.ents):
                    return len(o.ents)
                if o.base is not None and not o.ents and not o.absent:
                    if isinstance(o.shape, DictT):
                        n = len(o.shape.req)
                        t = z3.IntVal(n)
                        for k in o.shape.opt:
                            t = t + z3.If(dhas(o.base, V.VStr(z3.StringVal(k))), 1, 0)
                        return self.norm(Sym('int', t))
                    return Sym('int', dlen(o.base))
                if o.ents and o.base is None and any(isinstance(e, tuple) for e in o.ents):
                    r = self.fresh_sym('int', 'dictlen')
                    self.assume(r.t >= 1)
                    return r
                for e in o.ents:
                    if isinstance(e, Acc):
                        raise CarriedRead(('dict', e.oid))
                if len(o.ents) == 1 and isinstance(o.ents[0], Flat) and o.base is None:
                    r = z3.Int('flatdlen!%s' % self.flat_key(o.ents[0]))
                    self.assume(z3.And(r >= 0, r <= o.ents[0].n, z3.Implies(o.ents[0].n >= 1, r >= 1)) if
                                all(len(c.pay) >= 1 for c in o.ents[0].cases) else r >= 0)
                    return Sym('int', r)
                if o.base is not None and o.ents and isinstance(o.shape, MapT) and not o.absent:
                    r = self.fresh_sym('int', 'dictlen')
                    self.assume(z3.And(r.t >= 1, r.t >= dlen(o.base)))
                    return r
                if o.base is not None and all(isinstance(x, tuple) for x in o.ents):
                    r = self.fresh_sym('int', 'dictlen')
                    self.assume(r.t >= (1 if o.ents else 0))
                    return r
                raise Unsupported('len of dict')
            if isinstance(o, SetObj):
                return self.set_len(o)
            if isinstance(o, IObj) and o.cls is not None:
                m, _ = self.class_lookup(o.cls, '__len__')
                if m is not UNSET:
                    return self.call(Bound(m, v), [], {})
        if v is None or self.kind(v) in ('int', 'bool', 'real'):
            self.raise_(TypeError, 'object has no len()')
        raise Unsupported('len of %r' % (v,))

    def set_len(self, o):
        es = list(o.elems)
        out = []
        for e in es:
            if not any(self.branch(self.values_eq(e, f)) for f in out):
                out.append(e)
        return len(out)

    def segs_len(self, segs):
        n = 0
        sym = None
        for s in segs:
            if isinstance(s, Elem):
                n += 1
            elif isinstance(s, Acc):
                raise CarriedRead(('list', s.oid))
            else:
                t = self.flat_len(s)
                sym = t if sym is None else sym + t
        if sym is None:
            return n
        return self.norm(Sym('int', sym + n))

    def flat_len(self, f):
        per = set()
        for c in f.cases:
            m = 0
            for s in c.pay:
                if isinstance(s, Elem):
                    m += 1
                else:
                    m = None
                    break
            per.add(m)
        if len(per) == 1 and None not in per:
            return f.n * per.pop()
        if per == set():
            return z3.IntVal(0)
        nm = z3.Int('flatlen!%s' % self.flat_key(f))
        self.assume(nm >= 0)
        return nm


class Env:
    __slots__ = ('mod', 'parent', 'fid', 'is_class', 'locals', 'globals', 'nonlocals', 'func', 'self_', 'cls')

    def __init__(self, mod, parent, fid, is_class=False, locals_=None, globals_=(), nonlocals_=(), func=None, cls=None):
        self.mod = mod
        self.parent = parent
        self.fid = fid
        self.is_class = is_class
        self.locals = locals_
        self.globals = globals_
        self.nonlocals = nonlocals_
        self.func = func
        self.self_ = None
        self.cls = cls


class LazyVal:
    __slots__ = ('node', 'env')

    def __init__(self, node, env):
        self.node, self.env = node, env


class NestedFlat:
    """a nested Flat met while iterating a group"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class TupShapeHint:
    """rebuild hint for an unmodified symbolic list/fixed list"""

    def __init__(self, o):
        self.o = o

    def shape_for(self, eng):
        if len(self.o.segs) == 1 and isinstance(self.o.segs[0], Flat):
            return ListT(self.o.shape if self.o.shape is not None else AnyT)
        return TupT([AnyT] * len(self.o.segs))


_ScalarT = type(StrT)
SC = {'str': (V.is_VStr, V.sv), 'int': (V.is_VInt, V.iv), 'bool': (V.is_VBool, V.bv), 'real': (V.is_VReal, V.rv),
      'bytes': (V.is_VBytes, V.yv)}


def zstr(t):
    s = t.as_string()
    # undo \u{..} escapes
    import re as _re
    return _re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def has_yield(node):
    for n in walk_scope(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_scope(node):
    """walk a function body without entering nested functions/classes"""
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


from .interp import Interp, LoopRetry    # noqa: E402


class Engine(EngineBase, Interp):
    pass
