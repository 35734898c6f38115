"""Contracts of scheduler.crypto.ope (C01, C02)."""
import ast

import z3
from pyded.values import *
from pyded.engine import Unsupported, PathEnd, PyRaise, simp, Infeasible, ReturnEx, BreakEx, ContinueEx, zbool, FrameObj
from pyded import builtins_ as bi

M = 'scheduler.crypto.ope.ope'
ST = 'scheduler.crypto.ope.stat'

HGF = z3.Function('rhyper', I, I, I, S, S, I)            # kk, good, bad, key, data -> sample
SUF = z3.Function('uniform', I, I, S, S, I)              # range, key, data -> value
HSF = z3.Function('sample_hgd', I, I, I, I, I, S, S, I)
ENC = z3.Function('E', S, I, I, I, I, I, I)              # key, plaintext, in range, out range


def ext_six(e):
    return (ExtClass(int),)


def math_ceil(e, a, k):
    v = e.resolve(a[0])
    t = e.real_term(v)
    return e.norm(Sym('int', simp(-z3.ToInt(-t))))


def math_floor(e, a, k):
    v = e.resolve(a[0])
    return e.norm(Sym('int', simp(z3.ToInt(e.real_term(v)))))


EXT = {'math.ceil': math_ceil, 'math.floor': math_floor}
VALUES = {'six.integer_types': ext_six}


def coins_of(e, key, data):
    return Opaque('coins', {'key': key, 'data': data})


def rng(e, r):
    s = e.num_term(e.resolve(e.getattr_(r, 'start')))
    t = e.num_term(e.resolve(e.getattr_(r, 'end')))
    return s, t


def mkrange(e, lo, hi):
    c = e.get_global(M, 'ValueRange')
    return e.call(c, [Sym('int', lo), Sym('int', hi)], {})


def tape_contract(e, f, args, kw):
    """tape_gen(data): a bit stream that is a function of (key, data) alone (verified by task tape_gen)"""
    self, data = args
    key = e.str_term(e.resolve(e.getattr_(self, 'key')))
    d = e.str_term(bi.py_str(e, data))
    return coins_of(e, key, d)


def coins_args(e, coins):
    c = e.resolve(coins)
    if not (isinstance(c, Opaque) and c.name == 'coins'):
        raise Unsupported('coins of unknown origin')
    if c.attrs.get('used'):
        raise Unsupported('coins used twice')
    return c.attrs['key'], c.attrs['data']


def rhyper_model(e, f, args, kw):
    """assumed: an integer (or an exception) determined by its arguments and the bit stream"""
    kk, good, bad, coins = args
    key, data = coins_args(e, coins)
    r = HGF(e.num_term(e.resolve(kk)), e.num_term(e.resolve(good)), e.num_term(e.resolve(bad)), key, data)
    e.assumed.add('HGD.rhyper: pure function of its arguments and of the bit stream')
    return Sym('int', r)


def sample_hgd_contract(e, f, args, kw):
    """result inside in_range, determined by the ranges, nsample and the coins; or AssertionError"""
    i, o, n, coins = args
    s, t = rng(e, i)
    a, b = rng(e, o)
    nt = e.num_term(e.resolve(n))
    e.oblige('pre sample_hgd: in_range non-empty', s <= t)
    key, data = coins_args(e, coins)
    x = HSF(s, t, a, b, nt, key, data)
    ok = z3.Function('sample_hgd_ok', I, I, I, I, I, S, S, B)(s, t, a, b, nt, key, data)
    if not e.branch(ok):
        e.raise_(AssertionError)
    e.assume(z3.And(x >= s, x <= t))
    return Sym('int', x)


def sample_uniform_contract(e, f, args, kw):
    r, coins = args
    s, t = rng(e, r)
    key, data = coins_args(e, coins)
    x = SUF(s, t, key, data)
    e.oblige('pre sample_uniform: range non-empty', s <= t)
    e.assume(z3.And(x >= s, x <= t))
    return Sym('int', x)


BASE = {M + ':OPE.tape_gen': tape_contract, ST + ':sample_hgd': sample_hgd_contract, ST + ':sample_uniform': sample_uniform_contract}


def new_ope(e, ctx):
    c = e.get_global(M, 'OPE')
    o = e.alloc(IObj(c, {}))
    key = Sym('bytes', z3.Const('key', S))
    e.set_inst_attr(o, 'key', key)
    return o


def new_range(e, nm):
    lo, hi = z3.Int(nm + '_lo'), z3.Int(nm + '_hi')
    e.assume(lo <= hi)
    return mkrange(e, lo, hi), lo, hi


# ------------------------------------------------------------------ sample_hgd / sample_uniform / tape_gen against their contracts
def t_sample_hgd(ctx):
    e = ctx.engine({'scheduler.crypto.ope.hgd:HGD.rhyper': rhyper_model}, EXT, {'fp': 'rounddiv'}, VALUES)
    f = ctx.func(e, ST, 'sample_hgd')

    def run():
        i, s, t = new_range(e, 'in')
        o, a, b = new_range(e, 'out')
        n = Sym('int', z3.Int('nsample'))
        coins = coins_of(e, z3.Const('key', S), z3.Const('data', S))
        r1 = e.outcomes(lambda: e.inline(f, [i, o, n, coins], {}))
        coins2 = coins_of(e, z3.Const('key', S), z3.Const('data', S))
        r2 = e.outcomes(lambda: e.inline(f, [i, o, n, coins2], {}))
        return (s, t), (r1, r2)

    def onp(rg, rs):
        s, t = rg
        r1, r2 = rs
        if r1[0] != r2[0]:
            e.fail('sample_hgd is a function of its arguments', 'one call raises, the other returns')
            return
        if r1[0] == 'ok':
            ctx.cover('returns')
            x, y = e.num_term(r1[1]), e.num_term(r2[1])
            e.oblige('sample_hgd result lies in the input range', z3.And(x >= s, x <= t))
            e.oblige('sample_hgd is a function of its arguments', x == y)
    ctx.explore(e, ST + ':sample_hgd', run, onp)


def bit_stream(e, key, data):
    """the coins object as an iterator of bits 0/1: bit i is a function of (key, data, i)"""
    BIT = z3.Function('coin', S, S, I, I)
    pos = e.alloc(IObj(None, {'pos': 0}))

    def nxt(e):
        o = e.inst_attr(pos, e.obj(pos), 'pos')
        i = e.num_term(o)
        e.set_inst_attr(pos, 'pos', e.norm(Sym('int', i + 1)))
        v = BIT(key, data, i)
        e.assume(z3.Or(v == 0, v == 1))
        return Sym('int', v)
    return Opaque('coins', {'key': key, 'data': data, '__next__': nxt, 'isinstance': lambda e, c: False})


def t_sample_uniform(ctx):
    e = ctx.engine({}, EXT, {'fp': 'rounddiv', 'unroll_while': 1}, VALUES)
    f = ctx.func(e, ST, 'sample_uniform')

    def run():
        r, s, t = new_range(e, 'r')
        coins = bit_stream(e, z3.Const('key', S), z3.Const('data', S))
        res = e.outcomes(lambda: e.inline(f, [r, coins], {}))
        lo, hi = rng(e, r)
        return (s, t, lo, hi), res

    def onp(rg, res):
        s, t, lo, hi = rg
        if res[0] == 'ok':
            ctx.cover('returns')
            x = e.num_term(e.resolve(res[1]))
            e.oblige('sample_uniform result lies in the range', z3.And(x >= s, x <= t))
            e.oblige('sample_uniform leaves the caller\'s range unchanged', z3.And(lo == s, hi == t))
        elif e.obj(res[1]).cls == ExtClass(AssertionError):
            e.fail('sample_uniform does not fail on a non-empty range', 'AssertionError')
        else:
            e.fail('sample_uniform does not fail on 0/1 coins', 'raises %r' % (e.obj(res[1]).cls,))
    ctx.explore(e, ST + ':sample_uniform', run, onp)
    # determinism: one bisection step is a function of range and bit; the loop reads nothing else
    e2 = ctx.engine({}, EXT, {'fp': 'rounddiv', 'while_split': 12}, VALUES)

    def run2():
        out = []
        for i in range(2):
            r, s, t = new_range(e2, 'r')
            e2.assume(t - s <= 7)
            coins = bit_stream(e2, z3.Const('key', S), z3.Const('data', S))
            out.append(e2.outcomes(lambda: e2.inline(f2, [r, coins], {})))
        return None, out
    f2 = ctx.func(e2, ST, 'sample_uniform')

    def onp2(_, out):
        a, b = out
        if a[0] != b[0]:
            e2.fail('sample_uniform is a function of range and coins (ranges up to 8 values)', 'outcomes differ')
        elif a[0] == 'ok':
            ctx.cover('deterministic')
            e2.prove_eq('sample_uniform is a function of range and coins (ranges up to 8 values)', a[1], b[1])
    ctx.bounded.append('sample_uniform determinism: complete unrolling for ranges of at most 8 values')
    ctx.explore(e2, ST + ':sample_uniform', run2, onp2)


# ------------------------------------------------------------------ encrypt_recursive
def tail_loop(contracts):
    """a recursion written as a loop: the head of the loop has the contract of the function, in what its parameters hold there.
    Everything assigned before the loop must be what the same statements compute from the parameters at the head."""
    def hook(e, stmt, env, test, body):
        c = contracts.get('%s:%s' % (env.mod, env.func))
        if c is None:
            return False
        cls, name = env.func.split('.')
        f, _ = e.class_lookup(e.get_global(env.mod, cls), name)
        if stmt not in f.node.body:
            raise Unsupported('a loop inside the recursion')
        before = [x for x in f.node.body[:f.node.body.index(stmt)] if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if e.st.ghost.get('second') == f.qual:
            raise Unsupported('a loop in a loop')
        if not test():
            e.exec_block(stmt.orelse, env)
            return True
        try:
            body()
        except ContinueEx:
            pass
        except BreakEx:
            return True
        names = [x.arg for x in f.node.args.args]
        args = [e.lookup(x, env) for x in names]
        written = sorted({y.id for x in before for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)} - set(names))
        if written:
            now = [e.lookup(x, env) for x in written]
            e.exec_block(before, env)
            for x, was in zip(written, now):
                if not e.must(zbool(e.values_eq(was, e.lookup(x, env)))):
                    raise Unsupported('the loop does not begin again where it began')
            for x, was in zip(names, args):
                if not e.must(zbool(e.values_eq(was, e.lookup(x, env)))):
                    raise Unsupported('the loop does not begin again where it began')
        raise ReturnEx(c(e, f, args, {}))
    return hook


def recursion_engine(ctx, contracts):
    return ctx.engine({**BASE, **contracts}, EXT, {'fp': 'rounddiv', 'while_loop': tail_loop(contracts)}, VALUES)


def enc_rec_contract(e, f, args, kw):
    """recursion under contract: value E(...) inside out_range, or an exception; smaller output range required"""
    self, p, i, o = args
    key = e.str_term(e.resolve(e.getattr_(self, 'key')))
    p = e.num_term(e.resolve(p))
    s, t = rng(e, i)
    a, b = rng(e, o)
    e.oblige('pre encrypt_recursive: plaintext inside the sub-range', z3.And(p >= s, p <= t))
    cur = e.st.ghost.get('outer')
    if cur is not None:
        e.oblige('encrypt_recursive: recursion on a strictly smaller output range inside the current one',
                 z3.And(a >= cur[0], b <= cur[1], b - a < cur[1] - cur[0], a <= b))
    okf = z3.Function('E_ok', S, I, I, I, I, I, B)
    if not e.branch(okf(key, p, s, t, a, b)):
        e.raise_(AssertionError)
    r = ENC(key, p, s, t, a, b)
    e.assume(z3.And(r >= a, r <= b))
    calls = e.st.ghost.get('calls', ())
    for (p2, s2, t2, a2, b2, r2) in calls:
        # induction hypothesis: strict monotonicity on the same (smaller) ranges
        same = z3.And(s2 == s, t2 == t, a2 == a, b2 == b)
        e.assume(z3.Implies(z3.And(same, p2 < p), r2 < r))
        e.assume(z3.Implies(z3.And(same, p2 > p), r2 > r))
    e.setghost('calls', calls + ((p, s, t, a, b, r),))
    return Sym('int', r)


def t_enc_rec(ctx):
    e = recursion_engine(ctx, {M + ':OPE.encrypt_recursive': enc_rec_contract})
    f = ctx.func(e, M, 'OPE.encrypt_recursive')

    def run():
        ope = new_ope(e, ctx)
        i, s, t = new_range(e, 'in')
        o, a, b = new_range(e, 'out')
        i2, _, _ = new_range(e, 'in')
        o2, _, _ = new_range(e, 'out')
        p, q = z3.Int('p'), z3.Int('q')
        e.assume(z3.And(p >= s, p <= t, q >= s, q <= t))
        e.setghost('outer', (a, b))
        r1 = e.outcomes(lambda: e.inline(f, [ope, Sym('int', p), i, o], {}))
        if r1[0] != 'ok':
            raise PathEnd()
        r2 = e.outcomes(lambda: e.inline(f, [ope, Sym('int', q), i2, o2], {}))
        return (p, q, a, b), (r1, r2)

    def onp(c, rs):
        p, q, a, b = c
        r1, r2 = rs
        x = e.num_term(e.resolve(r1[1]))
        e.oblige('encrypt_recursive result lies in the output range', z3.And(x >= a, x <= b))
        if r2[0] != 'ok':
            e.oblige('encrypt_recursive is a function (same outcome on the same input)', p != q)
            return
        ctx.cover('both encrypt')
        y = e.num_term(e.resolve(r2[1]))
        e.oblige('encrypt_recursive is strictly increasing', z3.Implies(p < q, x < y))
        e.oblige('encrypt_recursive is a function (same value on the same input)', z3.Implies(p == q, x == y))
    ctx.explore(e, M + ':OPE.encrypt_recursive', run, onp)


def enc_top_contract(e, f, args, kw):
    self, p, i, o = args
    key = e.str_term(e.resolve(e.getattr_(self, 'key')))
    p = e.num_term(e.resolve(p))
    s, t = rng(e, i)
    a, b = rng(e, o)
    e.oblige('pre encrypt_recursive: plaintext inside the input range', z3.And(p >= s, p <= t))
    okf = z3.Function('E_ok', S, I, I, I, I, I, B)
    if not e.branch(okf(key, p, s, t, a, b)):
        e.raise_(AssertionError)
    r = ENC(key, p, s, t, a, b)
    e.assume(z3.And(r >= a, r <= b))
    e.setghost('top', (key, p, s, t, a, b))
    return Sym('int', r)


def t_encrypt(ctx):
    e = ctx.engine({**BASE, M + ':OPE.encrypt_recursive': enc_top_contract}, EXT, {'fp': 'rounddiv'}, VALUES)
    f = ctx.func(e, M, 'OPE.encrypt')

    def run():
        cls = e.get_global(M, 'OPE')
        i, s, t = new_range(e, 'in')
        o, a, b = new_range(e, 'out')
        key = Sym('bytes', z3.Const('key', S))
        made = e.outcomes(lambda: e.call(cls, [key, i, o], {}))
        if made[0] != 'ok':
            e.oblige('OPE() refuses only ranges it cannot embed', t - s > b - a)
            raise PathEnd()
        p = z3.Int('p')
        r = e.outcomes(lambda: e.inline(f, [made[1], Sym('int', p)], {}))
        return (p, s, t, a, b), r

    def onp(c, r):
        p, s, t, a, b = c
        if r[0] == 'ok':
            ctx.cover('encrypts')
            top = e.st.ghost.get('top')
            x = e.num_term(e.resolve(r[1]))
            e.oblige('encrypt refuses integers outside the input range', z3.And(p >= s, p <= t))
            e.oblige('encrypt returns encrypt_recursive over the configured ranges',
                     x == ENC(z3.Const('key', S), p, s, t, a, b))
            e.oblige('encrypt result lies in the output range', z3.And(x >= a, x <= b))
        else:
            ctx.cover('refuses')
            okf = z3.Function('E_ok', S, I, I, I, I, I, B)
            e.oblige('encrypt fails only outside the range or when encrypt_recursive fails',
                     z3.Or(p < s, p > t, z3.Not(okf(z3.Const('key', S), p, s, t, a, b))))
    ctx.explore(e, M + ':OPE.encrypt', run, onp)


# ------------------------------------------------------------------ OPECipher
SHA = z3.Function('sha256', S, S)
HEX = z3.Function('bytes_hex', S, S)


def ext_sha(e, a, k):
    d = e.str_term(e.resolve(a[0]))
    return Opaque('sha', {'hexdigest': Builtin('hexdigest', lambda e, a, k: Sym('str', HEX(SHA(d)))),
                          'digest': Builtin('digest', lambda e, a, k: Sym('bytes', SHA(d)))})


EXT_C = {'hashlib.sha256': ext_sha}
CM = 'scheduler.crypto.encrypt'
OENC = z3.Function('OPE_encrypt', S, I, I)
ODEC = z3.Function('OPE_decrypt', S, I, I)


def t_opecipher(ctx):
    """OPECipher: encrypt/decrypt are OPE.encrypt/decrypt over int(raw) with a key derived from the key text alone"""
    def ope_new(e, cls, args, kw):
        key = e.resolve(args[0])
        if len(args) > 1 and args[1] is not None or len(args) > 2 and args[2] is not None or kw:
            raise Unsupported('OPECipher with explicit ranges')
        return e.alloc(IObj(cls, {'key': key}))

    def oenc(e, f, args, kw):
        return Sym('int', OENC(e.str_term(e.getattr_(args[0], 'key')), e.num_term(e.resolve(args[1]))))

    def odec(e, f, args, kw):
        return Sym('int', ODEC(e.str_term(e.getattr_(args[0], 'key')), e.num_term(e.resolve(args[1]))))
    e = ctx.engine({M + ':OPE': ope_new, M + ':OPE.encrypt': oenc, M + ':OPE.decrypt': odec}, {**EXT, **EXT_C}, {'fp': 'rounddiv'}, VALUES)
    ctx.func(e, CM, 'OPECipher.__init__')
    fe = ctx.func(e, CM, 'OPECipher.encrypt')
    fd = ctx.func(e, CM, 'OPECipher.decrypt')

    def run():
        cls = e.get_global(CM, 'OPECipher')
        k = Sym('str', z3.Const('keytext', S))
        c1 = e.call(cls, [k], {})
        c2 = e.call(cls, [k], {})
        p = Sym('int', z3.Int('p'))
        q = Sym('int', z3.Int('c'))
        kt = e.str_term(e.getattr_(e.getattr_(c1, 'cipher'), 'key'))
        return kt, (e.inline(fe, [c1, p], {}), e.inline(fe, [c2, p], {}), e.inline(fd, [c2, q], {}),
                    e.str_term(e.getattr_(e.getattr_(c2, 'cipher'), 'key')))

    def onp(kt, v):
        a, b, d, kt2 = v
        ctx.cover('runs')
        e.oblige('OPECipher key depends on the key text only', kt == kt2)
        e.prove_eq('OPECipher.encrypt is OPE.encrypt of the integer', a, Sym('int', OENC(kt, z3.Int('p'))))
        e.prove_eq('OPECipher.encrypt is a function of key and integer', a, b)
        e.prove_eq('OPECipher.decrypt is OPE.decrypt of the integer', d, Sym('int', ODEC(kt, z3.Int('c'))))
    ctx.explore(e, CM + ':OPECipher', run, onp)


# ------------------------------------------------------------------ C02
def t_roundtrip(ctx):
    """decrypt_recursive(encrypt_recursive(p)) == p, by induction on the output range"""
    def dec_rec(e, f, args, kw):
        self, c, i, o = args
        c = e.num_term(e.resolve(c))
        s, t = rng(e, i)
        a, b = rng(e, o)
        key = e.str_term(e.resolve(e.getattr_(self, 'key')))
        cur = e.st.ghost.get('outer')
        e.oblige('decrypt_recursive: recursion on a strictly smaller output range', z3.And(b - a < cur[1] - cur[0], a <= b))
        for (p2, s2, t2, a2, b2, r2) in e.st.ghost.get('calls', ()):
            cond = z3.And(s2 == s, t2 == t, a2 == a, b2 == b, r2 == c)
            if e.branch(cond):
                return Sym('int', p2)      # induction hypothesis
        # not the ciphertext of the recursive call: no knowledge
        r = e.fresh(I, 'dec')
        if e.branch(z3.FreshConst(B)):
            e.raise_(ValueError)
        return Sym('int', r)
    e = recursion_engine(ctx, {M + ':OPE.encrypt_recursive': enc_rec_contract, M + ':OPE.decrypt_recursive': dec_rec})
    fe = ctx.func(e, M, 'OPE.encrypt_recursive')
    fd = ctx.func(e, M, 'OPE.decrypt_recursive')

    def run():
        ope = new_ope(e, ctx)
        i, s, t = new_range(e, 'in')
        o, a, b = new_range(e, 'out')
        i2, _, _ = new_range(e, 'in')
        o2, _, _ = new_range(e, 'out')
        p = z3.Int('p')
        e.assume(z3.And(p >= s, p <= t))
        e.setghost('outer', (a, b))
        r1 = e.outcomes(lambda: e.inline(fe, [ope, Sym('int', p), i, o], {}))
        if r1[0] != 'ok':
            raise PathEnd()
        r2 = e.outcomes(lambda: e.inline(fd, [ope, r1[1], i2, o2], {}))
        return p, r2

    def onp(p, r2):
        if r2[0] != 'ok':
            e.fail('decrypt_recursive returns on a ciphertext of encrypt_recursive', 'raises %r' % (e.obj(r2[1]).cls,))
            return
        ctx.cover('decrypts')
        e.oblige('decrypt_recursive inverts encrypt_recursive', e.num_term(e.resolve(r2[1])) == p)
    ctx.explore(e, M + ':OPE.decrypt_recursive', run, onp)


def t_reject(ctx):
    """decrypt_recursive(c) = p implies encrypt_recursive(p) = c, by induction"""
    def dec_rec(e, f, args, kw):
        self, c, i, o = args
        c = e.num_term(e.resolve(c))
        s, t = rng(e, i)
        a, b = rng(e, o)
        key = e.str_term(e.resolve(e.getattr_(self, 'key')))
        cur = e.st.ghost.get('outer')
        e.oblige('decrypt_recursive: recursion on a strictly smaller output range', z3.And(b - a < cur[1] - cur[0], a <= b))
        if e.branch(z3.FreshConst(B)):
            e.raise_(ValueError)
        p = e.fresh(I, 'dec')
        okf = z3.Function('E_ok', S, I, I, I, I, I, B)
        # induction hypothesis: what it returns lies in the input range and encrypts to c
        e.assume(z3.And(p >= s, p <= t, okf(key, p, s, t, a, b), ENC(key, p, s, t, a, b) == c))
        return Sym('int', p)
    e = recursion_engine(ctx, {M + ':OPE.encrypt_recursive': enc_rec_contract, M + ':OPE.decrypt_recursive': dec_rec})
    fe = ctx.func(e, M, 'OPE.encrypt_recursive')
    fd = ctx.func(e, M, 'OPE.decrypt_recursive')

    def run():
        ope = new_ope(e, ctx)
        i, s, t = new_range(e, 'in')
        o, a, b = new_range(e, 'out')
        i2, _, _ = new_range(e, 'in')
        o2, _, _ = new_range(e, 'out')
        c = z3.Int('c')
        e.setghost('outer', (a, b))
        r1 = e.outcomes(lambda: e.inline(fd, [ope, Sym('int', c), i, o], {}))
        if r1[0] != 'ok':
            raise PathEnd()
        p = e.num_term(e.resolve(r1[1]))
        e.oblige('decrypt_recursive returns an integer of the input range', z3.And(p >= s, p <= t))
        e.assume(z3.And(p >= s, p <= t))
        r2 = e.outcomes(lambda: e.inline(fe, [ope, r1[1], i2, o2], {}))
        return c, r2

    def onp(c, r2):
        if r2[0] != 'ok':
            e.fail('what decrypt_recursive returns encrypts', 'raises %r' % (e.obj(r2[1]).cls,))
            return
        ctx.cover('re-encrypts')
        e.oblige('what decrypt_recursive returns encrypts to the number given', e.num_term(e.resolve(r2[1])) == c)
    ctx.explore(e, M + ':OPE.decrypt_recursive', run, onp)


def t_decrypt_top(ctx):
    D = z3.Function('D', S, I, I, I, I, I, I)
    okf = z3.Function('D_ok', S, I, I, I, I, I, B)

    def dec_rec(e, f, args, kw):
        self, c, i, o = args
        c = e.num_term(e.resolve(c))
        s, t = rng(e, i)
        a, b = rng(e, o)
        key = e.str_term(e.resolve(e.getattr_(self, 'key')))
        if not e.branch(okf(key, c, s, t, a, b)):
            e.raise_(ValueError)
        return Sym('int', D(key, c, s, t, a, b))
    e = ctx.engine({**BASE, M + ':OPE.decrypt_recursive': dec_rec}, EXT, {'fp': 'rounddiv'}, VALUES)
    f = ctx.func(e, M, 'OPE.decrypt')

    def run():
        cls = e.get_global(M, 'OPE')
        i, s, t = new_range(e, 'in')
        o, a, b = new_range(e, 'out')
        made = e.outcomes(lambda: e.call(cls, [Sym('bytes', z3.Const('key', S)), i, o], {}))
        if made[0] != 'ok':
            raise PathEnd()
        c = z3.Int('c')
        r = e.outcomes(lambda: e.inline(f, [made[1], Sym('int', c)], {}))
        return (c, s, t, a, b), r

    def onp(x, r):
        c, s, t, a, b = x
        key = z3.Const('key', S)
        if r[0] == 'ok':
            ctx.cover('decrypts')
            e.oblige('decrypt returns decrypt_recursive over the configured ranges',
                     z3.And(okf(key, c, s, t, a, b), e.num_term(e.resolve(r[1])) == D(key, c, s, t, a, b)))
        else:
            e.oblige('decrypt refuses only numbers outside the range or those decrypt_recursive refuses',
                     z3.Or(c < a, c > b, z3.Not(okf(key, c, s, t, a, b))))
    ctx.explore(e, M + ':OPE.decrypt', run, onp)


def t_tape(ctx):
    """tape_gen: every block of the stream is a function of (key, data) and consists of bits. The loop is cut at an arbitrary block:
    what the loop carries from block to block (the position in the key stream and the variables it assigns) is the same function of
    (key, data) at the head of every round when it is so at the first and each round keeps it so."""
    KS = z3.Function('ctr_stream', S, S, I, S)      # AES-CTR key stream block, by digest, nonce and block number
    HM = z3.Function('hmac_sha256', S, S, S)

    def hm_new(e, a, k):
        st = e.alloc(IObj(None, {'d': ''}))
        key = e.str_term(e.resolve(a[0]))
        buf = [a[1]] if len(a) > 1 and a[1] is not None else ([k['msg']] if k.get('msg') is not None else [])
        o = Opaque('hmac', {'digest_size': 32})
        st2 = e.alloc(LObj([Elem(x) for x in buf]))

        def dig(e):
            t = e.mkrope('bytes', [x.v for x in e.obj(st2).segs])
            r = HM(key, e.str_term(t))
            e.assume(z3.Length(r) == 32)
            return Sym('bytes', r)
        o.attrs['update'] = Builtin('update', lambda e, a, k: bi.list_append(e, st2, e.resolve(a[0])))
        o.attrs['digest'] = Builtin('digest', lambda e, a, k: dig(e))
        return o

    def cipher(e, a, k):
        algo = a[0]
        mode = a[1] if len(a) > 1 else k['mode']
        nonce = e.str_term(e.resolve(mode.attrs['nonce']))

        def encryptor(e, a2, k2):
            pos = e.alloc(IObj(None, {'n': 0}))
            e.setghost('pos', e.st.ghost.get('pos', ()) + (pos,))

            def upd(e, a3, k3):
                d = e.resolve(a3[0])
                if not (isinstance(d, bytes) and d == b'\0' * 16):
                    raise Unsupported('key stream over other data')
                n = e.obj(pos).attrs['n']
                e.set_inst_attr(pos, 'n', n + 1)
                r = KS(algo.attrs['key'], nonce, n if z3.is_expr(n) else z3.IntVal(n))
                e.assume(z3.Length(r) == 16)
                return Sym('bytes', r)
            return Opaque('enc', {'update': Builtin('update', upd)})
        return Opaque('cipher', {'encryptor': Builtin('encryptor', encryptor)})
    ext = {**EXT, 'hmac.HMAC': hm_new, 'hmac.new': hm_new,
           'cryptography.hazmat.primitives.ciphers.algorithms.AES': lambda e, a, k: Opaque('aes', {'key': e.str_term(e.resolve(a[0]))}),
           'cryptography.hazmat.primitives.ciphers.modes.CTR': lambda e, a, k: Opaque('ctr', {'nonce': a[0]}),
           'cryptography.hazmat.primitives.ciphers.Cipher': cipher,
           'cryptography.hazmat.backends.default_backend': lambda e, a, k: None}

    def bits(e, f, args, kw):
        """str_to_bitstring: assumed here, a list of 0/1 determined by the bytes"""
        t = e.str_term(e.resolve(args[0]))
        BF = z3.Function('bit_of', S, I, I)
        k = e.kvar()
        x = BF(t, k)
        return e.alloc(LObj([Flat(8 * z3.Length(t), k, [Case([], [z3.Or(x == 0, x == 1)], [Elem(Sym('int', x))])])]))

    def any_block(e, stmt, env, test, body):
        if e.st.ghost.get('head') is not None:
            raise Unsupported('a second loop')
        names = sorted({n.id for x in [stmt.test] + stmt.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        out = e.gen_list(env)
        fr = e.st.heap[env.fid]
        entry = [(nm, fr[nm]) for nm in names if nm in fr]
        first = (list(e.obj(out).segs), [v for _nm, v in entry], [e.obj(p).attrs['n'] for p in e.st.ghost.get('pos', ())])
        for i, p in enumerate(e.st.ghost.get('pos', ())):
            n = z3.Int('block_%d' % i)
            e.assume(n >= 0)
            e.set_inst_attr(p, 'n', n)
        for nm, v in entry:
            kd = e.kind(e.resolve(v))
            if kd not in ('int', 'bool', 'str', 'bytes'):
                raise Unsupported('the loop assigns %s' % nm)
            e.store_name(nm, Sym(kd, z3.Const('head_' + nm, {'int': I, 'bool': z3.BoolSort()}.get(kd, S))), env)
        e.setobj(out, LObj([]))
        e.setghost('head', True)
        keep = {i: o for i, o in e.st.heap.items() if i not in (env.fid, out.id) and i not in [p.id for p in e.st.ghost.get('pos', ())]}
        end = 'next'
        if not test():
            end = 'done'
        else:
            try:
                body()
            except ContinueEx:
                pass
            except BreakEx:
                end = 'done'
        if any(e.st.heap.get(i) is not o for i, o in keep.items() if isinstance(i, int) and not isinstance(o, FrameObj)):
            raise Unsupported('the loop changes an object')
        fr = e.st.heap[env.fid]
        block = e.alloc(LObj(list(e.obj(out).segs)))
        step = [fr[nm] for nm, _v in entry] + [Sym('int', z3.IntVal(x) if isinstance(x, int) else x) for x in (e.obj(p).attrs['n'] for p in e.st.ghost.get('pos', ()))]
        head = e.alloc(LObj(first[0]))
        e.setghost('head', None)
        e.setghost('pos', ())
        e.setghost('cut', (head, first[1] + [Sym('int', z3.IntVal(x)) for x in first[2]], end, block, step))
        raise ReturnEx(None)
    e = ctx.engine({'scheduler.crypto.ope.util:str_to_bitstring': bits}, ext, {'fp': 'rounddiv', 'while_loop': any_block}, VALUES)
    for nm in ('os.urandom', 'secrets.token_bytes'):
        def rnd(e, a, k):
            r = e.fresh(S, 'random')
            e.assume(z3.Length(r) == e.num_term(e.resolve(a[0])))
            return Sym('bytes', r)
        e.externals[nm] = rnd
    f = ctx.func(e, M, 'OPE.tape_gen')

    def run():
        out = []
        for i in range(2):
            o = new_ope(e, ctx)
            e.setghost('cut', None)
            r = e.inline(f, [o, Sym('int', z3.Int('data'))], {})
            out.append((r, e.st.ghost['cut']))
        return None, out

    def onp(_, out):
        ctx.cover('stream')
        (r1, c1), (r2, c2) = out
        if c1 is None or c2 is None:
            raise Unsupported('tape_gen without a loop')
        e.prove_eq('what tape_gen yields before its loop is a function of key and data', c1[0], c2[0])
        e.prove_eq('the state at the first round of tape_gen is a function of key and data', e.alloc(LObj([Elem(x) for x in c1[1]])), e.alloc(LObj([Elem(x) for x in c2[1]])))
        e.prove_eq('a round of tape_gen yields a function of key, data and position', c1[3], c2[3])
        e.prove_eq('a round of tape_gen leaves a state that is a function of key, data and position', e.alloc(LObj([Elem(x) for x in c1[4]])), e.alloc(LObj([Elem(x) for x in c2[4]])))
        if c1[2] == c2[2]:
            e.ok('tape_gen ends as a function of key and data')
        else:
            e.fail('tape_gen ends as a function of key and data', '%s / %s' % (c1[2], c2[2]))
        for c in e.chunks_of(c1[3]):
            if c[0] == 's':
                v = c[2](z3.Int('i'))
                for b in v:
                    t = e.num_term(e.resolve(b))
                    e.oblige('tape_gen yields bits', z3.Implies(z3.And(z3.Int('i') >= 0, z3.Int('i') < c[1]), z3.Or(t == 0, t == 1)))
    ctx.explore(e, M + ':OPE.tape_gen', run, onp)


def t_bits(ctx):
    e = ctx.engine({}, EXT, {}, VALUES)
    f = ctx.func(e, 'scheduler.crypto.ope.util', 'byte_to_bitstring')
    e.cur = 'scheduler.crypto.ope.util:byte_to_bitstring'

    def run():
        out = []
        for b in range(256):
            out.append((b, e.concrete_iter(e.inline(f, [b], {}))))
        return None, out

    def onp(_, out):
        ctx.cover('all bytes')
        ok = all(v == [(b >> (7 - i)) & 1 for i in range(8)] for b, v in out)
        if ok:
            e.ok('byte_to_bitstring gives the 8 bits of each of the 256 bytes')
        else:
            e.fail('byte_to_bitstring gives the 8 bits of each of the 256 bytes', 'differs')
    e.externals['bin'] = None
    ctx.explore(e, e.cur, run, onp)


C01 = [('encrypt_recursive', t_enc_rec), ('encrypt', t_encrypt), ('sample_hgd', t_sample_hgd), ('sample_uniform', t_sample_uniform),
       ('OPECipher', t_opecipher), ('tape_gen', t_tape)]
C02 = [('roundtrip', t_roundtrip), ('reject', t_reject), ('decrypt', t_decrypt_top), ('sample_hgd', t_sample_hgd),
       ('sample_uniform', t_sample_uniform), ('OPECipher', t_opecipher), ('tape_gen', t_tape)]
