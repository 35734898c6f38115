"""Contracts of scheduler.crypto.encrypt (C03, C04, C05, C06)."""
from fractions import Fraction
import math
import z3
from pyded.values import *
from pyded.engine import Unsupported, PathEnd, simp
from pyded import builtins_ as bi

CM = 'scheduler.crypto.encrypt'


# ------------------------------------------------------------------ C03
def ext_eval(e, a, k):
    """eval of a text: an integer literal gives that integer; eval of anything but text raises"""
    v = e.resolve(a[0])
    if e.kind(v) != 'str':
        e.raise_(TypeError, 'eval() arg 1 must be a string')
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise Unsupported('eval of %r' % v)
    t = simp(e.str_term(v))
    if z3.is_app(t) and t.decl().name() == 'strint':
        return e.norm(Sym('int', t.arg(0)))
    raise Unsupported('eval of unknown text')


LIM = 10 ** 65
# (largest |v| of the piece, decode slope of the piece): documented piecewise linear compression
PIECES = [(10 ** 15, Fraction(1)),
          (10 ** 42, Fraction(10 ** 42 - 10 ** 15, 10 ** 19 - 10 ** 15)),
          (10 ** 56, Fraction(10 ** 56 - 10 ** 42, 10 ** 22 - 10 ** 19)),
          (10 ** 65, Fraction(10 ** 65 - 10 ** 56, 10 ** 24 - 10 ** 22))]


def q(f):
    f = Fraction(f)
    return z3.Q(f.numerator, f.denominator)


def numin(e, k, nm='v', lim=LIM):
    t = z3.Int(nm + '_int') if k == 'int' else z3.Real(nm + '_real')
    r = z3.ToReal(t) if k == 'int' else t
    if k == 'real' and e.opts['fp'] == 'round':
        # t is a double: no double lies strictly between an integer constant of the code and its neighbours
        for c in (10 ** 15, 10 ** 19, 10 ** 22, 10 ** 24, 10 ** 42, 10 ** 56, 10 ** 65):
            lo = hi = float(c)
            lo = lo if Fraction(lo) <= c else math.nextafter(lo, 0.0)
            hi = hi if Fraction(hi) > c else math.nextafter(hi, math.inf)
            for sg in (1, -1):
                e.assume(z3.Or(sg * t <= q(Fraction(lo)), sg * t >= q(Fraction(hi))))
    e.assume(z3.And(r < z3.RealVal(lim), r > -z3.RealVal(lim)))
    return Sym(k, t), r


MONO_CONST = [0, 1, 10 ** 15, 10 ** 19, 10 ** 22, 10 ** 24, 10 ** 42, 10 ** 42 - 10 ** 15, 10 ** 19 - 10 ** 15, 10 ** 56, 10 ** 65,
              10 ** 22 - 10 ** 19, 10 ** 56 - 10 ** 42, 10 ** 65 - 10 ** 56, 10 ** 24 - 10 ** 22, 10 ** 27, 10 ** 31, 10 ** 34, 10 ** 36,
              int(float(10 ** 22 - 10 ** 19)) + 10 ** 19, int(float(10 ** 24 - 10 ** 22)) + 10 ** 22, int(float(10 ** 19 - 10 ** 15)) + 10 ** 15,
              int(float(10 ** 24)) * 10 ** 12, int(float(10 ** 24)), Fraction(int(float(int(float(10 ** 24)) * 10 ** 12)), 10 ** 12)]
MONO_ALL = MONO_CONST + [-c for c in MONO_CONST[1:]]


def tol(r, slack):
    """allowed |decoded - stored| for a double: the slope of the piece (next piece within rounding of its end) times
    10^-12 plus the rounding of the compressed value, plus the rounding of the value itself"""
    a = z3.If(r >= 0, r, -r)
    comp = a
    slope = q(1)
    lo, clo = Fraction(0), Fraction(0)
    for lim, s in PIECES:
        lim = Fraction(lim)
        comp = z3.If(a > q(lo), q(clo) + (a - q(lo)) / q(s), comp)
        slope = z3.If(comp > q(clo * (1 - Fraction(1, 2 ** 50)) if slack else clo), q(s), slope) if lo else slope
        clo += (lim - lo) / s
        lo = lim
    return slope * (q(Fraction(1, 10 ** 12)) + comp * q(slack)) + a * q(slack)


def t_c03_roundtrip(fp, slack, types=('int', 'float', 'double'), kinds=('int', 'real')):
    def task(ctx):
        for ty in types:
            for vk in kinds if ty != 'int' else ('int',):
                for back in (('number',) if slack else ('number', 'text')):
                    e = ctx.engine({}, {'eval': ext_eval}, {'fp': fp, 'fl_mono': MONO_ALL})
                    fe, fd = ctx.func(e, CM, 'encode'), ctx.func(e, CM, 'decode')

                    def run():
                        v, r = numin(e, vk)
                        enc = e.inline(fe, [v, ty], {})
                        enc = e.resolve(enc)
                        k = e.kind(enc)
                        d = None
                        if k == 'int':
                            x = enc if back == 'number' else bi.py_str(e, enc)
                            d = e.outcomes(lambda: e.inline(fd, [x, ty], {}))
                        return (v, r), (k, d)

                    def onp(c, kd):
                        v, r = c
                        k, d = kd
                        nm = '%s column, %s value' % (ty, vk)
                        if k != 'int':
                            e.fail('encode of a %s gives an integer' % nm, 'gives %s' % k)
                            return
                        if d[0] != 'ok':
                            e.fail('decode of an encoded %s gives a number' % nm, 'raises %r' % (e.obj(d[1]).cls,))
                            return
                        ctx.cover('decodes')
                        dv = e.resolve(d[1])
                        if e.kind(dv) not in ('int', 'real'):
                            e.fail('decode of an encoded %s gives a number' % nm, 'gives %s' % e.kind(dv))
                            return
                        x = e.real_term(dv)
                        if ty == 'int':
                            e.oblige('int column decodes to the stored integer', x == r)
                            return
                        t = tol(r, slack) if ty == 'double' else q(Fraction(1, 10 ** 12)) + z3.If(r >= 0, r, -r) * q(slack)
                        e.oblige('decode(encode(v)) is v within the documented resolution (%s)' % nm, z3.And(x - r <= t, r - x <= t))
                        e.oblige('decode(encode(v)) keeps the sign (%s)' % nm, z3.And(z3.Implies(r >= 0, x >= 0), z3.Implies(r <= 0, x <= 0)))
                    ctx.explore(e, CM + ':encode/decode', run, onp)
    return task


def t_c03_inverse(ctx):
    """inverse_stretch is the exact inverse of stretch in real arithmetic"""
    for vk in ('int', 'real'):
        e = ctx.engine({}, {}, {'fp': 'real'})
        fs, fi = ctx.func(e, CM, 'stretch'), ctx.func(e, CM, 'inverse_stretch')

        def run():
            v, r = numin(e, vk)
            s = e.inline(fs, [v], {})
            if e.resolve(s) is None:
                return r, None
            return r, e.resolve(e.inline(fi, [s], {}))

        def onp(r, x):
            ctx.cover('runs')
            if x is None:
                e.fail('stretch/inverse_stretch return a number for |v| < 10^65', 'None')
                return
            e.oblige('inverse_stretch(stretch(v)) == v (real arithmetic)', e.real_term(x) == r)
        ctx.explore(e, CM + ':inverse_stretch', run, onp)


def t_c03_monotone(ty):
    def task(ctx):
        for vk in (('int',) if ty == 'int' else ('int', 'real')):
            e = ctx.engine({}, {}, {'fp': 'round', 'fl_mono': MONO_ALL, 'prove_ms': 60000})
            fe = ctx.func(e, CM, 'encode')

            def run():
                a, ra = numin(e, vk, 'a')
                b, rb = numin(e, vk, 'b')
                e.assume(ra <= rb)
                x = e.resolve(e.inline(fe, [a, ty], {}))
                y = e.resolve(e.inline(fe, [b, ty], {}))
                return None, (x, y)

            def onp(_, xy):
                x, y = xy
                ctx.cover('runs')
                if x is None or y is None:
                    e.fail('encode gives a number', 'None')
                    return
                e.oblige('encode is monotone (%s column, %s values, rounding included)' % (ty, vk), e.real_term(x) <= e.real_term(y))
            ctx.explore(e, CM + ':encode', run, onp)
    return task


def t_c03_other(ctx):
    e = ctx.engine({}, {'eval': ext_eval}, {})
    fe, fd = ctx.func(e, CM, 'encode'), ctx.func(e, CM, 'decode')

    def run():
        v = e.sym_input('val', AnyT)
        t = Sym('str', z3.Const('type', S))
        e.assume(z3.And(*[t.t != z3.StringVal(x) for x in ('int', 'float', 'double')]))
        return v, (e.inline(fe, [v, t], {}), e.inline(fd, [v, t], {}))

    def onp(v, xy):
        ctx.cover('passes')
        e.prove_eq('encode leaves values of other types unchanged', xy[0], v)
        e.prove_eq('decode leaves values of other types unchanged', xy[1], v)
    ctx.explore(e, CM + ':encode/decode', run, onp)


C03 = [('roundtrip exact', t_c03_roundtrip('real', 0)), ('roundtrip rounded float', t_c03_roundtrip('round', Fraction(1, 2 ** 50), ('int', 'float'))),
       ('roundtrip rounded double int', t_c03_roundtrip('round', Fraction(1, 2 ** 50), ('double',), ('int',))),
       ('roundtrip rounded double', t_c03_roundtrip('round', Fraction(1, 2 ** 50), ('double',), ('real',))),
       ('inverse', t_c03_inverse), ('monotone int', t_c03_monotone('int')), ('monotone float', t_c03_monotone('float')),
       ('monotone double', t_c03_monotone('double')), ('other types', t_c03_other)]


# ------------------------------------------------------------------ models of the cryptographic libraries (assumed)
def inverse_pair(e, tag, fwd, bwd, args, x):
    """bwd(args, x), which is m when x is the encryption fwd(args, m) of an m encrypted before on this path"""
    known = [(z3.And(*([u == v for u, v in zip(args, a2)] + [x == c])), m) for t2, a2, m, c in e.st.ghost.get('enc', ()) if t2 == tag]
    for cond, m in known:
        if e.branch(cond):
            return m
    return bwd(*args, x)


def record(e, tag, args, m, c):
    e.setghost('enc', e.st.ghost.get('enc', ()) + ((tag, tuple(args), m, c),))


SHA = z3.Function('sha256', S, S)
B64 = z3.Function('b64_text', S, S)
UB64 = z3.Function('b64_bytes', S, S)
BLK_E, BLK_D = z3.Function('block_encrypt', S, S, S, S), z3.Function('block_decrypt', S, S, S, S)
SM4E, SM4D = z3.Function('sm4_encrypt', S, S, S), z3.Function('sm4_decrypt', S, S, S)
P7P, P7U = z3.Function('pkcs7_pad', S, S), z3.Function('pkcs7_unpad', S, S)
HEX = z3.Function('bytes_hex', S, S)


def bt(v, k='bytes'):
    return Sym(k, v)


def B_(name, fn):
    return Builtin(name, lambda e, a, k: fn(e, [e.resolve(x) for x in a]))


def other_text(e):
    return b'0123456789abcdef'


def need_bytes(e, v, what):
    if e.kind(v) != 'bytes':
        e.raise_(TypeError, '%s must be bytes' % what)
    return e.str_term(v)


def m_sha256(e, a, k):
    d = need_bytes(e, e.resolve(a[0]), 'data')
    h = SHA(d)
    if not e.st.ghost.get('noise'):
        e.assume(z3.Length(h) == 32)
    return Opaque('sha', {'hexdigest': B_('hexdigest', lambda e, a: Sym('str', HEX(h))), 'digest': B_('digest', lambda e, a: bt(h))})


def m_b64encode(e, a, k):
    d = need_bytes(e, e.resolve(a[0]), 'data')
    if e.st.ghost.get('noise'):
        return other_text(e)
    t = B64(d)
    e.assume(UB64(t) == d)
    # base64 text is ASCII: its UTF-8 encoding is itself
    u = bi.utf8_(t)
    e.assume(bi.unutf8_(u) == t)
    e.assume(z3.Length(u) == z3.Length(t))
    record(e, 'b64', (), d, u)
    return bt(u)


def m_b64decode(e, a, k):
    v = e.resolve(a[0])
    t = e.str_term(v)
    u = t if e.kind(v) == 'bytes' else bi.utf8_(t)
    for (t2, _a, m, c) in e.st.ghost.get('enc', ()):
        if t2 == 'b64' and e.branch(u == c):
            return bt(m)
    if not e.branch(z3.Function('b64_valid', S, B)(u)):
        e.raise_(ValueError, 'Invalid base64')
    return bt(UB64(u))


def m_aes(e, a, k):
    key = need_bytes(e, e.resolve(a[0]), 'key')
    if not e.st.ghost.get('noise') and not e.branch(z3.Or(z3.Length(key) == 16, z3.Length(key) == 24, z3.Length(key) == 32)):
        e.raise_(ValueError, 'Invalid key size')
    return Opaque('alg', {'key': key, 'block_size': 128})


def m_ecb(e, a, k):
    return Opaque('mode', {'iv': z3.StringVal('ECB')})


def m_cbc(e, a, k):
    iv = need_bytes(e, e.resolve(a[0]), 'iv')
    return Opaque('mode', {'iv': z3.Concat(z3.StringVal('CBC'), iv)})


def m_cipher(e, a, k):
    alg, mode = e.resolve(a[0]), e.resolve(a[1])
    key, iv = alg.attrs['key'], mode.attrs['iv']

    def make(tag, dec):
        # one-shot use: update on the whole text, then finalize; a partial block makes finalize raise
        st = e.alloc(IObj(None, {'ok': True, 'used': False}))

        def update(e, a):
            x = need_bytes(e, a[0], 'data')
            if e.st.ghost.get('noise'):
                return other_text(e)
            if e.inst_attr(st, e.obj(st), 'used'):
                raise Unsupported('cipher updated twice')
            e.set_inst_attr(st, 'used', True)
            if not e.branch(z3.Length(x) % 16 == 0):
                e.set_inst_attr(st, 'ok', False)
                return bt(z3.Function('partial_blocks', S, S, S, S)(key, iv, x))
            if dec:
                r = inverse_pair(e, 'blk', BLK_E, BLK_D, (key, iv), x)
            else:
                r = BLK_E(key, iv, x)
                e.assume(BLK_D(key, iv, r) == x)
                record(e, 'blk', (key, iv), x, r)
            e.assume(z3.Length(r) == z3.Length(x))
            return bt(r)

        def finalize(e, a):
            if not e.inst_attr(st, e.obj(st), 'ok'):
                e.raise_(ValueError, 'The length of the provided data is not a multiple of the block length.')
            return b''
        return Opaque('cryptor', {'update': B_('update', update), 'finalize': B_('finalize', finalize)})
    return Opaque('cipher', {'encryptor': Builtin('encryptor', lambda e, a, k: make('enc', False)),
                             'decryptor': Builtin('decryptor', lambda e, a, k: make('dec', True))})


def m_pkcs7(e, a, k):
    if e.resolve(a[0]) != 128:
        raise Unsupported('PKCS7 block size')

    def padder(e, a, k):
        def update(e, a):
            x = need_bytes(e, a[0], 'data')
            e.setghost('p7', x)
            return bt(z3.Function('pkcs7_head', S, S)(x))

        def fin(e, a):
            if e.st.ghost.get('noise'):
                return other_text(e)
            x = e.st.ghost['p7']
            h, t = z3.Function('pkcs7_head', S, S)(x), z3.Function('pkcs7_tail', S, S)(x)
            whole = z3.Concat(h, t)
            e.assume(z3.Length(whole) % 16 == 0)
            record(e, 'p7', (), x, whole)
            return bt(t)
        return Opaque('padder', {'update': B_('update', update), 'finalize': B_('finalize', fin)})

    def unpadder(e, a, k):
        def update(e, a):
            x = need_bytes(e, a[0], 'data')
            e.setghost('p7u', x)
            return bt(z3.Function('unpkcs7_head', S, S)(x))

        def fin(e, a):
            x = e.st.ghost['p7u']
            h, t = z3.Function('unpkcs7_head', S, S)(x), z3.Function('unpkcs7_tail', S, S)(x)
            okf = z3.Function('pkcs7_valid', S, B)(x)
            for (t2, _a, m, c) in e.st.ghost.get('enc', ()):
                if t2 == 'p7':
                    e.assume(z3.Implies(x == c, z3.And(okf, z3.Concat(h, t) == m)))
            if not e.branch(okf):
                e.raise_(ValueError, 'Invalid padding bytes.')
            return bt(t)
        return Opaque('unpadder', {'update': B_('update', update), 'finalize': B_('finalize', fin)})
    return Opaque('pkcs7', {'padder': Builtin('padder', padder), 'unpadder': Builtin('unpadder', unpadder)})


def m_sm4(e, a, k):
    st = e.alloc(IObj(None, {'key': None, 'mode': None}))

    def set_key(e, a):
        need_bytes(e, a[0], 'key')
        e.set_inst_attr(st, 'key', a[0])
        e.set_inst_attr(st, 'mode', a[1])
        return None

    def ecb(e, a):
        x = need_bytes(e, a[0], 'data')
        key = e.inst_attr(st, e.obj(st), 'key')
        mode = e.inst_attr(st, e.obj(st), 'mode')
        if key is None:
            raise Unsupported('SM4 without a key')
        if e.st.ghost.get('noise'):
            return other_text(e)
        kt = e.str_term(key)
        if mode == 'SM4_ENCRYPT':
            r = SM4E(kt, x)
            e.assume(SM4D(kt, r) == x)
            record(e, 'sm4', (kt,), x, r)
            return bt(r)
        return bt(inverse_pair(e, 'sm4', SM4E, SM4D, (kt,), x))
    return Opaque('sm4', {'set_key': B_('set_key', set_key), 'crypt_ecb': B_('crypt_ecb', ecb)})


CE = 'cryptography.hazmat.primitives.'
CEXT = {'hashlib.sha256': m_sha256, 'base64.b64encode': m_b64encode, 'base64.b64decode': m_b64decode,
        CE + 'ciphers.algorithms.AES': m_aes, CE + 'ciphers.modes.ECB': m_ecb, CE + 'ciphers.modes.CBC': m_cbc,
        CE + 'ciphers.Cipher': m_cipher, CE + 'padding.PKCS7': m_pkcs7, 'gmssl.sm4.CryptSM4': m_sm4,
        'cryptography.hazmat.backends.default_backend': lambda e, a, k: None}
CVAL = {'gmssl.sm4.SM4_ENCRYPT': lambda e: 'SM4_ENCRYPT', 'gmssl.sm4.SM4_DECRYPT': lambda e: 'SM4_DECRYPT',
        CE + 'ciphers.algorithms.AES.block_size': lambda e: 128}


def crypto_assumptions(ctx):
    ctx.assume('cryptography (AES in ECB/CBC mode), gmssl SM4, PKCS7 and base64 behave as documented: decryption with the same key inverts '
               'encryption, whole blocks only, PKCS7 pads to whole blocks and unpadding inverts it, base64 decoding inverts encoding')
    ctx.assume('UTF-8: decoding inverts encoding; encoding distributes over concatenation')


def others(e, cls, keykind, ik):
    """a second cipher object, with a key of its own, in use between the steps of the one under proof"""
    key = [b'another key' if keykind == 'bytes' else 'another key'] if keykind else None
    other = b'0123456789abcdef' if ik == 'bytes' else '0123456789abcdef'

    def use():
        e.setghost('noise', True)           # the facts about the other object's ciphertexts are not needed: its decryptions are not looked at
        e.outcomes(lambda: e.call(e.getattr_(e.call(cls, key, {}) if key else cls, 'encrypt'), [other], {}))
        e.setghost('noise', False)
    return use


def t_aes_text(ctx):
    crypto_assumptions(ctx)
    e = ctx.engine({}, CEXT, {'split_mod': 16, 'ascii_funcs': ('b64_text',)}, CVAL)
    for m in ('__init__', 'pad', 'unpad', 'encrypt', 'decrypt'):
        ctx.func(e, CM, 'AESCipher.' + m)

    def run():
        cls = e.get_global(CM, 'AESCipher')
        k = Sym('str', z3.Const('key', S))
        x, y = z3.Const('text', S), z3.Const('other', S)
        for t in (x, y):
            e.assume(z3.Not(z3.SuffixOf(z3.StringVal('\0'), t)))
        c1, c2 = e.call(cls, [k], {}), e.call(cls, [k], {})
        noise = others(e, cls, 'str', 'str')
        noise()
        a = e.outcomes(lambda: e.call(e.getattr_(c1, 'encrypt'), [Sym('str', x)], {}))
        noise()
        b = e.outcomes(lambda: e.call(e.getattr_(c2, 'encrypt'), [Sym('str', x)], {})) if a[0] == 'ok' else a
        d = e.outcomes(lambda: e.call(e.getattr_(c2, 'decrypt'), [a[1]], {})) if a[0] == 'ok' else a
        return (x, y), (a, b, d)

    def onp(c, r):
        x, y = c
        a, b, d = r
        if a[0] != 'ok' or b[0] != 'ok':
            e.fail('AESCipher encrypts every text', 'raises %r' % (e.obj((a if a[0] != 'ok' else b)[1]).cls,))
            return
        if d[0] != 'ok':
            e.fail('AESCipher decrypts its own ciphertexts', 'raises %r' % (e.obj(d[1]).cls,))
            return
        ctx.cover('round trip')
        if e.kind(e.resolve(a[1])) != 'str' or e.kind(e.resolve(d[1])) != 'str':
            e.fail('AESCipher gives text', 'gives %s / %s' % (e.kind(e.resolve(a[1])), e.kind(e.resolve(d[1]))))
            return
        e.oblige('AESCipher.decrypt(encrypt(x)) == x (no trailing NUL)', e.str_term(e.resolve(d[1])) == x)
        e.oblige('AESCipher.encrypt is a function of key and text', e.str_term(e.resolve(a[1])) == e.str_term(e.resolve(b[1])))
    ctx.explore(e, CM + ':AESCipher', run, onp)

    # decryption reads only key and ciphertext: with the round trip, equal ciphertexts have equal plaintexts
    def run2():
        cls = e.get_global(CM, 'AESCipher')
        k = Sym('str', z3.Const('key', S))
        c1, c2 = e.call(cls, [k], {}), e.call(cls, [k], {})
        t = z3.Const('ciphertext', S)
        return None, [e.outcomes(lambda c=c: e.call(e.getattr_(c, 'decrypt'), [Sym('str', t)], {})) for c in (c1, c2)]

    def onp2(_, r):
        ctx.cover('decrypt twice')
        if r[0][0] != r[1][0]:
            e.fail('AESCipher.decrypt is a function of key and ciphertext', 'outcomes differ')
        elif r[0][0] == 'ok':
            e.prove_eq('AESCipher.decrypt is a function of key and ciphertext', r[0][1], r[1][1])
        else:
            e.ok('AESCipher.decrypt is a function of key and ciphertext')
    ctx.explore(e, CM + ':AESCipher.decrypt', run2, onp2)


def roundtrip_task(clsname, keykind, inputs, methods):
    def task(ctx):
        crypto_assumptions(ctx)
        for ik, want in inputs:
            e = ctx.engine({}, CEXT, {'split_mod': 16, 'ascii_funcs': ('b64_text',)}, CVAL)
            for m in methods:
                ctx.func(e, CM, clsname + '.' + m)

            def run():
                cls = e.get_global(CM, clsname)
                x = Sym(ik, z3.Const('content', S))
                if keykind:
                    k = Sym(keykind, z3.Const('key', S))
                    c1, c2 = e.call(cls, [k], {}), e.call(cls, [k], {})
                else:
                    c1 = c2 = cls
                noise = others(e, cls, keykind, ik)
                noise()
                a = e.outcomes(lambda: e.call(e.getattr_(c1, 'encrypt'), [x], {}))
                noise()
                d = e.outcomes(lambda: e.call(e.getattr_(c2, 'decrypt'), [a[1]], {})) if a[0] == 'ok' else a
                return x, (a, d)

            def onp(x, r):
                a, d = r
                if a[0] != 'ok':
                    e.fail('%s encrypts every %s' % (clsname, ik), 'raises %r' % (e.obj(a[1]).cls,))
                    return
                if d[0] != 'ok':
                    if ik == 'bytes' and want == 'text' and e.obj(d[1]).cls == ExtClass(UnicodeDecodeError):
                        e.oblige('%s decrypts its own ciphertexts (the text of UTF-8 bytes)' % clsname,
                                 z3.Not(z3.Function('utf8_valid', S, B)(x.t)))
                        return
                    e.fail('%s decrypts its own ciphertexts' % clsname, 'raises %r' % (e.obj(d[1]).cls,))
                    return
                ctx.cover('round trip')
                got = e.resolve(d[1])
                if want == 'same':
                    if e.kind(got) != ik:
                        e.fail('%s returns the kind of content it was given' % clsname, e.kind(got))
                        return
                    e.oblige('%s.decrypt(encrypt(x)) == x (%s)' % (clsname, ik), e.str_term(got) == x.t)
                else:
                    if e.kind(got) != 'str':
                        e.fail('%s.decrypt gives text' % clsname, e.kind(got))
                        return
                    e.oblige('%s.decrypt(encrypt(x)) is the text of x (%s)' % (clsname, ik), bi.utf8_(e.str_term(got)) == x.t)
            ctx.explore(e, CM + ':' + clsname, run, onp)
    return task


C04 = [('AESCipher', t_aes_text),
       ('SM4CipherBytes', roundtrip_task('SM4CipherBytes', 'str', [('str', 'same'), ('bytes', 'text')], ('__init__', 'encrypt', 'decrypt'))),
       ('AESCipherBytes', roundtrip_task('AESCipherBytes', 'bytes', [('bytes', 'same')], ('__init__', 'encrypt', 'decrypt'))),
       ('AESCrypto', roundtrip_task('AESCrypto', None, [('str', 'same'), ('bytes', 'text')],
                                    ('encrypt', 'decrypt', 'cbc_encrypt', 'cbc_decrypt', 'pkcs7_padding', 'pkcs7_unpadding')))]


# ------------------------------------------------------------------ C05: fuzzy search
from pyded import eqs
TOK = z3.Function('AESCipher_encrypt', S, S, S)      # key text, text -> ciphertext (C04: a function of both)


def aes_contract(e, cls, args, kw):
    """AESCipher under contract: encrypt is a function of key text and text (task AESCipher of C04)"""
    k = e.resolve(args[0])
    kt = e.str_term(k)

    def enc(e, a, k_):
        x = e.resolve(a[0])
        if e.kind(x) != 'str':
            e.raise_(AttributeError, 'encode')
        t = TOK(kt, e.str_term(x))
        e.assume(z3.Length(t) > 0)
        return Sym('str', t)
    return Opaque('AESCipher', {'encrypt': Builtin('encrypt', enc)})


def t_fuzzy(ctx):
    ctx.assume('str.isalnum of a text of letters and digits is true')
    e = ctx.engine({CM + ':AESCipher': aes_contract}, CEXT, {'branch_ms': 200}, CVAL)
    f = ctx.func(e, CM, 'FuzzyCipher.encrypt')
    ctx.func(e, CM, 'FuzzyCipher.__init__')

    def run():
        cls = e.get_global(CM, 'FuzzyCipher')
        k = Sym('str', z3.Const('key', S))
        v, p, m = z3.Const('value', S), z3.Int('pos'), z3.Int('len')
        w = z3.SubString(v, p, m)
        e.assume(z3.And(m >= 3, p >= 0, p + m <= z3.Length(v)))
        for t in (v, w):
            e.assume(bi.pred('isalnum')(t))
        c1, c2 = e.call(cls, [k], {}), e.call(cls, [k], {})
        a = e.outcomes(lambda: e.inline(f, [c1, Sym('str', v)], {}))
        b = e.outcomes(lambda: e.inline(f, [c2, Sym('str', w)], {}))
        return (v, w, p), (a, b)

    def onp(c, r):
        v, w, p = c
        a, b = r
        if a[0] != 'ok' or b[0] != 'ok':
            e.fail('alphanumeric texts of at least 3 characters are encrypted', 'raises')
            return
        ctx.cover('encrypts')
        a, b = e.resolve(a[1]), e.resolve(b[1])
        if not (isinstance(a, Rope) and len(a.segs) == 1 and isinstance(a.segs[0], Flat) and
                isinstance(b, Rope) and len(b.segs) == 1 and isinstance(b.segs[0], Flat)):
            raise Unsupported('fuzzy ciphertext is not a plain sequence of tokens')
        fv, fw = a.segs[0], b.segs[0]
        e.oblige('the tokens of the word end within the tokens of the value', z3.And(fw.n >= 1, p + fw.n <= fv.n))
        k = e.kvar()

        def one():
            e.st.loopidx = e.st.loopidx + (k,)
            e.assume(z3.And(k >= 0, k < fw.n))
            gw, gv = e.enter_case(fw, k), e.enter_case(fv, simp(p + k))
            return None, eqs.eq_ropes(e, 'token k of the word is token p+k of the value', gw, gv, 'fuzzy tokens', 'str')
        e.explore(one, lambda _, r: None)
    ctx.explore(e, CM + ':FuzzyCipher.encrypt', run, onp)


C05 = [('FuzzyCipher.encrypt', t_fuzzy)]


# ------------------------------------------------------------------ C06: homomorphic columns
PT = z3.Function('paillier_plaintext', I, I, I)     # n, ciphertext -> the integer it stands for (ghost)
ENCR = z3.Function('paillier_ciphertext', I, I, I, I)   # n, integer, randomness
CS, MS, SUMS = z3.Function('cipher_k', I, I), z3.Function('value_k', I, I), z3.Function('sum_upto', I, I)


def cap(e, n, t):
    """|t| within the key's capacity"""
    m = n / 3 - 1
    return z3.And(t <= m, -t <= m)


def m_pub(e, a, k):
    n = e.num_term(e.resolve(a[0]))

    def enc(e, a):
        m = e.num_term(a[0])
        e.oblige('the encrypted number is not encoded with a precision', z3.BoolVal(len(a) < 2 or a[1] is None))
        if not e.branch(cap(e, n, m)):
            e.raise_(ValueError, 'outside the capacity')
        c = ENCR(n, m, e.fresh(I, 'r'))
        e.assume(PT(n, c) == m)
        e.assume(c >= 0)
        return Opaque('encnum', {'ciphertext': Builtin('ciphertext', lambda e, a, k: Sym('int', c))})
    return Opaque('pk', {'n': Sym('int', n), 'nsquare': Sym('int', n * n), 'encrypt': B_('encrypt', enc)})


def m_priv(e, a, k):
    pk, p, q_ = [e.resolve(x) for x in a]
    n = e.num_term(pk.attrs['n'])
    e.oblige('the private key belongs to the public key', e.num_term(p) * e.num_term(q_) == n)

    def dec(e, a):
        x = a[0]
        e.oblige('the decrypted number belongs to the key', e.num_term(x.attrs['pk'].attrs['n']) == n)
        v = PT(n, x.attrs['c'])
        e.oblige('decryption within the key capacity', cap(e, n, v))
        return Sym('int', v)
    return Opaque('sk', {'decrypt': B_('decrypt', dec)})


def m_encnum(e, a, k):
    return Opaque('encnum', {'pk': e.resolve(a[0]), 'c': e.num_term(e.resolve(a[1]))})


def hom_reduce(e, a, k):
    """functools.reduce under the invariant: after j factors the accumulator is a ciphertext of the sum of the first j values"""
    f, it = a[0], a[1]
    n = e.st.ghost['n']
    if len(a) < 3:
        raise Unsupported('reduce without a start value')
    ch = e.chunks_of(it)
    if len(ch) != 1 or ch[0][0] != 's':
        raise Unsupported('reduce over something else than the ciphertext list')
    cnt, grp = ch[0][1], ch[0][2]
    init = e.num_term(e.resolve(a[2]))
    e.oblige('the product over no ciphertext stands for 0', init == 1)
    e.oblige('all ciphertexts are multiplied', cnt == e.st.ghost['count'])

    def run():
        j = z3.Int('j')
        e.assume(z3.And(j >= 0, j < cnt))
        acc = e.fresh(I, 'acc')
        e.assume(z3.And(acc >= 0, PT(n, acc) == SUMS(j)))
        x = grp(j)
        if len(x) != 1:
            raise Unsupported('reduce step')
        xt = e.num_term(e.resolve(x[0]))
        r = e.outcomes(lambda: e.call(f, [Sym('int', acc), x[0]], {}))
        return (j, acc, xt), r

    def onp(c, r):
        j, acc, xt = c
        if r[0] != 'ok':
            e.fail('the aggregation step does not fail', 'raises')
            return
        rt = e.num_term(e.resolve(r[1]))
        e.oblige('each step multiplies the next ciphertext', xt == CS(j))
        e.oblige('each step is a product modulo n^2', rt == (acc * CS(j)) % (n * n))
    e.explore(run, onp)
    z = e.fresh(I, 'product')
    e.assume(PT(n, z) == SUMS(cnt))
    return Sym('int', z)


def enc_text(e, form):
    """result texts of the aggregate forms; e.split_hook gives their parts"""
    E_ = z3.Const('result_text', S)
    N = z3.Int('rows')
    if form in ('SUM', 'AVG'):
        e.assume(N >= 1)
        k = e.kvar()
        parts = e.alloc(LObj([Flat(N, k, [Case([], [], [Elem(Sym('str', strint(CS(k))))])]), Elem(form)]))
        return Sym('str', E_), parts
    c = z3.Int('ciphertext')
    if form == 'one':
        t = strint(c)
        e.assume(z3.Not(z3.Contains(t, z3.StringVal(','))))
        e.assume(z3.And(t != z3.StringVal('SUM'), t != z3.StringVal('AVG')))
        return Sym('str', t), e.alloc(LObj([Elem(Sym('str', t))]))
    t = z3.Concat(strint(c), z3.StringVal(','), strint(N))
    for u in (strint(c), strint(N)):
        e.assume(z3.And(u != z3.StringVal('SUM'), u != z3.StringVal('AVG')))
    e.assume(N >= 1)
    return Sym('str', t), e.alloc(LObj([Elem(Sym('str', strint(c))), Elem(Sym('str', strint(N)))]))


def m_reduce_or(e, a, k):
    return hom_reduce(e, a, k)


HEXT = {'phe.paillier.PaillierPublicKey': m_pub, 'phe.paillier.PaillierPrivateKey': m_priv, 'phe.paillier.EncryptedNumber': m_encnum,
        'functools.reduce': m_reduce_or}


def hom_assumptions(ctx):
    ctx.assume('phe: decrypting a ciphertext gives the integer it stands for when that is within the key capacity (n/3 - 1); the product of two '
               'ciphertexts modulo n^2 stands for the sum, 1 stands for 0')
    ctx.assume('functools.reduce folds from the left over all elements')


def new_hom(e):
    p, q_ = z3.Int('p'), z3.Int('q')
    e.assume(z3.And(p > 1, q_ > 1))
    n = p * q_
    e.setghost('n', n)
    e.setghost('count', z3.Int('rows'))
    cls = e.get_global(CM, 'HomomorphicCipher')
    key = e.alloc(LObj([Elem(Sym('int', p)), Elem(Sym('int', q_))]))
    return e.call(cls, [key], {}), n


def t_hom_single(ctx):
    hom_assumptions(ctx)
    for form in ('text', 'number'):
        e = ctx.engine({}, HEXT, {'split_hook': lambda e, t, sep: e.st.ghost.get('parts')}, CVAL)
        for m in ('__init__', 'encrypt', 'decrypt'):
            ctx.func(e, CM, 'HomomorphicCipher.' + m)

        def run():
            h, n = new_hom(e)
            m = z3.Int('value')
            e.assume(cap(e, n, m))
            a = e.outcomes(lambda: e.call(e.getattr_(h, 'encrypt'), [Sym('int', m)], {}))
            if a[0] != 'ok':
                return m, (a, a)
            t = simp(e.str_term(e.resolve(a[1])))
            if not (z3.is_app(t) and t.decl().name() == 'strint'):
                return m, (a, ('odd', None))
            c = t.arg(0)
            e.assume(z3.Not(z3.Contains(t, z3.StringVal(','))))
            e.assume(z3.And(t != z3.StringVal('SUM'), t != z3.StringVal('AVG')))
            e.setghost('parts', e.alloc(LObj([Elem(Sym('str', t))])))
            x = Sym('str', t) if form == 'text' else Sym('int', c)
            return m, (a, e.outcomes(lambda: e.call(e.getattr_(h, 'decrypt'), [x], {})))

        def onp(m, r):
            a, d = r
            if a[0] != 'ok':
                e.fail('HomomorphicCipher encrypts every integer within the capacity', 'raises %r' % (e.obj(a[1]).cls,))
                return
            if d[0] == 'odd':
                e.fail('HomomorphicCipher.encrypt gives the decimal text of the ciphertext', str(a[1]))
                return
            if d[0] != 'ok':
                e.fail('HomomorphicCipher decrypts its own ciphertexts', 'raises %r' % (e.obj(d[1]).cls,))
                return
            ctx.cover('round trip')
            e.oblige('HomomorphicCipher.decrypt(encrypt(m)) == m', e.num_term(e.resolve(d[1])) == m)
        ctx.explore(e, CM + ':HomomorphicCipher', run, onp)


def t_hom_aggregate(ctx):
    hom_assumptions(ctx)
    for form in ('SUM', 'AVG', 'product', 'product,count'):
        e = ctx.engine({}, HEXT, {'split_hook': lambda e, t, sep: e.st.ghost.get('parts'), 'prove_ms': 60000}, CVAL)
        f = ctx.func(e, CM, 'HomomorphicCipher.decrypt')

        def run():
            h, n = new_hom(e)
            N = z3.Int('rows')
            c = z3.Int('ciphertext')
            txt, parts = enc_text(e, {'product': 'one', 'product,count': 'cnt'}.get(form, form))
            e.setghost('parts', parts)
            e.assume(cap(e, n, SUMS(N)))
            e.assume(PT(n, c) == SUMS(N))
            return N, e.outcomes(lambda: e.inline(f, [h, txt], {}))

        def onp(N, d):
            if d[0] != 'ok':
                e.fail('%s result decrypts' % form, 'raises %r' % (e.obj(d[1]).cls,))
                return
            ctx.cover(form)
            x = e.real_term(e.resolve(d[1]))
            s = z3.ToReal(SUMS(N))
            if form in ('SUM', 'product'):
                e.oblige('%s form decrypts to the exact sum' % form, x == s)
            elif form == 'AVG':
                e.oblige('AVG form decrypts to sum / rows', x * z3.ToReal(N) == s)
            else:
                d = x - s / z3.ToReal(N)
                e.oblige('sum,count form decrypts to the average rounded to 4 digits', z3.And(d <= q(Fraction(1, 20000)), -d <= q(Fraction(1, 20000))))
        ctx.explore(e, CM + ':HomomorphicCipher.decrypt', run, onp)


C06 = [('HomomorphicCipher single', t_hom_single), ('HomomorphicCipher aggregates', t_hom_aggregate)]
