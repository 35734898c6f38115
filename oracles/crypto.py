"""C01-C06 against the real cipher code."""
import itertools
import math
from fractions import Fraction as Fr
from lib import SKIP

from scheduler.crypto import encrypt as E
from scheduler.crypto.ope import ope as O
from scheduler.crypto.ope.errors import OutOfRangeError, InvalidCiphertextError

FILES_OPE = ['scheduler/crypto/ope/ope.py', 'scheduler/crypto/ope/stat.py', 'scheduler/crypto/ope/util.py', 'scheduler/crypto/ope/hgd.py',
             'scheduler/crypto/encrypt.py']
FILE = ['scheduler/crypto/encrypt.py']

LO, HI = -2 ** 63, 2 ** 63 - 1


# ------------------------------------------------------------------ OPE
def mk(case):
    key = bytes.fromhex(case['key'])
    a, b, c, d = case['in'] + case['out']
    return O.OPE(key, O.ValueRange(a, b), O.ValueRange(c, d))


def enc(o, x):
    try:
        return ('ok', o.encrypt(x))
    except OutOfRangeError as e:
        return ('range', e)
    except Exception as e:
        return ('err', e)


def ranges(o):
    """input and output ranges: the production ones, and small ones where everything can be enumerated"""
    yield [LO, HI], [LO, HI]
    yield [0, 15], [0, 15]
    yield [0, 15], [0, 255]
    yield [-8, 7], [-1000, 1000]
    yield [0, 7], [0, 2 ** 60]
    yield [-5, 2], [-2 ** 45, 2 ** 50]
    yield [5, 5], [7, 7]
    yield [5, 5], [-3, 90]
    yield [0, 1], [0, 2]
    yield [-20, 13], [-21, 13]
    yield [0, 2 ** 15 - 1], [0, 2 ** 31 - 1]
    yield [-2 ** 31, 2 ** 31 - 1], [-2 ** 47, 2 ** 47 - 1]
    yield [-2 ** 31, 2 ** 31 - 1], [0, 2 ** 40]
    for i in range(60 if o.thorough else 10):
        n = o.rng.choice([1, 2, 3, 5, 9, 17, 33])
        a = o.rng.choice([0, 1, -1, o.rng.randrange(-10 ** 6, 10 ** 6)])
        m = n + o.rng.choice([0, 1, 2, n, 10 * n, o.rng.randrange(0, 5000)])
        b = o.rng.choice([0, 1, -1, a, o.rng.randrange(-10 ** 6, 10 ** 6)])
        yield [a, a + n - 1], [b, b + m - 1]


def keys(o, n):
    for i in range(n):
        yield o.rng.randbytes(o.rng.choice([0, 1, 16, 32, 32, 32])).hex()


def gen_C01(o):
    ints, _f, strs = o.mined(*FILES_OPE)
    base = sorted({x + d for x in ints for d in (-1, 0, 1) if LO <= x + d <= HI} | {LO, LO + 1, HI, HI - 1, 0, 1, -1, 10 ** 12, -10 ** 12})
    for i, (ir, orr) in enumerate(ranges(o)):
        for key in keys(o, 2 if i else 3):
            n = ir[1] - ir[0] + 1
            if n <= 40:
                yield {'f': 'all', 'key': key, 'in': ir, 'out': orr}
            else:
                pts = sorted({x for x in base if ir[0] <= x <= ir[1]} | {o.rng.randrange(ir[0], ir[1] + 1) for _ in range(12)}
                             | {ir[0], ir[1], (ir[0] + ir[1]) // 2})
                pts = sorted(o.rng.sample(pts, min(len(pts), 40 if n < 2 ** 60 else 90)))
                yield {'f': 'pts', 'key': key, 'in': ir, 'out': orr, 'pts': pts}
    for k in ['', 'k', 'abcdefghijklmnopqrstuvwxyz@#$%^&*()points', '中文'] + strs[:10]:
        pts = [0, 1, -1, 10 ** 12, -5 * 10 ** 11, 2 ** 31, -2 ** 31, 2 ** 53 + 1, HI, LO] + [o.rng.randrange(-10 ** 15, 10 ** 15) for _ in range(8)]
        yield {'f': 'cipher', 'key': k, 'pts': sorted(set(pts + [x for x in base if abs(x) < 2 ** 60][:30]))}
    for ir, orr in [([0, 9], [0, 99]), ([LO, HI], [LO, HI])]:
        for x in (ir[0] - 1, ir[1] + 1, ir[1] + 1000, ir[0] - 10 ** 30, 10 ** 40):
            yield {'f': 'refuse', 'key': 'ab' * 32, 'in': ir, 'out': orr, 'x': x}


rule_C01 = 'key, input range, output range and the plaintexts compared pairwise (all of them when the range has at most 40 values)'


def judge_C01(c):
    if c['f'] == 'refuse':
        r = enc(mk(c), c['x'])
        return None if r[0] != 'ok' else 'OPE.encrypt(%d) outside the input range returned %r' % (c['x'], r[1])
    if c['f'] == 'cipher':
        cp = E.OPECipher(c['key'])
        rs = [(x, cp.encrypt(x)) for x in c['pts']]
        rs2 = [(x, E.OPECipher(c['key']).encrypt(x)) for x in reversed(c['pts'])][::-1]
        if rs != rs2:
            return 'encrypting the same integers twice gave different ciphertexts'
        if [cp.encrypt(str(x)) for x in c['pts'][:3]] != [r for _x, r in rs[:3]]:
            return 'the ciphertext of an integer given as text differs'
    else:
        o = mk(c)
        pts = c.get('pts') or list(range(c['in'][0], c['in'][1] + 1))
        rs = []
        for x in pts:
            r = enc(o, x)
            r2 = enc(mk(c), x)
            if r[0] == 'range':
                return 'encrypt(%d) refused although inside the input range' % x
            if r[0] != r2[0] or (r[0] == 'ok' and r[1] != r2[1]):
                return 'encrypt(%d) is not a function: %r then %r' % (x, r[1], r2[1])
            if r[0] == 'ok':
                if not (c['out'][0] <= r[1] <= c['out'][1]):
                    return 'encrypt(%d) = %d outside the output range' % (x, r[1])
                rs.append((x, r[1]))
            elif not isinstance(r[1], AssertionError):
                return 'encrypt(%d) failed with %r' % (x, r[1])
    for (x, a), (y, b) in zip(rs, rs[1:]):
        if not a < b:
            return 'encrypt(%d)=%d but encrypt(%d)=%d' % (x, a, y, b)
    return None


def gen_C02(o):
    for c in gen_C01(o):
        if c['f'] != 'refuse':
            yield c
            if c['f'] == 'all' and c['out'][1] - c['out'][0] < 3000:
                yield dict(c, f='reject')
            elif c['f'] in ('pts', 'all'):
                yield dict(c, f='rejectnear', pts=list(c.get('pts') or [c['in'][0], c['in'][1]])[:4], ds=[1, -1, 2, -3] + [o.rng.choice([1, -1]) * o.rng.randrange(1, 2 ** o.rng.randrange(1, 30)) for _ in range(4)])
            if c['f'] == 'pts':
                yield dict(c, f='rejectpts', cts=[o.rng.randrange(c['out'][0], c['out'][1] + 1) for _ in range(6)])
    for ir, orr in [([0, 9], [0, 99]), ([LO, HI], [LO, HI]), ([0, 9], [-3, 99])]:
        for x in (orr[0] - 1, orr[1] + 1, orr[1] + 1000, 10 ** 40):
            yield {'f': 'outside', 'key': 'ab' * 32, 'in': ir, 'out': orr, 'x': x}


rule_C02 = 'as C01; decryption of each ciphertext, and of output values that are not ciphertexts (all of them when the output range is small)'


def judge_C02(c):
    if c['f'] == 'cipher':
        cp = E.OPECipher(c['key'])
        for x in c['pts']:
            e = cp.encrypt(x)
            if E.OPECipher(c['key']).decrypt(e) != x or cp.decrypt(str(e)) != x:
                return 'decrypt(encrypt(%d)) = %r' % (x, cp.decrypt(e))
        return None
    o = mk(c)
    if c['f'] == 'outside':
        try:
            r = o.decrypt(c['x'])
        except Exception:
            return None
        return 'decrypt(%d) outside the output range returned %r' % (c['x'], r)
    if c['f'] in ('reject', 'rejectpts', 'rejectnear'):
        if c['f'] == 'rejectnear':
            es = [enc(o, x) for x in c['pts']]
            ys = [r[1] + d for r in es if r[0] == 'ok' for d in c['ds'] if c['out'][0] <= r[1] + d <= c['out'][1]]
        for y in (range(c['out'][0], c['out'][1] + 1) if c['f'] == 'reject' else ys if c['f'] == 'rejectnear' else c['cts']):
            try:
                x = o.decrypt(y)
            except Exception:
                continue
            r = enc(o, x)
            if r != ('ok', y):
                return 'decrypt(%d) = %r, but that encrypts to %r' % (y, x, r[1])
        return None
    for x in c.get('pts') or list(range(c['in'][0], c['in'][1] + 1)):
        r = enc(o, x)
        if r[0] == 'ok':
            try:
                d = o.decrypt(r[1])
            except Exception as ex:
                return 'decrypt(encrypt(%d) = %d) failed: %r' % (x, r[1], ex)
            if d != x:
                return 'decrypt(encrypt(%d)) = %r' % (x, d)
    return None


# ------------------------------------------------------------------ numeric encoding
SEG = [(Fr(0), Fr(10 ** 15), Fr(0), Fr(10 ** 15)), (Fr(10 ** 15), Fr(10 ** 42), Fr(10 ** 15), Fr(10 ** 19)),
       (Fr(10 ** 42), Fr(10 ** 56), Fr(10 ** 19), Fr(10 ** 22)), (Fr(10 ** 56), Fr(10 ** 65), Fr(10 ** 22), Fr(10 ** 24))]


def ulp(x):
    try:
        return Fr(math.ulp(float(x)))
    except OverflowError:
        return Fr(2) ** 970


def tol(v, t):
    """allowed |decoded - v|: 10^-12 and a few roundings, through the slope of the compression"""
    a = abs(Fr(v))
    if t == 'float' or a <= 10 ** 15 - 1:
        return Fr(1, 10 ** 12) + 8 * ulp(a)
    best = Fr(0)
    for x0, x1, y0, y1 in SEG:
        if x0 * Fr(99, 100) <= a <= x1 * Fr(101, 100):
            slope = (x1 - x0) / (y1 - y0)
            s = y0 + (a - x0) / slope
            best = max(best, slope * (12 * ulp(max(s, y0)) + Fr(2, 10 ** 12)) + 12 * ulp(a))
    return best


def num(s):
    return int(s) if isinstance(s, int) or ('.' not in s and 'e' not in s and 'n' not in s) else float(s)


def numbers(o):
    ints, floats, _ = o.mined(*FILE)
    xs = set(floats) | {float(x) for x in ints if abs(x) < 10 ** 300} | {float(p) for p in (0, 1, 10 ** 12, 10 ** 15, 10 ** 19, 10 ** 22, 10 ** 24, 10 ** 42, 10 ** 56, 10 ** 65)}
    out = set()
    for x in xs:
        if x != x or x in (float('inf'), float('-inf')):
            continue
        for y in (x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf), x + 0.5, x - 0.5, x * (1 + 1e-9), x * (1 - 1e-9), x / 3, 0.1 + x):
            out.add(y)
            out.add(-y)
    for i in range(4000 if o.thorough else 600):
        m = o.rng.choice([o.rng.uniform(1, 10), float(o.rng.randrange(1, 10)), o.rng.randrange(1, 10 ** 6) / 10 ** 5])
        e = o.rng.randrange(-12, 65)
        out.add(m * 10.0 ** e)
        out.add(-m * 10.0 ** e)
        out.add(round(o.rng.uniform(-1e6, 1e6), o.rng.randrange(0, 7)))
    ints2 = {0, 1, -1, 7, 2 ** 31 - 1, -2 ** 31, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 10 ** 15, 10 ** 15 + 1, -10 ** 15, 10 ** 18, 10 ** 30, -10 ** 43, 10 ** 57, 10 ** 65} | {x for x in ints if abs(x) <= 10 ** 65}
    for i in range(200):
        ints2.add(o.rng.randrange(-2 ** 63, 2 ** 63))
        ints2.add(o.rng.randrange(-10 ** 6, 10 ** 6))
    return sorted(out), sorted(ints2)


def gen_C03(o):
    fl, it = numbers(o)
    for x in it:
        yield {'f': 'rt', 'v': x, 't': 'int'}
    for x in fl:
        if abs(x) < 1e65:
            yield {'f': 'rt', 'v': repr(x), 't': 'double'}
        if abs(x) < 3.5e38:
            yield {'f': 'rt', 'v': repr(x), 't': 'float'}
    for x in it:
        if abs(x) <= 10 ** 65:
            yield {'f': 'rt', 'v': x, 't': 'double'}
        if abs(x) < 10 ** 38:
            yield {'f': 'rt', 'v': x, 't': 'float'}
    for t in ('float', 'double', 'int'):
        for src in ([repr(y) for y in fl], it):
            if t == 'int' and src is not it:
                continue
            xs = [x for x in src if abs(num(x)) < (1e65 if t == 'double' else 3.5e38)]
            yield {'f': 'mono', 't': t, 'vs': sorted(xs, key=num)}
    for t in ('varchar', 'char', 'decimal', 'text', 'timestamp', 'date', ''):
        for v in ('abc', '12', '1.5', '1+1', '007', '', '中文', 'None', '__import__', None, 12, 1.25):
            yield {'f': 'other', 't': t, 'v': v}


rule_C03 = 'a number and a column type (breakpoints of the compression and neighbours, every constant in the source, random magnitudes 1e-12..1e65, both signs), or a sorted list of numbers'


def judge_C03(c):
    t = c['t']
    if c['f'] == 'other':
        if E.encode(c['v'], t) != c['v'] or type(E.encode(c['v'], t)) is not type(c['v']):
            return 'encode(%r, %r) = %r' % (c['v'], t, E.encode(c['v'], t))
        if E.decode(c['v'], t) != c['v'] or type(E.decode(c['v'], t)) is not type(c['v']):
            return 'decode(%r, %r) = %r' % (c['v'], t, E.decode(c['v'], t))
        return None
    if c['f'] == 'mono':
        last = None
        for s in c['vs']:
            v = num(s)
            e = E.encode(v, t)
            if last is not None and e < last[1] and last[0] <= v:
                return 'encode(%r) = %r > encode(%r) = %r (%s)' % (last[0], last[1], v, e, t)
            last = (v, e)
        return None
    v = num(c['v'])
    e = E.encode(v, t)
    if not isinstance(e, int):
        return 'encode(%r, %r) = %r is not an integer' % (v, t, e)
    for s in (str(e), e):
        d = E.decode(s, t)
        if d is None:
            return 'decode(%r, %r) = None' % (s, t)
        if t == 'int':
            if d != v:
                return 'decode(encode(%r), int) = %r' % (v, d)
        elif abs(Fr(d) - Fr(v)) > tol(v, t):
            return 'decode(encode(%r, %s) = %r) = %r, off by %.3g, allowed %.3g' % (v, t, e, d, abs(Fr(d) - Fr(v)), tol(v, t))
    return None


# ------------------------------------------------------------------ text ciphers
ALPH = ['a', 'Z', '0', '9', ' ', '\n', '\t', "'", '"', '\\', '%', '_', ',', 'é', '中', '文', '\U0001F600', '\x01', '\x7f', '\xa0', '\u3000', '\x10', '\x0f', '=', '+', '/']


def texts(o, n):
    _i, _f, strs = o.mined(*FILE)
    yield ''
    for s in strs:
        if not s.endswith('\0'):
            yield s
        yield s + 'x'
    for ch in ALPH:
        for ln in (1, 2, 3, 5, 15, 16, 17):
            yield ch * ln
        yield 'abc' + ch
        yield ch + 'abc'
        yield 'x' * 15 + ch
        yield 'x' * 16 + ch
    for ln in list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 1000, 4096]:
        yield ''.join(o.rng.choice('abcdefgh0123456789') for _ in range(ln))
        yield ''.join(o.rng.choice(ALPH) for _ in range(ln))
    for i in range(n):
        yield ''.join(o.rng.choice(ALPH) for _ in range(o.rng.randrange(0, 40)))


KEYS = ['', 'k', 'abcdefghijklmnopqrstuvwxyz@#$%^&*()points', '密钥']


def gen_C04(o):
    ts = [t for t in dict.fromkeys(texts(o, 2000 if o.thorough else 150)) if not t.endswith('\0')]
    for i, t in enumerate(ts):
        yield {'f': 'aes', 'key': KEYS[i % 4], 't': t}
        yield {'f': 'sm4', 'key': KEYS[i % 4], 't': t}
        yield {'f': 'bytes', 'key': KEYS[i % 4], 't': t.encode('utf8').hex()}
        yield {'f': 'cbc', 't': t}
    for i in range(200):
        yield {'f': 'bytes', 'key': 'k%d' % i, 't': o.rng.randbytes(o.rng.randrange(0, 70)).hex()}
    for i, t in enumerate(ts[:60]):
        yield {'f': 'two', 'k1': KEYS[i % 4], 'k2': KEYS[(i + 1 + i // 4 % 3) % 4], 't': t, 'u': ts[-1 - i]}
    for k in KEYS:
        yield {'f': 'inj', 'key': k, 'ts': ts}
    for t in ('a\0b', '\0a', 'a\0\0b', 'x' * 16 + '\0y'):
        yield {'f': 'aes', 'key': 'k', 't': t}
    for t in ('a\0', '\0', 'x' * 15 + '\0', 'ab\0\0'):
        yield {'f': 'aes', 'key': 'k', 't': t, 'nul': True}


rule_C04 = 'a key and a text (all lengths 0..69 and around block multiples, every character class, NUL bytes, strings from the source)'


def judge_C04(c):
    f = c['f']
    if f == 'cbc':
        r = E.AESCrypto.decrypt(E.AESCrypto.encrypt(c['t']))
        return None if r == c['t'] else 'CBC: decrypt(encrypt(%r)) = %r' % (c['t'], r)
    if f == 'two':
        for cls, kf, tf in ((E.AESCipher, str, str), (E.SM4CipherBytes, str, str), (E.AESCipherBytes, str.encode, str.encode)):
            alone = cls(kf(c['k1'])).encrypt(tf(c['t']))
            a = cls(kf(c['k1']))
            b = cls(kf(c['k2']))
            y = b.encrypt(tf(c['t']))
            x = a.encrypt(tf(c['t']))
            z = b.encrypt(tf(c['u']))
            if x != alone:
                return '%s.encrypt(%r) changes once an object with another key exists' % (cls.__name__, c['t'])
            if (a.decrypt(x), b.decrypt(y), b.decrypt(z)) != (tf(c['t']), tf(c['t']), tf(c['u'])):
                return '%s objects of two keys in turn: %r' % (cls.__name__, (a.decrypt(x), b.decrypt(y), b.decrypt(z)))
        return None
    if f == 'bytes':
        k = c['key'].encode('utf8')
        r = E.AESCipherBytes(k).decrypt(E.AESCipherBytes(k).encrypt(bytes.fromhex(c['t'])))
        return None if r == bytes.fromhex(c['t']) else 'AESCipherBytes: %r came back as %r' % (bytes.fromhex(c['t']), r)
    if f == 'sm4':
        r = E.SM4CipherBytes(c['key']).decrypt(E.SM4CipherBytes(c['key']).encrypt(c['t']))
        return None if r == c['t'] else 'SM4: %r came back as %r' % (c['t'], r)
    if f == 'aes':
        a = E.AESCipher(c['key'])
        x = a.encrypt(c['t'])
        if not isinstance(x, str) or x != E.AESCipher(c['key']).encrypt(c['t']):
            return 'AESCipher.encrypt(%r) is not a function of key and text' % c['t']
        r = E.AESCipher(c['key']).decrypt(x)
        return None if r == c['t'] else 'AESCipher: %r came back as %r' % (c['t'], r)
    if f == 'inj':
        seen = {}
        a = E.AESCipher(c['key'])
        for t in c['ts']:
            x = a.encrypt(t)
            if x in seen and seen[x] != t:
                return 'AESCipher: %r and %r share a ciphertext' % (seen[x], t)
            seen[x] = t
    return None


def finding_C04(c, msg):
    if c.get('nul') and c['f'] == 'aes' and c['t'].endswith('\0') and msg == 'AESCipher: %r came back as %r' % (c['t'], c['t'].rstrip('\0')):
        return 'C04-trailing-nul'
    return None


# ------------------------------------------------------------------ fuzzy
ALNUM = 'abcXYZ0189éß中文字'


def gen_C05(o):
    _i, _f, strs = o.mined(*FILE, 'scheduler/handers/clause/sql_where.py')
    words = [''.join(o.rng.choice(ALNUM) for _ in range(n)) for n in range(3, 12) for _ in range(2)] + [s for s in strs if s.isalnum() and len(s) >= 3]
    words += ['abc', '123', 'aaa', 'aaaa', '1a2', '中文字', 'Ⅷxx', '٣٣٣', '²ab']
    for i, w in enumerate(words):
        for pre, post in itertools.product(['', 'a', '0', '中', 'xy', 'abcd', w], ['', 'b', '9', 'zz', 'qwer', w]):
            yield {'f': 'sub', 'key': KEYS[i % 4], 'w': w, 's': pre + w + post}
    for i in range(3000 if o.thorough else 200):
        s = ''.join(o.rng.choice(ALNUM) for _ in range(o.rng.randrange(3, 30)))
        a = o.rng.randrange(0, len(s) - 2)
        b = o.rng.randrange(a + 3, len(s) + 1)
        yield {'f': 'sub', 'key': KEYS[i % 4], 'w': s[a:b], 's': s}
    pats = ['%abc%', 'abc%', '%abc', 'abc', '%abc%def%', '%%abc', '%abc%%', 'abc%def', '%', '%%', '', '%ab%', 'ab', 'a%abc', '%abc%de', '%a b c%', '%a-b%', 'a-b', '%中文字%',
            '%123%', '123', '12', '%abc%ab%abc%', '_', '%_%', "%it's%"]
    pats += ['%' + w + '%' for w in words[:6]] + [w + '%' + w for w in words[:4]]
    for i in range(200 if o.thorough else 40):
        pats.append(''.join(o.rng.choice(['%', '%', 'abc', 'defg', 'x', 'yz', '12345']) for _ in range(o.rng.randrange(1, 8))))
    for i, p in enumerate(dict.fromkeys(pats)):
        yield {'f': 'pat', 'key': KEYS[i % 4], 'p': p}
    for n in (123, 12, 1, 0, 100, 12345, -12, -123):
        yield {'f': 'pat', 'key': 'k', 'p': n}


rule_C05 = 'a key with an alphanumeric word inside an alphanumeric value, or a LIKE pattern'


def judge_C05(c):
    if c['f'] == 'sub':
        if not (c['w'].isalnum() and c['s'].isalnum() and c['w'] in c['s'] and len(c['w']) >= 3):
            return SKIP
        a, b = E.FuzzyCipher(c['key']).encrypt(c['w']), E.FuzzyCipher(c['key']).encrypt(c['s'])
        return None if a in b else 'fuzzy ciphertext of %r does not occur in that of %r' % (c['w'], c['s'])
    from whereref import like_case
    return like_case(c['key'], c['p'])


# ------------------------------------------------------------------ homomorphic
PRIMES = [(787659527, 1023624989), (1000000007, 998244353), (2147483647, 2147483629), (4294967291, 4294967279)]


def gen_C06(o):
    ints, _f, _s = o.mined(*FILE)
    for i, (p, q) in enumerate(PRIMES):
        n = p * q
        cap = n // 3 - 1
        vals = [x for x in ints if abs(x) <= cap] + [0, 1, -1, 7, -7, cap, -cap, 10 ** 12, -10 ** 12, 12345678]
        vals = [v for v in vals if abs(v) <= cap]
        for v in vals + [o.rng.randrange(-cap, cap + 1) for _ in range(200 if o.thorough else 15)]:
            yield {'f': 'one', 'k': [p, q], 'v': v}
        for j in range(100 if o.thorough else 12):
            m = o.rng.choice([1, 2, 3, 5, 10])
            b = cap // m
            vs = [o.rng.choice([o.rng.randrange(-b, b + 1), o.rng.randrange(-100, 100), 0, -1]) for _ in range(m)]
            yield {'f': 'sum', 'k': [p, q], 'vs': vs}
            yield {'f': 'avg', 'k': [p, q], 'vs': vs}
            yield {'f': 'cnt', 'k': [p, q], 'vs': vs}
        for v, m in ((5, 2), (-3, 3), (0, 4), (cap // 8, 8), (1, 1)):
            yield {'f': 'dup', 'k': [p, q], 'v': v, 'm': m, 'vs': [v, 1 if abs(v) < cap // 2 else 0]}
        for vs in ([5], [1, 1], [-3], [0, 0, 0], [-1, -1, 3], [2, 3, 4, 5, 6, 7, 8], [1, 2], [1, 2, 2]):
            for f in ('sum', 'avg', 'cnt'):
                yield {'f': f, 'k': [p, q], 'vs': vs}
    cols = {'a': [787659527, 1023624989], 'b': [1000000007, 998244353]}
    for items in ([['sum', 'a']], [['avg', 'b']], [['sum', 'a'], ['avg', 'b']], [['sum', 'b'], ['sum', 'a']], [['avg', 'a'], ['avg', 'b']],
                  [['sum', 'c'], ['sum', 'a']], [['max', 'a'], ['sum', 'b']], [['count', '*'], ['avg', 'a']], [['avg', 'a']], [['avg', 'b'], ['sum', 'a']],
                  [['sum', 'a'], ['avg', 'a']], [['sum', 'a'], ['sum', 'b'], ['avg', 'a'], ['avg', 'b']], [['avg', 'c'], ['avg', 'b']]):
        yield {'f': 'inj', 'cols': cols, 'items': items, 'alias': ''}
        yield {'f': 'inj', 'cols': cols, 'items': items, 'alias': 'tt.'}
        for cached in (True, False):
            yield {'f': 'mod', 'cols': cols, 'items': items, 'cached': cached}


rule_C06 = 'a key and a list of integers (single value, SUM form, AVG form, sum-and-count form), or an aggregate SELECT over two columns with different keys'


def judge_C06(c):
    if c['f'] == 'mod':
        return mod_case(c)
    if c['f'] == 'inj':
        return inj_case(c)
    h = E.HomomorphicCipher(c['k'])
    n2 = (c['k'][0] * c['k'][1]) ** 2
    if c['f'] == 'one':
        e = h.encrypt(c['v'])
        r = E.HomomorphicCipher(c['k']).decrypt(e)
        r2 = E.HomomorphicCipher(c['k']).decrypt(int(e))
        if r != c['v'] or r2 != c['v']:
            return 'decrypt(encrypt(%d)) = %r' % (c['v'], r)
        return None
    if c['f'] == 'dup':             # the rows of a copied table: the same ciphertext in several rows
        x, y = h.encrypt(c['v']), h.encrypt(c['vs'][1])
        for es, s in (([x] * c['m'], c['v'] * c['m']), ([x, y] + [x] * (c['m'] - 1), c['v'] * c['m'] + c['vs'][1])):
            d = E.HomomorphicCipher(c['k'])
            if d.decrypt(','.join(es) + ',SUM') != s:
                return 'SUM over %d copies of %r is off' % (c['m'], c['v'])
            if abs(Fr(d.decrypt(','.join(es) + ',AVG')) - Fr(s, len(es))) > 4 * ulp(Fr(s, len(es))):
                return 'AVG over %d copies of %r is off' % (c['m'], c['v'])
        return None
    es = [h.encrypt(v) for v in c['vs']]
    s = sum(c['vs'])
    h2 = E.HomomorphicCipher(c['k'])
    if c['f'] == 'sum':
        r = h2.decrypt(','.join(es) + ',SUM')
        return None if r == s else 'SUM over %r decrypts to %r' % (c['vs'], r)
    if c['f'] == 'avg':
        r = h2.decrypt(','.join(es) + ',AVG')
        return None if abs(Fr(r) - Fr(s, len(es))) <= 4 * ulp(Fr(s, len(es))) else 'AVG over %r decrypts to %r' % (c['vs'], r)
    prod = 1
    for x in es:
        prod = prod * int(x) % n2
    if h2.decrypt(str(prod)) != s:
        return 'the product of the ciphertexts of %r decrypts to %r' % (c['vs'], h2.decrypt(str(prod)))
    r = h2.decrypt('%d,%d' % (prod, len(es)))
    return None if abs(Fr(r) - Fr(s, len(es))) <= Fr(51, 10 ** 6) + 4 * ulp(Fr(s, len(es))) else 'sum,count form of %r decrypts to %r' % (c['vs'], r)


class Cur:
    def __init__(self):
        self.log = []

    def execute(self, s, *a):
        self.log.append(s)


def inj_case(c):
    """RemoteExecutor.inject_procedure: the statements it sends, and the query it sends last, over a server that keeps session variables"""
    import re
    from dbenv import metadata, set_meta
    Delta = metadata().Delta
    set_meta({'d': agg_meta(c)})
    from scheduler.backend.executors.remote_executor import RemoteExecutor
    names = [(f, c['alias'] + ('h' + x if x in c['cols'] and f in ('sum', 'avg') else x)) for f, x in c['items']]
    names = [(f, x if x != c['alias'] + '*' else '*') for f, x in names]
    sql = 'SELECT ' + ', '.join('%s(%s)' % (f.upper(), x) for f, x in names) + ' FROM tt'
    sel = [{f: x} for f, x in names]
    rec = {'select': sel if len(sel) > 1 else {'value': sel[0]}, 'from': 'tt'}
    ex = RemoteExecutor.__new__(RemoteExecutor)
    # the record of the statement, under whatever name the rewriter keeps it
    from scheduler.handers.rewrite_hander import Rewriter
    ex.rewriter = type('Rewriter', (Rewriter,), {'__getattr__': lambda self, n: rec})('d')
    vars(ex.rewriter).update({n: rec for n, v in list(vars(ex.rewriter).items()) if v is None})
    cur = Cur()
    ex.conn_info, ex.table = {'db': 'd'}, 't'
    ex.conn = type('Conn', (), {'cursor': lambda self: cur})()
    q = ex.inject_procedure(sql)
    n2 = {'h' + x: (k[0] * k[1]) ** 2 for x, k in c['cols'].items()}
    var = {}
    for s in cur.log:
        m = re.fullmatch(r'(?is)\s*set\s+@(\w+)\s*:?=\s*(.*?);?\s*', s)
        if not m:
            return 'unexpected statement %r' % s
        var[m.group(1)] = m.group(2)
    q = q.split(' FROM ')[0][len('SELECT '):]
    parts = re.split(r',(?![^(]*\))', q)
    if len(parts) != len(names):
        return 'the query sent has %d items, asked for %d: %r' % (len(parts), len(names), q)
    for (f, x), got in zip(names, parts):
        got = got.strip()
        h = x.split('.')[-1]
        if h not in n2 or f not in ('sum', 'avg'):
            if got != '%s(%s)' % (f.upper(), x):
                return 'item %s(%s) became %r' % (f, x, got)
            continue
        vs = re.findall(r'@(\w+)', got)
        if not vs or vs[0] not in var:
            return '%s(%s) is sent as %r, and the session has only %r' % (f, x, got, sorted(var))
        m = re.search(r'\(\s*@\w+\s*\*\s*([\w.]+)\s*\)\s*%\s*(\d+)', var[vs[0]])
        if not m or m.group(1) != x or int(m.group(2)) != n2[h]:
            return '%s(%s) is read from a variable computed by %r, n^2 is %d' % (f, x, var[vs[0]], n2[h])
        if f == 'avg' and (len(vs) != 2 or not re.search(r'(?i)count\(\*\)', var.get(vs[1], ''))):
            return 'AVG(%s) is sent as %r without its row count' % (x, got)
    return None


def agg_meta(c):
    meta = {'t': {'anonymous': 'tt', 'columns': {
        col: {'enc-cols': {'symmetric': 's' + col, 'arithmetic': 'h' + col}, 'plaintext': False, 'type': 'int', 'key': 'k', 'homomorphic_key': k} for col, k in c['cols'].items()}}}
    meta['t']['columns']['c'] = {'enc-cols': {}, 'plaintext': True, 'type': 'int', 'key': ''}
    return meta


def mod_case(c):
    import re
    from dbenv import metadata, set_meta
    Delta = metadata().Delta
    meta = agg_meta(c)
    set_meta({'d': meta})
    phys = {'a': 'ha', 'b': 'hb', 'c': 'c', '*': '*'}
    names = [(f, phys[x] if f in ('sum', 'avg', 'count') else 's' + x) for f, x in c['items']]
    sql = 'SELECT ' + ', '.join('%s(%s)' % (f.upper(), x) for f, x in names) + ' FROM tt'
    sel = [{'value': {f: x}} for f, x in names]
    # the rewriter leaves the entries of a list un-wrapped
    rec = {'select': [x['value'] for x in sel] if len(sel) > 1 else sel[0], 'from': 'tt'} if c['cached'] else None
    out = Delta.get_paillier_procedure_info(sql, 'd', 't', rec)
    cur = Cur()
    n2 = {phys[x]: (k[0] * k[1]) ** 2 for x, k in c['cols'].items()}
    for name, mod in list(out[0]) + list(out[1]):
        if mod != n2[name.split('.')[-1]]:
            return 'aggregate over %s is driven with modulus %d' % (name, mod)
        for f in (lambda: Delta.set_sum_feature(cur, (name, mod), 'tt'), lambda: Delta.create_paillier_sum_procedure(cur, (name, mod), 'tt', True)):
            cur.log.clear()
            f()
            txt = ' '.join(cur.log)
            big = [int(x) for x in re.findall(r'\d{10,}', txt)]
            if big != [n2[name]]:
                return 'server-side aggregation of %s uses the numbers %r, n^2 is %d' % (name, big, n2[name])
    if len(sel) == 1 and c['items'][0][0] in ('sum', 'avg') and c['items'][0][1] != 'c':
        lst = out[0] if c['items'][0][0] == 'sum' else out[1]
        if [x[0] for x in lst] != [names[0][1]] or out[2] != 1:
            return 'the aggregate %r was not recognised: %r' % (names[0], out[:3])
    return None
