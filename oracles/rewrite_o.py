"""C07-C12, C17, C18, C21 against the real rewriting code, its output read back by mysqlread."""
import copy
import datetime
import itertools
import re
from decimal import Decimal
from fractions import Fraction as Fr

import dbenv
import lib
from lib import SKIP
import mysqlread as MR

M = dbenv.metadata()
from scheduler.crypto import encrypt as E  # noqa
from scheduler.handers.rewrite_hander import Rewriter  # noqa
from sql_parsing import parse_mysql, format as sqlformat  # noqa

FILES = ['scheduler/handers/' + f for f in ('rewrite_hander.py', 'table.py', 'decrypt_handler.py', 'clause/sql_values.py', 'clause/sql_columns.py',
                                            'clause/sql_set.py', 'clause/sql_where.py', 'clause/sql_select.py', 'clause/function.py',
                                            'clause/__init__.py')] + ['scheduler/crypto/encrypt.py', 'scheduler/utils/keywords.py', 'sql_parsing/formatting.py']

HK = [[787659527, 1023624989], [1000000007, 998244353], [2147483647, 1073741789]]
NAMES = ['a', 'b2', 'name', 'id', 'Age', 'val_x', 'comment', 'type', 'user', 'k', 'e1', 'data', 'score', 'date', 'x']
CI = ['symmetric', 'order-preserving', 'fuzzy', 'arithmetic', 'sm4']


# ------------------------------------------------------------------ schemas
def mkcol(o, i, typ=None, plain=None, ciphers=None):
    typ = typ or o.rng.choice(['int', 'int', 'varchar', 'varchar', 'char', 'float', 'double'])
    plain = o.rng.random() < 0.35 if plain is None else plain
    if plain:
        return {'enc-cols': {}, 'plaintext': True, 'type': typ, 'key': ''}
    if ciphers is None:
        cs = ['symmetric']
        if typ in ('int', 'float', 'double'):
            cs.append('order-preserving')
        if o.rng.random() < 0.6:
            cs.append('fuzzy')
        if typ == 'int' and o.rng.random() < 0.6:
            cs.append('arithmetic')
        if o.rng.random() < 0.4:
            cs.append('sm4')
        if o.rng.random() < 0.6:
            o.rng.shuffle(cs)
    else:
        cs = list(ciphers)
    c = {'enc-cols': {x: 'c%d_%s' % (i, x[:2] + str(k)) for k, x in enumerate(cs)}, 'plaintext': False, 'type': typ,
         'key': 'key%d%s' % (i, o.rng.choice(['', 'x', 'abcdefgh']))}
    if 'arithmetic' in cs:
        c['homomorphic_key'] = HK[i % len(HK)]
    if 'sm4' in cs:
        c['sm4_key'] = o.rng.choice(['sm%d' % i, 'sm%d' % i, ''])
    return c


def mkmeta(o, ncols=None, **kw):
    n = ncols or o.rng.choice([1, 2, 3, 4, 5, 6])
    names = o.rng.sample(NAMES, n)
    cols = {nm: mkcol(o, i, **kw) for i, nm in enumerate(names)}
    other = {nm: mkcol(o, i + 50) for i, nm in enumerate(o.rng.sample(NAMES, 3))}
    for c in other.values():
        c['enc-cols'] = {k: 'zz' + v for k, v in c['enc-cols'].items()}
        c['key'] = 'other' + c['key']
    return {'t1': {'anonymous': 'table_aa', 'columns': cols}, 't2': {'anonymous': 'table_bb', 'columns': other}}


STRS = ['', 'x', 'abc', "O'Neil", 'back\\slash', 'per%cent', 'under_score', 'a"b', '中文字', 'sixteen chars 16', 'x' * 33, "'; drop table t; --", 'tab\there',
        'null', '12', 'a', 'zz', '%', "''", '\\', "\\'", 'line\nbreak']
INTS = [0, 1, -1, 5, 42, -17, 2147483647, -2147483648, 10 ** 12, 123456789012345]
FLTS = [0.5, 2.5, -0.25, 3.75, 1e-3, 123456.789, -99.5, 7, 0, 100000.0]


def q(s):
    """a MySQL string literal"""
    return "'" + s.replace('\\', '\\\\').replace("'", "''").replace('\n', '\\n').replace('\r', '\\r') + "'"


def lit(v):
    return 'NULL' if v is None else q(v) if isinstance(v, str) else repr(v)


def val(o, typ, nulls=True):
    if nulls and o.rng.random() < 0.08:
        return None
    if typ in ('varchar', 'char'):
        if o.rng.random() < 0.1:
            return o.rng.choice(INTS)
        return o.rng.choice(STRS) if o.rng.random() < 0.8 else ''.join(o.rng.choice("abcXYZ019 _%'\"\\中é") for _ in range(o.rng.randrange(1, 40)))
    if typ == 'int':
        return o.rng.choice(INTS) if o.rng.random() < 0.6 else o.rng.randrange(-10 ** 9, 10 ** 9)
    return o.rng.choice(FLTS)


def ast_of(v):
    """how a plain value reads back"""
    if v is None:
        return ['null']
    if isinstance(v, str):
        return ['str', v]
    return ['num', str(Fr(repr(v)) if isinstance(v, float) else Fr(v))]


def same_ast(a, b):
    return a == b


def cipher_matches(got, col, cipher, v):
    """does the expression AST `got` carry the ciphertext of v for that cipher?"""
    if v is None:
        return got == ['null']
    enc = E.encode(v, col['type'])
    if cipher == 'symmetric':
        return got == ['str', E.AESCipher(col['key']).encrypt(str(enc))]
    if cipher == 'order-preserving':
        return got == ['num', str(Fr(E.OPECipher(col['key']).encrypt(int(enc))))]
    if cipher == 'fuzzy':
        return got == ['str', E.FuzzyCipher(col['key']).encrypt(str(enc))]
    if cipher == 'sm4':
        if got[0] != 'str':
            return False
        return got == ['str', E.SM4CipherBytes(col['sm4_key']).encrypt(str(enc))]
    if cipher == 'arithmetic':
        if got[0] not in ('str', 'num'):
            return False
        try:
            return E.HomomorphicCipher(col['homomorphic_key']).decrypt(got[1]) == int(enc)
        except Exception:
            return False
    return False


def rewrite(meta, sql, enc=None):
    dbenv.set_meta({'d': copy.deepcopy(meta)})
    r = Rewriter('d', enc)
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        out = r.rewrite_query(sql)
    return r, out


def read(meta, sql):
    """('ok', rewriter, statement, text) or ('refused', exception)"""
    try:
        r, out = rewrite(meta, sql)
    except Exception as ex:
        return ('refused', ex, None, None)
    try:
        return ('ok', r, MR.statement(out[0]), out[0])
    except MR.Bad as ex:
        return ('bad', ex, None, out[0])


def short(x):
    return repr(x)[:700]


# ------------------------------------------------------------------ C07
def ins_case(o):
    meta = mkmeta(o)
    cols = list(meta['t1']['columns'])
    k = o.rng.randrange(1, len(cols) + 1)
    use = o.rng.sample(cols, k)
    nrows = o.rng.choice([1, 1, 1, 2, 3]) if k > 1 else 1
    rows = []
    for _ in range(nrows):
        row = []
        for c in use:
            v = val(o, meta['t1']['columns'][c]['type'])
            if nrows > 1 and (not v or not isinstance(v, str) and v < 0):      # other multi-row inserts are refused by the parser
                v = 7 if meta['t1']['columns'][c]['type'] not in ('varchar', 'char') else 'seven'
            row.append(v)
        rows.append(row)
    return {'meta': meta, 'cols': use, 'rows': rows}


def gen_C07(o):
    for typ in ('int', 'varchar', 'char', 'float', 'double'):
        for ciphers in (['symmetric'], ['order-preserving', 'symmetric'], ['fuzzy', 'sm4', 'symmetric'], ['sm4'], ['symmetric', 'order-preserving', 'fuzzy', 'arithmetic', 'sm4']):
            if typ != 'int':
                ciphers = [c for c in ciphers if c != 'arithmetic' and (c != 'order-preserving' or typ in ('float', 'double'))]
            for plainside in (0, 1):
                meta = mkmeta(o, 1, typ=typ, plain=False, ciphers=ciphers)
                cs = meta['t1']['columns']
                nm = list(cs)[0]
                other = [x for x in NAMES if x != nm][0]
                if plainside:
                    cs2 = {other: mkcol(o, 9, typ='varchar', plain=True)}
                    cs2.update(cs)
                    meta['t1']['columns'] = cs2
                for v in (STRS if typ in ('varchar', 'char') else INTS if typ == 'int' else FLTS)[::1 if o.thorough else 4]:
                    yield {'meta': meta, 'cols': list(meta['t1']['columns']), 'rows': [(['plain'] if plainside else []) + [v]]}
    for ciphers in (['symmetric', 'rot13'], ['aes'], ['fuzzy', 'symmetric', '']):
        meta = mkmeta(o, 1, typ='varchar', plain=False, ciphers=ciphers)
        yield {'meta': meta, 'cols': list(meta['t1']['columns']), 'rows': [['secret text']]}
    for _ in range(4000 if o.thorough else 500):
        yield ins_case(o)


rule_C07 = 'table definition, insert column order and rows of values'


def ins_sql(c):
    return 'insert into t1 (%s) values %s' % (', '.join(c['cols']), ', '.join('(' + ', '.join(lit(v) for v in r) + ')' for r in c['rows']))


def unknown_cipher(meta, names):
    return any(x not in CI for n in names for x in meta['t1']['columns'][n]['enc-cols'])


def judge_C07(c):
    sql = ins_sql(c)
    st, r, ast, txt = read(c['meta'], sql)
    if unknown_cipher(c['meta'], c['cols']):
        return None if st == 'refused' else 'a value for a column with an unknown cipher was sent on: %s' % txt
    if st == 'refused':
        return 'a plain INSERT was refused: %r for %r' % (r, sql)
    if st == 'bad':
        return 'the rewritten statement is not MySQL (%s): %s' % (r, txt)
    cols = c['meta']['t1']['columns']
    if ast['k'] != 'insert' or ast['table'] != ['table_aa']:
        return 'wrong statement or table: %s' % txt
    want = []
    for cn in c['cols']:
        want += [(cn, None, cn)] if cols[cn]['plaintext'] else [(cn, ci, ph) for ci, ph in cols[cn]['enc-cols'].items()]
    got = ['.'.join(x) for x in ast['cols']]
    if len(c['rows']) == 1:
        if got != [w[2] for w in want]:
            return 'column list %r, wanted %r' % (got, [w[2] for w in want])
    elif sorted(got) != sorted(w[2] for w in want):
        return 'column list %r, wanted the columns %r' % (got, [w[2] for w in want])
    if len(ast['rows']) != len(c['rows']):
        return '%d rows became %d' % (len(c['rows']), len(ast['rows']))
    by = {w[2]: w for w in want}
    for row, vals in zip(ast['rows'], c['rows']):
        given = dict(zip(c['cols'], vals))
        if len(row) != len(got):
            return 'row has %d values for %d columns: %s' % (len(row), len(got), txt)
        for g, e in zip(got, row):
            cn, ci, _ph = by[g]
            v = given[cn]
            if ci is None:
                if e != ast_of(v):
                    return 'plaintext column %s: value %r became %s' % (cn, v, short(e))
            elif not cipher_matches(e, cols[cn], ci, v):
                return 'column %s (%s of %s): value %r became %s' % (g, ci, cn, v, short(e))
    return None


# ------------------------------------------------------------------ conditions
CMPS = {'eq': '=', 'neq': '<>', 'gt': '>', 'gte': '>=', 'lt': '<', 'lte': '<='}


def cond(o, cols, depth):
    x = o.rng.random()
    if depth and x < 0.5:
        op = o.rng.choice(['and', 'or'])
        return [op] + [cond(o, cols, depth - 1) for _ in range(o.rng.choice([2, 2, 3]))]
    if depth and x < 0.56:
        return ['not', cond(o, cols, depth - 1)]
    cn = o.rng.choice(list(cols))
    c = cols[cn]
    enc = not c['plaintext']
    y = o.rng.random()
    if c['type'] in ('varchar', 'char') and y < 0.35:
        pat = o.rng.choice(['%abc%', 'abc%', '%abcd', 'hello', '%ab%', 'ab', '%', 'abc%defg', "%it's%", '%xyz%%abc', '中文字%'])
        return [o.rng.choice(['like'] * 5 + ['not_like']), cn, pat]
    if y < 0.85 or enc and y < 0.9:
        op = o.rng.choice(['eq', 'eq', 'eq', 'gt', 'gte', 'lt', 'lte', 'neq'] if not (enc and o.rng.random() < 0.6) else
                          (['eq', 'gt', 'gte', 'lt', 'lte'] if c['type'] == 'int' and 'order-preserving' in c['enc-cols'] else ['eq']))
        z = o.rng.random()
        if z < 0.04:
            return [op, cn, ['col', o.rng.choice(list(cols))]]
        if z < 0.08:
            return [op + '_r', cn, val(o, c['type'], nulls=False)]     # literal first
        return [op, cn, val(o, c['type'], nulls=False)]
    if y < 0.9:
        return ['in', cn, val(o, c['type'], False), val(o, c['type'], False)]
    if y < 0.94:
        return ['between', cn, val(o, c['type'], False), val(o, c['type'], False)]
    return [o.rng.choice(['missing', 'exists']), cn]


def cond_sql(t):
    k = t[0]
    if k in ('and', 'or'):
        return (' %s ' % k.upper()).join('(' + cond_sql(x) + ')' if x[0] in ('and', 'or') else cond_sql(x) for x in t[1:])
    if k == 'not':
        return 'NOT (' + cond_sql(t[1]) + ')'
    if k in ('missing', 'exists'):
        return '%s IS %sNULL' % (t[1], 'NOT ' if k == 'exists' else '')
    if k == 'in':
        return '%s IN (%s)' % (t[1], ', '.join(lit(x) for x in t[2:]))
    if k == 'between':
        return '%s BETWEEN %s AND %s' % (t[1], lit(t[2]), lit(t[3]))
    if k in ('like', 'not_like'):
        return '%s %s %s' % (t[1], 'LIKE' if k == 'like' else 'NOT LIKE', lit(t[2]))
    rhs = t[2][1] if isinstance(t[2], list) else lit(t[2])
    if k.endswith('_r'):
        return '%s %s %s' % (rhs, CMPS[k[:-2]], t[1])
    return '%s %s %s' % (t[1], CMPS[k], rhs)


class Refuse(Exception):
    pass


def match_cond(t, ast, cols):
    """None when the rewritten condition `ast` is the right translation of t; Refuse when t has to be refused"""
    k = t[0]
    if k in ('and', 'or'):
        flatt = []

        def add(x):
            for y in x[1:]:
                add(y) if y[0] == k else flatt.append(y)
        add(t)
        if not (isinstance(ast, list) and ast[0] == k and len(ast) - 1 == len(flatt)):
            return 'the %s structure changed: %s became %s' % (k.upper(), cond_sql(t), short(ast))
        for x, y in zip(flatt, ast[1:]):
            m = match_cond(x, y, cols)
            if m:
                return m
        return None
    if k == 'not':
        if ast[0] != 'not':
            return 'NOT lost: %s' % short(ast)
        return match_cond(t[1], ast[1], cols)
    c = cols[t[1]]
    if c['plaintext']:
        want = plain_cond(t)
        if ast != want:
            return 'condition %s on a plaintext column became %s' % (cond_sql(t), short(ast))
        return None
    if k == 'eq' and not isinstance(t[2], list):
        if ast[0] == 'eq' and ast[1] == ['col', c['enc-cols']['symmetric']] and cipher_matches(ast[2], c, 'symmetric', t[2]):
            return None
    elif k in ('gt', 'gte', 'lt', 'lte') and c['type'] == 'int' and not isinstance(t[2], list):
        if ast[0] == k and ast[1] == ['col', c['enc-cols']['order-preserving']] and cipher_matches(ast[2], c, 'order-preserving', t[2]):
            return None
    elif k == 'like':
        want = '%'.join('' if x == '' else E.FuzzyCipher(c['key']).encrypt(x) for x in str(t[2]).split('%'))
        if ast == ['like', ['col', c['enc-cols']['fuzzy']], ['str', want]]:
            return None
    return 'condition %s on an encrypted column became %s' % (cond_sql(t), short(ast))


def plain_cond(t):
    k = t[0]
    if k in ('missing', 'exists'):
        return [k, ['col', t[1]]]
    if k in ('in', 'between'):
        return [k, ['col', t[1]]] + [ast_of(x) for x in t[2:]]
    r = ['col', t[2][1]] if isinstance(t[2], list) else ast_of(t[2])
    if k.endswith('_r'):
        return [k[:-2], r, ['col', t[1]]]
    return [k, ['col', t[1]], r]


def must_refuse(t, cols):
    """conditions that the stored ciphertexts can not decide (or decide only by sending the literal in the clear)"""
    k = t[0]
    if k in ('and', 'or'):
        return any(must_refuse(x, cols) for x in t[1:])
    if k == 'not':
        return mentions(t[1], cols)
    c = cols[t[1]]
    if len(t) > 2 and isinstance(t[2], list) and t[2][0] == 'raw':
        return not c['plaintext']
    rc = cols[t[2][1]] if len(t) > 2 and isinstance(t[2], list) else None
    if c['plaintext'] and (rc is None or rc['plaintext']):
        return False
    if c['plaintext'] or rc is not None:
        return True
    if k == 'eq':
        return 'symmetric' not in c['enc-cols'] or type_clash(c, t[2])
    if k in ('gt', 'gte', 'lt', 'lte'):
        return c['type'] != 'int' or 'order-preserving' not in c['enc-cols'] or type_clash(c, t[2]) or isinstance(t[2], str)
    if k == 'like':
        return 'fuzzy' not in c['enc-cols'] or any(x != '' and len(x) < 3 for x in str(t[2]).split('%'))
    return True


def mentions(t, cols):
    if t[0] in ('and', 'or', 'not'):
        return any(mentions(x, cols) for x in t[1:])
    return not cols[t[1]]['plaintext'] or (len(t) > 2 and isinstance(t[2], list) and t[2][0] == 'col' and not cols[t[2][1]]['plaintext'])


def type_clash(c, v):
    if isinstance(v, float):
        return c['type'] not in ('float', 'double')
    if isinstance(v, str):
        return c['type'] in ('float', 'double')
    return False


def where_case(o):
    meta = mkmeta(o)
    cols = meta['t1']['columns']
    return {'meta': meta, 'cond': cond(o, cols, o.rng.choice([0, 0, 1, 1, 2, 3])), 'stmt': o.rng.choice(['select', 'delete', 'update'])}


def fixed_conds(o):
    cs = {}
    i = 0
    for typ in ('int', 'varchar', 'char', 'float', 'double'):
        cs[typ[0] + 'e'] = mkcol(o, i, typ=typ, plain=False, ciphers=['fuzzy', 'symmetric'] + (['order-preserving'] if typ in ('int', 'float', 'double') else []) + (['arithmetic'] if typ == 'int' else []))
        cs[typ[0] + 'e2'] = mkcol(o, i + 1, typ=typ, plain=False, ciphers=['symmetric'])
        cs[typ[0] + 'p'] = mkcol(o, i + 2, typ=typ, plain=True)
        i += 3
    meta = {'t1': {'anonymous': 'table_aa', 'columns': cs}, 't2': {'anonymous': 'table_bb', 'columns': {}}}
    ops = ['eq', 'neq', 'gt', 'gte', 'lt', 'lte', 'like', 'not_like', 'in', 'between', 'missing', 'exists', 'eq_r', 'gt_r', 'lt_r', 'lte_r', 'gte_r', 'neq_r']
    for cn, c in cs.items():
        txt = c['type'] in ('varchar', 'char')
        for op in ops:
            if 'like' in op:
                vs = ['%abc%', 'hello', '%ab', 'abc%%defg%', '', '%abc%de%', 'ab%cdefg', '%abcd%x', 'abc%d%efg', '%'] if txt else ['%123%', '12', '%123%4%', '12%345']
            else:
                vs = ['hello', "it's", ''] if txt else [5, -3, 0, 2.5, -0.25, 'hello', '7'] if c['type'] == 'int' else [2.5, -3, 0, 'hello', '2.5']
            for v in vs:
                leaf = [op, cn] if op in ('missing', 'exists') else [op, cn, v, v] if op in ('in', 'between') else [op, cn, v]
                if '_r' in op and v == '':
                    continue
                yield meta, leaf
        for c2 in cs:
            if cs[c2]['type'] == c['type'] and c2 != cn:
                yield meta, ['eq', cn, ['col', c2]]
                yield meta, ['lt', cn, ['col', c2]]
        if not c['plaintext']:
            two = "('abc', 'defg')" if txt else '(5, 7)'
            for op in ('eq', 'gt', 'lte', 'neq') + (('like',) if txt else ()):
                yield meta, [op, cn, ['raw', two]]


def gen_C09(o):
    leaves = list(fixed_conds(o))
    for i, (meta, leaf) in enumerate(leaves):
        yield {'meta': meta, 'cond': leaf, 'stmt': ['select', 'delete', 'update'][i % 3]}
        if i % (1 if o.thorough else 6) == 0:
            other = leaves[(i * 7 + 3) % len(leaves)][1]
            third = leaves[(i * 11 + 5) % len(leaves)][1]
            yield {'meta': meta, 'cond': ['and', leaf, other], 'stmt': 'select'}
            yield {'meta': meta, 'cond': ['or', other, ['and', leaf, third]], 'stmt': 'delete'}
            yield {'meta': meta, 'cond': ['and', ['or', other, leaf], third, leaf], 'stmt': 'update'}
            yield {'meta': meta, 'cond': ['not', leaf], 'stmt': 'select'}
    good = [(m, l) for m, l in leaves if not must_refuse(l, m['t1']['columns'])]
    for _ in range(1500 if o.thorough else 150):
        m = good[0][0]

        def tree(d):
            if d == 0 or o.rng.random() < 0.3:
                return o.rng.choice(good)[1]
            return [o.rng.choice(['and', 'or'])] + [tree(d - 1) for _ in range(o.rng.choice([2, 2, 3]))]
        yield {'meta': m, 'cond': tree(o.rng.choice([1, 2, 3, 4])), 'stmt': o.rng.choice(['select', 'delete', 'update'])}
    for _ in range(4000 if o.thorough else 350):
        yield where_case(o)


rule_C09 = 'table definition, condition tree and statement kind'


def where_sql(c):
    w = cond_sql(c['cond'])
    if c['stmt'] == 'select':
        return 'select count(*) from t1 where ' + w
    if c['stmt'] == 'delete':
        return 'delete from t1 where ' + w
    cols = c['meta']['t1']['columns']
    cn = sorted(cols)[0]
    v = 'abcd' if cols[cn]['type'] in ('varchar', 'char') else 7
    return 'update t1 set %s = %s where %s' % (cn, lit(v), w)


def judge_C09(c):
    sql = where_sql(c)
    cols = c['meta']['t1']['columns']
    st, r, ast, txt = read(c['meta'], sql)
    refuse = must_refuse(c['cond'], cols)
    if st == 'refused':
        return None if refuse else 'refused: %r for %r' % (r, sql)
    if st == 'bad':
        return 'the rewritten statement is not MySQL (%s): %s' % (r, txt)
    if refuse:
        return 'a condition that no stored ciphertext decides was sent on: %s' % txt
    if 'where' not in ast:
        return 'the condition was lost: %s' % txt
    return match_cond(c['cond'], ast['where'], cols)


# ------------------------------------------------------------------ C08
def gen_C08(o):
    for c in gen_C07(o):
        if len(c['rows']) == 1:
            yield {'meta': c['meta'], 'set': list(zip(c['cols'], c['rows'][0])), 'where': o.rng.random() < 0.5}
    for _ in range(300 if o.thorough else 60):
        m = mkmeta(o)
        cols = m['t1']['columns']
        enc = [c for c in cols if not cols[c]['plaintext']]
        if enc:
            yield {'meta': m, 'set': [[enc[0], {'col': o.rng.choice(list(cols) + ['nosuch', 'other_col'])}]], 'where': False}


rule_C08 = 'table definition and SET list'


def judge_C08(c):
    cols = c['meta']['t1']['columns']
    sets = [(k, v) for k, v in c['set']]
    sql = 'update t1 set ' + ', '.join('%s = %s' % (k, v['col'] if isinstance(v, dict) else lit(v)) for k, v in sets)
    if c['where']:
        sql += ' where %s IS NOT NULL' % ([k for k in cols if cols[k]['plaintext']] + ['1'])[0]
    st, r, ast, txt = read(c['meta'], sql)
    if any(isinstance(v, dict) for _k, v in sets):
        return None if st == 'refused' else 'an encrypted column assigned from another column was sent on: %s' % txt
    if unknown_cipher(c['meta'], [k for k, _v in sets]):
        return None if st == 'refused' else 'a value for a column with an unknown cipher was sent on: %s' % txt
    if st == 'refused':
        return 'a plain UPDATE was refused: %r for %r' % (r, sql)
    if st == 'bad':
        return 'the rewritten statement is not MySQL (%s): %s' % (r, txt)
    if ast['k'] != 'update' or ast['table'] != ['table_aa']:
        return 'wrong statement or table: %s' % txt
    want = {}
    for k, v in sets:
        if cols[k]['plaintext']:
            want[k] = (k, None, v)
        else:
            for ci, ph in cols[k]['enc-cols'].items():
                want[ph] = (k, ci, v)
    got = ['.'.join(x[0]) for x in ast['set']]
    if sorted(got) != sorted(want):
        return 'assigns %r, wanted %r' % (got, sorted(want))
    for (name, e), g in zip(ast['set'], got):
        k, ci, v = want[g]
        if ci is None:
            if e != ast_of(v):
                return 'plaintext column %s: value %r became %s' % (k, v, short(e))
        elif not cipher_matches(e, cols[k], ci, v):
            return 'column %s (%s of %s): value %r became %s' % (g, ci, k, v, short(e))
    if c['where'] and 'where' not in ast:
        return 'the condition was lost: %s' % txt
    return None


# ------------------------------------------------------------------ C10
def sel_case(o, meta=None):
    star = meta is None
    meta = meta or mkmeta(o)
    cols = meta['t1']['columns']
    items = []
    n = o.rng.choice([1, 1, 2, 3, 4, 6])
    for _ in range(n):
        x = o.rng.random()
        cn = o.rng.choice(list(cols))
        c = cols[cn]
        if x < 0.08:
            items.append(['count'])
        elif x < 0.18 and (c['plaintext'] or 'symmetric' in c['enc-cols']):
            items.append(['count', cn])
        elif x < 0.45 and (c['plaintext'] or 'order-preserving' in c['enc-cols'] or 'arithmetic' in c['enc-cols']):
            fs = []
            if c['plaintext'] or 'order-preserving' in c['enc-cols']:
                fs += ['max', 'min']
            if c['plaintext'] or 'arithmetic' in c['enc-cols']:
                fs += ['sum', 'avg']
            items.append([o.rng.choice(fs), cn])
        elif c['plaintext'] or 'symmetric' in c['enc-cols']:
            items.append(['col', cn] + ([o.rng.choice(['al', 'zz', cn])] if o.rng.random() < 0.2 and n > 1 else []))
    if not items:
        items = [['count']]
    if star and o.rng.random() < 0.2:
        items = '*'
    return {'meta': meta, 'items': items, 'distinct': o.rng.random() < 0.15}


def gen_C10(o):
    for n in range(1, 7):
        for plain in (True, False, None):
            m = mkmeta(o, n, plain=plain)
            yield {'meta': m, 'items': '*', 'distinct': False}
            yield {'meta': m, 'items': [['col', c] for c in m['t1']['columns']], 'distinct': False}
            yield {'meta': m, 'items': [['col', c] for c in reversed(list(m['t1']['columns']))], 'distinct': False}
    for _ in range(6000 if o.thorough else 700):
        yield sel_case(o)


rule_C10 = 'table definition and select list'
FC = {'max': 'order-preserving', 'min': 'order-preserving', 'sum': 'arithmetic', 'avg': 'arithmetic', 'col': 'symmetric'}


def sel_expect(c):
    cols = c['meta']['t1']['columns']
    items = c['items']
    if items == '*':
        items = [['col', k] for k in cols]
    out = []
    for it in items:
        if it[0] == 'count' and len(it) > 1:
            k = cols[it[1]]
            out.append((['call', 'COUNT', ['col', it[1] if k['plaintext'] else k['enc-cols'].get('symmetric')]], it[1], 'int', 'plaintext'))
            continue
        if it[0] == 'count':
            out.append((['call', 'COUNT', ['star']], 'count', 'int', 'plaintext'))
            continue
        k = cols[it[1]]
        ph = it[1] if k['plaintext'] else k['enc-cols'].get(FC[it[0]])
        e = ['col', ph]
        if it[0] != 'col':
            e = ['call', it[0].upper(), e]
        out.append((e, it[1], k['type'], 'plaintext' if k['plaintext'] else FC[it[0]], ph is None))
    return out


def judge_C10(c):
    cols = c['meta']['t1']['columns']
    if c['items'] == '*' and any(not k['plaintext'] and 'symmetric' not in k['enc-cols'] for k in cols.values()):
        return SKIP
    want = sel_expect(c)
    its = c['items']
    sql = 'select ' + ('distinct ' if c['distinct'] else '') + (
        '*' if its == '*' else ', '.join('count(*)' if i == ['count'] else i[1] + (' as ' + i[2] if len(i) > 2 else '') if i[0] == 'col' else '%s(%s)' % (i[0], i[1]) for i in its)) + ' from t1'
    if c['distinct'] and its == '*':
        return SKIP
    st, r, ast, txt = read(c['meta'], sql)
    if st == 'refused':
        return 'a plain SELECT was refused: %r for %r' % (r, sql)
    if st == 'bad':
        return 'the rewritten statement is not MySQL (%s): %s' % (r, txt)
    if ast.get('from') != ['table_aa'] or ast['distinct'] != c['distinct']:
        return 'wrong table or DISTINCT: %s' % txt
    got = [e for e, _a in ast['items']]
    if got != [w[0] for w in want]:
        return 'select list %s, wanted %s' % (short(got), short([w[0] for w in want]))
    s = r.select_distinct if c['distinct'] else r.select
    if [tuple(x) for x in (s.select_columns, s.select_types, s.select_state)] != [tuple(w[i] for w in want) for i in (1, 2, 3)]:
        if c['distinct'] and [tuple(x) for x in (r.select.select_columns, r.select.select_types, r.select.select_state)] == [tuple(w[i] for w in want) for i in (1, 2, 3)]:
            return None
        return 'reported columns/types/states %r, wanted %r' % ((s.select_columns, s.select_types, s.select_state), [w[1:] for w in want])
    return None


# ------------------------------------------------------------------ C21
def gen_C21(o):
    for _ in range(1500 if o.thorough else 250):
        meta = mkmeta(o)
        cols = meta['t1']['columns']
        yield {'meta': meta, 'col': o.rng.choice(list(cols)), 'dir': o.rng.choice(['', 'asc', 'desc', 'DESC', 'ASC']),
               'limit': o.rng.choice([None, None, 3]), 'what': o.rng.choice(['count(*)', '*', 'col'])}


rule_C21 = 'table definition, order column, direction and select list'


def judge_C21(c):
    cols = c['meta']['t1']['columns']
    k = cols[c['col']]
    if c['what'] == '*' and any(not x['plaintext'] and 'symmetric' not in x['enc-cols'] for x in cols.values()):
        return SKIP
    if c['what'] == 'col' and not k['plaintext'] and 'symmetric' not in k['enc-cols']:
        return SKIP
    sql = 'select %s from t1 order by %s %s' % (c['col'] if c['what'] == 'col' else c['what'], c['col'], c['dir'])
    if c['limit']:
        sql += ' limit %d' % c['limit']
    st, r, ast, txt = read(c['meta'], sql)
    can = k['plaintext'] or 'order-preserving' in k['enc-cols']
    if st == 'refused':
        return None if not can else 'refused: %r for %r' % (r, sql)
    if st == 'bad':
        return 'the rewritten statement is not MySQL (%s): %s' % (r, txt)
    if not can:
        return 'a column without an order-preserving column was sorted: %s' % txt
    want = [[['col', c['col'] if k['plaintext'] else k['enc-cols']['order-preserving']], 'desc' if c['dir'].lower() == 'desc' else 'asc']]
    if ast.get('order') != want:
        return 'ORDER BY %s %s became %s' % (c['col'], c['dir'], txt)
    if c['limit'] and ast.get('limit') != [['num', str(c['limit'])]]:
        return 'the LIMIT changed: %s' % txt
    return None


# ------------------------------------------------------------------ C11
class Ex:
    pass


def gen_C11(o):
    wide = [7, 9, 12, 16] + [w + d for w in o.mined(*FILES)[0] if 1 < w < 60 for d in (0, 1)]
    for i in range(2500 if o.thorough else 350):
        c = sel_case(o)
        if i % 12 == 5 and c['items'] != '*':
            w = o.rng.choice(wide)
            while len(c['items']) < w:
                c['items'] = c['items'] + sel_case(o, c['meta'])['items']
            c['items'] = c['items'][:w]
        if c['items'] == '*' and any(not k['plaintext'] and 'symmetric' not in k['enc-cols'] for k in c['meta']['t1']['columns'].values()):
            continue
        cols = c['meta']['t1']['columns']
        exp = sel_expect(c)
        rows = []
        for _r in range(o.rng.choice([0, 1, 2, 3, 7])):
            row = []
            for e in exp:
                k = cols.get(e[1])
                if e[3] == 'plaintext':
                    row.append(o.rng.choice([['raw', 5], ['raw', 'text'], ['raw', None], ['dec', '12'], ['dec', '3.50'], ['dec', '-0.25'], ['raw', 2.5], ['dec', '1E+3'],
                                             ['dt', '2024-02-03 04:05:06'], ['dt', '1999-12-31 23:59:59'], ['raw', ''], ['dec', '12345678901234567890'], ['raw', 0]]))
                elif o.rng.random() < 0.12:
                    row.append(['raw', None])
                else:
                    v = val(o, k['type'], nulls=False)
                    if k['type'] == 'int' and not isinstance(v, int):
                        v = 3
                    if k['type'] in ('varchar', 'char') and (e[3] != 'symmetric' or str(v).endswith('\0')):
                        v = 'zz'
                    row.append(['enc', v, o.rng.choice(['s', 'n'])])
            rows.append(row)
        yield {'meta': c['meta'], 'items': c['items'], 'rows': rows, 'distinct': False}


rule_C11 = 'table definition, select list and result rows (numbers, decimals, dates, NULLs, ciphertexts as text or number)'


def judge_C11(c):
    from scheduler.handers.decrypt_handler import DecryptHandler
    meta = c['meta']
    cols = meta['t1']['columns']
    exp = sel_expect(c)
    names = [e[1] for e in exp]
    states = [e[3] for e in exp]
    rows, want = [], []
    for row in c['rows']:
        rr, ww = [], []
        for e, cell in zip(exp, row):
            k = cols.get(e[1])
            if cell[0] == 'raw':
                rr.append(cell[1])
                ww.append(('is', cell[1]))
            elif cell[0] == 'dec':
                rr.append(Decimal(cell[1]))
                ww.append(('num', int(Fr(cell[1])) if Fr(cell[1]).denominator == 1 else float(Fr(cell[1]))))
            elif cell[0] == 'dt':
                rr.append(datetime.datetime.strptime(cell[1], '%Y-%m-%d %H:%M:%S'))
                ww.append(('is', cell[1]))
            else:
                v = cell[1]
                enc = E.encode(v, k['type'])
                if e[3] == 'symmetric':
                    x = E.AESCipher(k['key']).encrypt(str(enc))
                elif e[3] == 'order-preserving':
                    x = E.OPECipher(k['key']).encrypt(int(enc))
                    if cell[2] == 's':
                        x = Decimal(x)
                else:
                    x = Decimal(str(E.HomomorphicCipher(k['homomorphic_key']).encrypt(int(enc))))
                    if cell[2] == 's':
                        x = str(x)
                rr.append(x)
                ww.append(('num', v) if k['type'] in ('int', 'float', 'double') else ('is', str(v)))
        rows.append(tuple(rr))
        want.append(ww)
    ex = Ex()
    ex.rewriter = Ex()
    ex.rewriter.select = Ex()
    ex.rewriter.select.select_state = states
    import io
    import contextlib
    outs = []
    with contextlib.redirect_stdout(io.StringIO()):
        outs.append(('decrypt', DecryptHandler(ex).decrypt(list(rows), list(names), copy.deepcopy(meta), 't1')))
        r1 = DecryptHandler(None).decrypt1({'rows': [list(r) for r in rows]}, list(names), copy.deepcopy(meta), 't1', list(states))
    if list(r1.get('columns')) != names:
        return 'decrypt1 reports columns %r' % (r1.get('columns'),)
    outs.append(('decrypt1', r1['rows']))
    for f, out in outs:
        if len(out) != len(want):
            return '%s: %d rows became %d' % (f, len(want), len(out))
        for i, (g, w) in enumerate(zip(out, want)):
            if len(g) != len(w):
                return '%s: row %d has %d cells for %d columns' % (f, i, len(g), len(w))
            for j, (x, (kind, y)) in enumerate(zip(g, w)):
                if kind == 'is':
                    if not (x == y and type(x) is type(y)):
                        return '%s: row %d column %s (%s): %r, wanted %r' % (f, i, names[j], states[j], x, y)
                else:
                    if isinstance(x, bool) or not isinstance(x, (int, float)):
                        return '%s: row %d column %s (%s): %r is not a number' % (f, i, names[j], states[j], x)
                    d = abs(Fr(x) - Fr(y))
                    exact = exp[j][2] == 'int' or states[j] == 'plaintext'
                    if d > (0 if exact else Fr(2, 10 ** 12) + abs(Fr(y)) / 2 ** 50):
                        return '%s: row %d column %s (%s): %r, wanted %r' % (f, i, names[j], states[j], x, y)
    return None


# ------------------------------------------------------------------ C12
QNAMES = ['order', 'my col', 'a`b', 'select', 'x-y', 'Sum of', '名字']
CT = {'int': ['int', 'int(11)'], 'varchar': ['varchar(%d)'], 'char': ['char(%d)'], 'float': ['float'], 'double': ['double']}


def ct_case(o, n=None):
    n = n or o.rng.choice([1, 2, 3, 4, 5])
    names = o.rng.sample(NAMES, n)
    if o.rng.random() < 0.2:
        names[o.rng.randrange(n)] = o.rng.choice(QNAMES)
    cols = []
    enc = {}
    for i, nm in enumerate(names):
        typ = o.rng.choice(list(CT) + ['decimal', 'bigint', 'text', 'datetime'])
        encd = typ in CT and o.rng.random() < 0.65
        ln = None
        if typ in ('varchar', 'char'):
            ln = o.rng.choice([1, 2, 5, 15, 16, 17, 20, 31, 32, 33, 47, 48, 50, 64, 100, 127, 200, 255] + ([256, 500, 1000, 4000] if typ == 'varchar' else []))
        col = {'name': nm, 'type': typ, 'len': ln, 'int11': typ == 'int' and o.rng.random() < 0.3, 'notnull': o.rng.random() < 0.3}
        if typ == 'decimal':
            col['dec'] = o.rng.choice([None, [10], [10, 2], [5, 0]])
        if o.rng.random() < 0.3 and typ in CT:
            col['default'] = val(o, typ, nulls=False) if typ not in ('float', 'double') else 2.5
            if typ in ('varchar', 'char') and not isinstance(col['default'], str):
                col['default'] = 'dflt'
        cols.append(col)
        if encd:
            e = {'key': 'k%d' % i, 'fuzzy': o.rng.random() < 0.5}
            if typ == 'int' and o.rng.random() < 0.5:
                e['arithmetic'] = True
                e['homomorphic_key'] = HK[i % 3]
            elif o.rng.random() < 0.2:
                e['arithmetic'] = False
            if o.rng.random() < 0.4:
                e['sm4'] = True
                e['sm4_key'] = 's%d' % i
                if o.rng.random() < 0.25:
                    e['sm4_key'] = ''
                    if o.rng.random() < 0.5 and 'default' not in col:
                        del e['sm4_key']
            enc[nm] = e
        if o.rng.random() < 0.15:
            col['comment'] = o.rng.choice(['a note', 'x', 'long text ' * 4])
    pk = o.rng.choice([None, None, 'inline', 'constraint', 'named'])
    if pk:
        k = o.rng.choice([c for c in cols])
        if 'default' in k:
            del k['default']
        pk = [pk, k['name']]
        if o.rng.random() < 0.3 and pk[0] != 'inline' and len(cols) > 1:
            pk.append([c['name'] for c in cols if c['name'] != k['name']][0])
    return {'cols': cols, 'enc': enc, 'pk': pk}


def gen_C12(o):
    for n in range(1, 300 if o.thorough else 80):
        for typ in ('char', 'varchar'):
            yield {'cols': [{'name': 'c', 'type': typ, 'len': n, 'int11': False, 'notnull': False}], 'enc': {'c': {'key': 'k', 'fuzzy': False}}, 'pk': None}
    for n in (100, 127, 128, 150, 173, 174, 175, 190, 191, 192, 200, 254, 255):
        for typ in ('char', 'varchar'):
            yield {'cols': [{'name': 'c', 'type': typ, 'len': n, 'int11': False, 'notnull': False}], 'enc': {'c': {'key': 'k', 'fuzzy': True}}, 'pk': None}
    for i in range(3000 if o.thorough else 400):
        yield ct_case(o, *([o.rng.choice([7, 9, 12, 15])] if i % 20 == 3 else []))


rule_C12 = 'column definitions (types, lengths, defaults, nullability), encryption configuration and primary key'


def bq(s):
    return '`' + s.replace('`', '``') + '`' if s in QNAMES else s


def ct_sql(c):
    parts = []
    for k in c['cols']:
        t = k['type']
        if k['len']:
            t += '(%d)' % k['len']
        if k.get('int11'):
            t += '(11)'
        if k.get('dec'):
            t += '(' + ','.join(map(str, k['dec'])) + ')'
        s = bq(k['name']) + ' ' + t
        if k.get('notnull'):
            s += ' NOT NULL'
        if 'default' in k:
            s += ' DEFAULT ' + lit(k['default'])
        if c['pk'] and c['pk'][0] == 'inline' and c['pk'][1] == k['name']:
            s += ' PRIMARY KEY'
        if k.get('comment'):
            s += ' COMMENT ' + q(k['comment'])
        parts.append(s)
    if c['pk'] and c['pk'][0] in ('constraint', 'named'):
        parts.append(('CONSTRAINT pk1 ' if c['pk'][0] == 'named' else '') + 'PRIMARY KEY (' + ', '.join(map(bq, c['pk'][1:])) + ')')
    return 'create table tt (' + ', '.join(parts) + ')'


def read_ddl(s):
    p = MR.P(s)
    p.kw('CREATE', 'TABLE')
    if p.iskw('IF'):
        p.kw('IF', 'NOT', 'EXISTS')
    r = {'table': '.'.join(p.name()), 'cols': [], 'pk': [], 'cname': None}
    p.op('(')
    while True:
        if p.iskw('CONSTRAINT', 'PRIMARY', 'FOREIGN'):
            if p.iskw('CONSTRAINT'):
                p.i += 1
                r['cname'] = p.ident()
            p.kw('PRIMARY', 'KEY')
            r['pk'] += ['.'.join(x) for x in p.par_names()]
        else:
            nm = p.ident()
            t = p.next()[1].lower()
            args = []
            if p.isop('('):
                args = [int(e[1]) for e in p.par_exprs()]
            col = {'name': nm, 'type': t, 'args': args, 'null': None, 'default': None}
            while not p.isop(',', ')'):
                if p.iskw('NOT'):
                    p.kw('NOT', 'NULL')
                    col['null'] = False
                elif p.iskw('NULL'):
                    p.i += 1
                    col['null'] = True
                elif p.iskw('PRIMARY'):
                    p.kw('PRIMARY', 'KEY')
                    r['pk'].append(nm)
                elif p.iskw('AUTO_INCREMENT'):
                    p.i += 1
                    col['auto'] = True
                elif p.iskw('DEFAULT'):
                    p.i += 1
                    col['default'] = p.e_unary()
                elif p.iskw('COMMENT'):
                    p.i += 1
                    col['comment'] = p.e_unary()
                else:
                    raise MR.Bad('in column definition: %r' % (p.peek(),))
            r['cols'].append(col)
        if p.isop(','):
            p.i += 1
            continue
        p.op(')')
        break
    p.end()
    return r


def judge_C12(c):
    sql = ct_sql(c)
    try:
        parse_mysql(sql)
    except Exception:
        return SKIP
    other = {'zz': {'anonymous': 'table_zz', 'columns': {}}}
    try:
        r, out = rewrite(other, sql, copy.deepcopy(c['enc']))
    except Exception as ex:
        return 'refused: %r for %r' % (ex, sql)
    meta = dbenv.metadata().Delta().meta['d']
    if 'tt' not in meta:
        return 'no metadata recorded for the table'
    if meta.get('zz') != other['zz']:
        return 'the metadata of another table changed'
    try:
        ddl = read_ddl(out[0])
    except MR.Bad as ex:
        return 'the rewritten statement is not MySQL (%s): %s' % (ex, out[0])
    tm = meta['tt']
    if ddl['table'] != tm['anonymous'] or tm['anonymous'] == 'tt' or not tm['anonymous'].startswith('table_') or len(tm['anonymous']) < 20:
        return 'table name in the DDL %r, in the metadata %r' % (ddl['table'], tm['anonymous'])
    if list(tm['columns']) != [k['name'] for k in c['cols']]:
        return 'metadata columns %r' % list(tm['columns'])
    i = 0
    phys = []
    for k in c['cols']:
        m = tm['columns'][k['name']]
        e = c['enc'].get(k['name'])
        if m['type'] != k['type'] or bool(m['plaintext']) != (e is None) or (e and m['key'] != e['key']):
            return 'metadata of %s: %r' % (k['name'], m)
        if e is None:
            exp = {None: k['name']}
            if m.get('enc-cols'):
                return 'plaintext column %s has cipher columns %r' % (k['name'], m['enc-cols'])
        else:
            ciph = ['symmetric'] + (['order-preserving'] if k['type'] in ('int', 'float', 'double') else []) + \
                (['fuzzy'] if e.get('fuzzy') else []) + (['arithmetic'] if e.get('arithmetic') else []) + (['sm4'] if e.get('sm4') else [])
            if sorted(m['enc-cols']) != sorted(ciph):
                return 'column %s configured %r, metadata has %r' % (k['name'], ciph, m['enc-cols'])
            if e.get('arithmetic') and m.get('homomorphic_key') != e['homomorphic_key'] or e.get('sm4') and (m.get('sm4_key') or '') != e.get('sm4_key', ''):
                return 'keys of %s not recorded: %r' % (k['name'], m)
            exp = dict(m['enc-cols'])
        block = ddl['cols'][i:i + len(exp)]
        i += len(exp)
        if sorted(b['name'] for b in block) != sorted(exp.values()):
            return 'DDL columns %r for %s, metadata %r' % ([b['name'] for b in block], k['name'], exp)
        inv = {v: kk for kk, v in exp.items()}
        for b in block:
            ci = inv[b['name']]
            phys.append(b['name'])
            if 'comment' in b and (ci is not None or b['comment'] != ['str', k.get('comment')]):
                return 'comment %s on the physical column of %s (%s)' % (short(b['comment']), k['name'], ci)
            if ci is not None and (k['name'] in b['name'] and len(k['name']) > 3 or len(b['name']) < 16):
                return 'physical column %r of %s is not anonymous' % (b['name'], k['name'])
            if (b['null'] is False) != bool(k.get('notnull')):
                return 'nullability of %s (%s) changed: %s' % (k['name'], ci, out[0])
            if ci is None:
                want = ([k['len']] if k['len'] else []) + ([11] if k.get('int11') else []) + list(k.get('dec') or [])
                if b['type'] != k['type'] or b['args'] != want:
                    return 'type of plaintext column %s became %s%r' % (k['name'], b['type'], b['args'])
                if ('default' in k and b['default'] != ast_of(k['default'])) or ('default' not in k and b['default'] is not None):
                    return 'default of %s became %s' % (k['name'], short(b['default']))
            else:
                if 'default' in k:
                    if b['default'] is None or not cipher_matches(b['default'], m, ci, k['default']):
                        return 'default %r of %s (%s) became %s' % (k['default'], k['name'], ci, short(b['default']))
                elif b['default'] is not None:
                    return 'default invented for %s: %s' % (k['name'], short(b['default']))
                if ci == 'symmetric' and k['type'] in ('char', 'varchar'):
                    need = len(E.AESCipher('k').encrypt('x' * k['len']))
                    if b['type'] not in ('char', 'varchar') or b['args'][0] < need:
                        return '%s(%d): ciphertext column %s%r, a ciphertext takes %d characters' % (k['type'], k['len'], b['type'], b['args'], need)
                    if b['type'] == 'char' and b['args'][0] > 255:
                        return '%s(%d): ciphertext column char(%d)' % (k['type'], k['len'], b['args'][0])
                    if need <= 65535 // 4 and b['args'][0] > 4 * need + 100:
                        return '%s(%d): ciphertext column %s%r' % (k['type'], k['len'], b['type'], b['args'])
                elif ci in ('symmetric', 'fuzzy', 'sm4') and b['type'] not in ('varchar', 'char', 'text'):
                    return '%s column of %s has type %s' % (ci, k['name'], b['type'])
                elif ci in ('order-preserving', 'arithmetic') and b['type'] not in ('bigint', 'decimal'):
                    return '%s column of %s has type %s' % (ci, k['name'], b['type'])
                elif ci == 'order-preserving' and k['type'] in ('float', 'double') and b['type'] != 'decimal':
                    return 'order-preserving column of a %s has type %s' % (k['type'], b['type'])
    if i != len(ddl['cols']):
        return 'extra columns in the DDL: %r' % [b['name'] for b in ddl['cols'][i:]]
    if len(set(phys)) != len(phys):
        return 'a physical column name is used twice: %r' % phys
    if c['pk']:
        want = []
        for nm in c['pk'][1:]:
            m = tm['columns'][nm]
            want.append(nm if m['plaintext'] else m['enc-cols']['symmetric'])
        if ddl['pk'] != want:
            return 'primary key %r, wanted %r' % (ddl['pk'], want)
    elif ddl['pk']:
        return 'primary key invented: %r' % ddl['pk']
    return None


# ------------------------------------------------------------------ C17
BIN = ['add', 'sub', 'mul', 'div', 'mod', 'eq', 'neq', 'gt', 'gte', 'lt', 'lte', 'and', 'or', 'like', 'not_like', 'binary_and', 'binary_or']
TXT = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'mod': '%', 'eq': '=', 'neq': '<>', 'gt': '>', 'gte': '>=', 'lt': '<', 'lte': '<=', 'and': 'AND', 'or': 'OR',
       'like': 'LIKE', 'not_like': 'NOT LIKE', 'binary_and': '&', 'binary_or': '|'}


def tree(o, d):
    x = o.rng.random()
    if d == 0 or x < 0.15:
        return o.rng.choice([['col', o.rng.choice('abcd')], ['num', str(o.rng.randrange(1, 9))], ['str', o.rng.choice(['x', 'y%'])], ['col', o.rng.choice('abcd')], ['num', '-3']])
    if x < 0.85:
        return [o.rng.choice(BIN), tree(o, d - 1), tree(o, d - 1)]
    if x < 0.90:
        return ['not', tree(o, d - 1)]
    if x < 0.94:
        return [o.rng.choice(['missing', 'exists']), tree(o, d - 1)]
    if x < 0.97:
        return ['between', tree(o, d - 1), tree(o, d - 1), tree(o, d - 1)]
    return ['in', tree(o, d - 1), ['num', '1'], ['num', '2']]


def to_sql(t):
    """fully parenthesised"""
    k = t[0]
    if k == 'col':
        return '.'.join(t[1:])
    if k == 'num':
        return t[1]
    if k == 'str':
        return q(t[1])
    if k == 'not':
        return '(NOT (%s))' % to_sql(t[1])
    if k == 'missing':
        return '((%s) IS NULL)' % to_sql(t[1])
    if k == 'exists':
        return '((%s) IS NOT NULL)' % to_sql(t[1])
    if k == 'between':
        return '((%s) BETWEEN (%s) AND (%s))' % tuple(to_sql(x) for x in t[1:])
    if k == 'in':
        return '((%s) IN (%s))' % (to_sql(t[1]), ', '.join(to_sql(x) for x in t[2:]))
    return '((%s) %s (%s))' % (to_sql(t[1]), TXT[k], to_sql(t[2]))


def to_json_tree(t):
    """the parser's JSON for t (its documented form)"""
    k = t[0]
    if k == 'col':
        return '.'.join(t[1:])
    if k == 'num':
        return int(t[1])
    if k == 'str':
        return {'literal': t[1]}
    if k in ('not', 'missing', 'exists'):
        return {k: to_json_tree(t[1])}
    if k == 'in':
        return {'in': [to_json_tree(t[1]), [int(x[1]) for x in t[2:]]]}
    if k in ('and', 'or', 'add', 'mul'):
        t = MR.flat(t)
    return {k: [to_json_tree(x) for x in t[1:]]}


# ---- whole statements, in the form the formatter writes them in (up to parentheses, AS and the case of words)
STMTS = [
    'SELECT a FROM t LIMIT 0', 'SELECT a FROM t LIMIT 5 OFFSET 0', 'SELECT a FROM t LIMIT 0, 5', 'SELECT a FROM t ORDER BY a LIMIT 3', 'SELECT 0 FROM t',
    "SELECT '' FROM t", "SELECT a FROM t WHERE a = ''", 'SELECT a FROM t WHERE a = 0', 'SELECT a FROM t WHERE NOT a', 'SELECT a, a FROM t', 'SELECT NULL FROM t',
    'SELECT a x, b y FROM t', 'SELECT a x FROM t', 'SELECT DISTINCT a FROM t', 'SELECT DISTINCT a, b FROM t', 'SELECT COUNT(*) FROM t', 'SELECT COUNT(*) n FROM t',
    'SELECT COUNT(DISTINCT a) FROM t', 'SELECT COUNT(DISTINCT a) n FROM t', 'SELECT SUM(a + b) s, MAX(c) FROM t', "SELECT IFNULL(a, 'x') FROM t", 'SELECT NOW() FROM t',
    'SELECT * FROM t', 'SELECT t.* FROM t', 'SELECT t.a, u.b FROM t, u', 'SELECT x.a FROM t x', 'SELECT x.a FROM t x, u y WHERE x.a = y.a',
    'SELECT a FROM t JOIN u ON t.a = u.b', 'SELECT a FROM t LEFT JOIN u ON t.a = u.b', 'SELECT a FROM t INNER JOIN u ON t.a = u.b AND t.c > 1',
    'SELECT a FROM t RIGHT JOIN u x ON t.a = x.b', 'SELECT a FROM t CROSS JOIN u', 'SELECT a FROM t JOIN u USING (c)', 'SELECT a FROM t JOIN u USING (c, d)',
    'SELECT a FROM t JOIN u ON t.a = u.a LEFT JOIN v ON v.b = u.b WHERE v.c IS NULL', 'SELECT a FROM t LEFT OUTER JOIN u ON t.a = u.b', 'SELECT a FROM t FULL JOIN u ON t.a = u.b',
    'SELECT a FROM t GROUP BY a', 'SELECT a FROM t GROUP BY a, b', 'SELECT a FROM t GROUP BY a HAVING COUNT(*) > 1', 'SELECT a FROM t GROUP BY a + b HAVING a > 0 ORDER BY b',
    'SELECT a FROM t ORDER BY a', 'SELECT a FROM t ORDER BY a ASC', 'SELECT a FROM t ORDER BY a DESC', 'SELECT a FROM t ORDER BY a DESC, b, c ASC', 'SELECT a FROM t ORDER BY a + b DESC',
    'SELECT a FROM t WHERE a = 1 GROUP BY b HAVING c = 2 ORDER BY d DESC LIMIT 4 OFFSET 5',
    'SELECT a FROM (SELECT b FROM u) x', 'SELECT a FROM (SELECT b FROM u WHERE c = 1 ORDER BY d LIMIT 2) x WHERE a = 1', 'SELECT a FROM t WHERE a IN (SELECT b FROM u)',
    'SELECT a FROM t WHERE a NOT IN (SELECT b FROM u WHERE c = 1)', 'SELECT a FROM t WHERE a = (SELECT MAX(b) FROM u)', 'SELECT (SELECT MAX(b) FROM u) FROM t', 'SELECT (SELECT MAX(b) FROM u) x, c FROM t',
    'SELECT a FROM t WHERE a > (SELECT b FROM u LIMIT 1) AND c = 1', 'SELECT a FROM t JOIN (SELECT b FROM u) x ON t.a = x.b', 'SELECT a FROM t WHERE a BETWEEN (SELECT 1) AND (SELECT 2)',
    'SELECT (SELECT 1) + (SELECT 2) FROM t', 'SELECT IFNULL(a, (SELECT 3)) FROM t', 'SELECT a FROM t GROUP BY (SELECT 1)', 'SELECT a FROM t ORDER BY (SELECT 1)',
    'SELECT a FROM t UNION SELECT b FROM u', 'SELECT a FROM t UNION ALL SELECT b FROM u', 'SELECT a FROM t UNION DISTINCT SELECT b FROM u', 'SELECT a FROM t UNION SELECT b FROM u UNION SELECT c FROM v',
    'SELECT a FROM t UNION ALL SELECT b FROM u ORDER BY a LIMIT 3', 'SELECT a FROM t INTERSECT SELECT b FROM u', 'SELECT a FROM t INTERSECT ALL SELECT b FROM u',
    'SELECT a FROM t EXCEPT SELECT b FROM u', 'SELECT a FROM t EXCEPT ALL SELECT b FROM u', 'SELECT a FROM t EXCEPT DISTINCT SELECT b FROM u', 'SELECT a FROM t WHERE a IN (SELECT b FROM u UNION SELECT c FROM v)',
    'SELECT a FROM (SELECT b FROM u UNION ALL SELECT c FROM v) x',
    'SELECT CASE WHEN a = 1 THEN b END FROM t', 'SELECT CASE WHEN a = 1 THEN b ELSE c END FROM t', 'SELECT CASE WHEN a = 1 THEN b WHEN a = 2 THEN d ELSE 0 END x FROM t',
    'SELECT CAST(a AS DECIMAL(10, 2)) FROM t', 'SELECT CAST(a AS CHAR(3)) FROM t', 'SELECT CAST(a AS DATE) FROM t', 'SELECT CAST(a + b AS DATE) FROM t', 'SELECT TRIM(a) FROM t', 'SELECT TRIM(BOTH b FROM a) FROM t', 'SELECT TRIM(LEADING b FROM a) FROM t',
    'SELECT TRIM(b FROM a) FROM t', 'SELECT SUBSTRING(a, 1, 2) FROM t', 'SELECT a COLLATE utf8 FROM t', "SELECT a FROM t WHERE a LIKE 'x%'", "SELECT a FROM t WHERE a NOT LIKE 'x%'", "SELECT a FROM t WHERE a RLIKE 'x'",
    "SELECT a FROM t WHERE a NOT RLIKE 'x'", 'SELECT a FROM t WHERE a <=> b', 'SELECT a FROM t WHERE a IS NULL', 'SELECT a FROM t WHERE a IS NOT NULL', 'SELECT a FROM t WHERE a BETWEEN 0 AND 5', 'SELECT a FROM t WHERE a NOT BETWEEN 0 AND 5',
    'SELECT a FROM t WHERE a IN (0)', 'SELECT a FROM t WHERE a NOT IN (1)', 'SELECT a FROM t WHERE a IN (b)', 'SELECT a FROM t WHERE a IN (b + 1)', 'SELECT a FROM t WHERE a IN (NULL)',
    "SELECT a FROM t WHERE a NOT IN ('x')", 'SELECT a FROM t WHERE a IN (IFNULL(b, c))', 'SELECT a FROM t WHERE a = NULL', 'SELECT a FROM t WHERE a <> NULL', 'SELECT a FROM t WHERE NULL = a',
    'DELETE FROM t WHERE a = NULL', 'SELECT a FROM t UNION SELECT b FROM u LIMIT 0', 'SELECT a FROM (SELECT b FROM u UNION SELECT c FROM v LIMIT 0) x', 'SELECT a FROM t UNION SELECT b FROM u ORDER BY a LIMIT 2 OFFSET 0',
    'SELECT a FROM t WHERE EXISTS (SELECT 1 FROM u WHERE u.a = t.a)', 'SELECT a FROM t WHERE NOT EXISTS (SELECT 1 FROM u) AND b = 1', 'SELECT EXISTS (SELECT 1 UNION SELECT 2) x FROM t',
    'SELECT a FROM t WHERE a IN (0, 1)', "SELECT a FROM t WHERE a IN ('x', 'y')", "SELECT a FROM t WHERE a NOT IN ('x', 'y')", 'SELECT a FROM t WHERE a NOT IN (0, 1)', 'SELECT a FROM t WHERE a IN (b, 1)',
    'SELECT SUM(a) OVER (PARTITION BY b) FROM t', 'SELECT SUM(a) OVER (PARTITION BY b, c ORDER BY d DESC) FROM t', 'SELECT SUM(a) OVER (ORDER BY d) s FROM t', 'SELECT SUM(a) OVER () FROM t',
    'SELECT SUM(a) OVER (ORDER BY d ROWS BETWEEN 1 PRECEDING AND 2 FOLLOWING) FROM t', 'SELECT SUM(a) OVER (ORDER BY d ROWS BETWEEN UNBOUNDED PRECEDING AND 2 FOLLOWING) FROM t',
    'SELECT SUM(a) OVER (ORDER BY d ROWS BETWEEN CURRENT ROW AND 2 FOLLOWING) FROM t', 'SELECT SUM(a) OVER (ORDER BY d ROWS BETWEEN CURRENT ROW AND UNBOUNDED FOLLOWING) FROM t',
    'SELECT SUM(a) OVER (ORDER BY d ROWS BETWEEN 3 PRECEDING AND 1 PRECEDING) FROM t', 'SELECT SUM(a) OVER (ORDER BY d ROWS BETWEEN 1 FOLLOWING AND 3 FOLLOWING) FROM t',
    'WITH w AS (SELECT a FROM t) SELECT b FROM w', 'WITH w AS (SELECT a FROM t), v AS (SELECT c FROM w) SELECT b FROM v',
    'UPDATE t SET a = 1', 'UPDATE t SET a = 0 WHERE b = 0', "UPDATE t SET a = '', b = NULL WHERE c IS NULL", 'UPDATE t SET a = a + 1, b = b * 2 WHERE c = 1 OR d = 2', 'UPDATE t SET a = (SELECT MAX(b) FROM u)',
    'DELETE FROM t', 'DELETE FROM t WHERE a = 0', 'DELETE FROM t WHERE a = 1 OR b = 2 AND c = 3',
    'INSERT INTO t (a) VALUES (1)', 'INSERT INTO t (a) VALUES (0)', "INSERT INTO t (a, b) VALUES (1, '')", "INSERT INTO t (a, b) VALUES (NULL, 'x')", 'INSERT INTO t VALUES (1, 2)', 'INSERT INTO t VALUES (1)',
    "INSERT INTO t (a, b) VALUES (1, 'x'), (2, 'y'), (3, '')", 'INSERT INTO t (a) VALUES (1), (2)', 'INSERT INTO t SELECT a FROM u', 'INSERT INTO t (a, b) SELECT c, d FROM u WHERE e = 1', 'INSERT INTO t (a) SELECT c FROM u UNION SELECT d FROM v',
    'INSERT INTO t (a, b) VALUES (1 + 2, NOW())', 'INSERT INTO t (a, b) VALUES (-1, 2.5)',
    'DROP TABLE t', 'DROP TABLE IF EXISTS t', 'DROP VIEW v', 'DROP INDEX i',
    'SELECT a - (b - c) FROM t', 'SELECT (a + b) * c FROM t', 'SELECT -a FROM t', 'SELECT a FROM t WHERE NOT (a = 1 OR b = 2)', 'SELECT a FROM t WHERE (a = 1 OR b = 2) AND c = 3', 'SELECT a FROM t WHERE a = 1 AND (b = 2 OR c = 3) AND d = 4',
    'SELECT a FROM t WHERE (a + 1) * 2 > b % 3', 'SELECT a || b FROM t', 'SELECT a & b | c FROM t', 'SELECT ~a FROM t', 'SELECT 1.5, 2, -3 FROM t', "SELECT 'it''s' FROM t", 'SELECT TRUE, FALSE FROM t', 'SELECT a.b FROM a', 'SELECT x.a.b FROM x.a',
]

PAIRS = [('SELECT 1e-3 FROM t', 'SELECT 0.001 FROM t'), ('SELECT 5E2, 1.5e-3 FROM t WHERE a = 2e-2', 'SELECT 500, 0.0015 FROM t WHERE a = 0.02'), ('SELECT .5 FROM t', 'SELECT 0.5 FROM t'),
         ('SELECT a FROM t WHERE a != 1', 'SELECT a FROM t WHERE a <> 1'), ('select A from T where A is Not null Order By A dEsc', 'SELECT A FROM T WHERE A IS NOT NULL ORDER BY A DESC'),
         ('SELECT  a\n,\tb FROM t\nWHERE a=1  AND b>2 ;', 'SELECT a, b FROM t WHERE a = 1 AND b > 2'), ('SELECT (a) FROM t WHERE ((a = 1))', 'SELECT a FROM t WHERE a = 1'),
         ('SELECT a AS x FROM t AS y', 'SELECT a x FROM t y'), ('SELECT `a` FROM `t`', 'SELECT a FROM t'), ('SELECT a FROM t -- note\n WHERE a = 1', 'SELECT a FROM t WHERE a = 1'),
         ('SELECT a FROM t WHERE a = -3', 'SELECT a FROM t WHERE a = - 3')]


def judge_pair(a, b):
    try:
        ja, jb = parse_mysql(a), parse_mysql(b)
    except Exception:
        return SKIP
    return None if ja == jb else '%s is read as %s' % (a, sqlformat(ja, ansi_quotes=False))


def rand_stmt(o):
    r = o.rng

    def ch(*xs):
        return r.choice(xs)

    def lit():
        return ch('0', '1', '7', '2.5', "''", "'x'", "'it''s'", 'NULL', '12345678901234')

    def ex(d):
        k = r.randrange(12) if d > 0 else r.randrange(3)
        if k < 2:
            return ch('a', 'b', 'c', 't.a', 'u.b')
        if k == 2:
            return lit()
        if k < 6:
            return '(%s %s %s)' % (ex(d - 1), ch('+', '-', '*', '/', '%', '||'), ex(d - 1))
        if k == 6:
            return 'IFNULL(%s, %s)' % (ex(d - 1), ex(d - 1))
        if k == 7:
            return '%s(%s)' % (ch('SUM', 'MAX', 'MIN', 'AVG', 'COUNT', 'ABS'), ex(d - 1))
        if k == 8:
            return 'CASE WHEN %s THEN %s%s END' % (cond(d - 1), ex(d - 1), ch('', ' ELSE ' + ex(d - 1)))
        if k == 9:
            return 'CAST(%s AS %s)' % (ex(d - 1), ch('DATE', 'CHAR(3)', 'DECIMAL(10, 2)'))
        if k == 10:
            return '(%s)' % query(d - 1, 1)
        return 'SUM(%s) OVER (%s)' % (ex(d - 1), ch('PARTITION BY ' + ex(d - 1), 'PARTITION BY a, b', 'ORDER BY c DESC', 'PARTITION BY a ORDER BY b', 'PARTITION BY a, c ORDER BY b, d DESC'))

    def cond(d):
        k = r.randrange(9) if d > 0 else 0
        if k < 3:
            return '%s %s %s' % (ex(d - 1), ch('=', '<>', '<', '>', '<=', '>=', 'LIKE', 'NOT LIKE', '<=>', 'RLIKE'), ex(d - 1))
        if k == 3:
            return '(%s %s %s)' % (cond(d - 1), ch('AND', 'OR'), cond(d - 1))
        if k == 4:
            return 'NOT (%s)' % cond(d - 1)
        if k == 5:
            return '%s %s' % (ch('a', 'b', 't.a'), ch('IS NULL', 'IS NOT NULL'))
        if k == 6:
            return '%s %sBETWEEN %s AND %s' % (ch('a', 'b'), ch('', 'NOT '), ex(d - 1), ex(d - 1))
        if k == 7:
            return '%s %sIN (%s)' % (ch('a', 'b'), ch('', 'NOT '), ch('1, 2', "'x', 'y'", 'a, 1', '0', query(d - 1, 1)))
        return '%s = (%s)' % (ch('a', 'b'), query(d - 1, 1))

    def table(d):
        if d > 0 and r.random() < .2:
            return '(%s) %s' % (query(d - 1, 2), ch('x', 'y'))
        return ch('t', 'u', 't x', 'u y', 'v')

    def simple(d, n):
        s = 'SELECT ' + ch('', '', '', 'DISTINCT ')
        s += ', '.join(ex(d) + ch('', '', ' n%d' % i) for i in range(n if n == 1 else r.randint(1, 3)))
        s += ' FROM ' + table(d)
        for _ in range(ch(0, 0, 0, 1, 2)):
            k = r.randrange(4)
            s += (' %s %s ON %s' % (ch('JOIN', 'LEFT JOIN', 'RIGHT JOIN', 'INNER JOIN'), table(d), cond(d)) if k < 2 else
                  ' JOIN %s USING (%s)' % (ch('u', 'v'), ch('a', 'a, b')) if k == 2 else ' CROSS JOIN ' + ch('u', 'v'))
        if r.random() < .5:
            s += ' WHERE ' + cond(d)
        if r.random() < .3:
            s += ' GROUP BY ' + ', '.join(ex(min(d, 1)) for _ in range(ch(1, 1, 2)))
            if r.random() < .5:
                s += ' HAVING ' + cond(d)
        return s

    def tail(d):
        s = ''
        if r.random() < .35:
            s += ' ORDER BY ' + ', '.join(ex(min(d, 1)) + ch('', ' ASC', ' DESC') for _ in range(ch(1, 1, 2)))
        if r.random() < .3:
            s += ch(' LIMIT 0', ' LIMIT 3', ' LIMIT 4 OFFSET 0', ' LIMIT 4 OFFSET 9')
        return s

    def query(d, n):
        s = simple(d, n)
        if r.random() < .15:
            op = ch('UNION', 'UNION ALL', 'UNION DISTINCT', 'INTERSECT', 'EXCEPT')
            for _ in range(ch(1, 1, 2)):
                s += ' %s %s' % (op, simple(d, n))
        return s + tail(d)
    k = r.randrange(10)
    if k == 0:
        return 'UPDATE t SET %s%s' % (', '.join('%s = %s' % (c, ex(2)) for c in r.sample(['a', 'b', 'c'], r.randint(1, 3))), ch('', ' WHERE ' + cond(2)))
    if k == 1:
        return 'DELETE FROM t' + ch('', ' WHERE ' + cond(2))
    if k == 2:
        cs = r.sample(['a', 'b', 'c'], r.randint(1, 3))
        q = ch(0, 0, 1)
        if q:
            return 'INSERT INTO t (%s) %s' % (', '.join(cs), query(1, 2))
        n = ch(1, 1, 2, 3)
        return 'INSERT INTO t (%s) VALUES %s' % (', '.join(cs), ', '.join('(%s)' % ', '.join(lit() if n > 1 else ex(1) for _ in cs) for _ in range(n)))
    return query(r.choice([0, 1, 1, 2]), 2)


def st_tokens(s):
    t = re.findall(r"'(?:[^']|'')*'|`[^`]*`|[A-Za-z_][\w.*]*|\d[\d.]*|[<>=!|]+|\S", s.upper())
    return [x for x in t if x not in ('(', ')', 'AS')]


def judge_stmt(s):
    try:
        j = parse_mysql(s)
    except Exception:
        return SKIP
    try:
        txt = sqlformat(copy.deepcopy(j), ansi_quotes=False)
    except Exception as ex:
        return '%s cannot be written: %r' % (s, ex)
    try:
        back = parse_mysql(txt)
    except Exception as ex:
        return '%s was written as %s, which this parser rejects: %s' % (s, txt, str(ex)[:100])
    if back != j:
        return '%s was written as %s, which is read as a different statement' % (s, txt)
    if not s.startswith('INSERT') and not re.search(r'<=> NULL|NULL <=>', s) and st_tokens(txt) != st_tokens(s):
        return '%s was written as %s' % (s, txt)
    return None


def gen_C17(o):
    for s in STMTS:
        yield {'sql': s}
    for a, b in PAIRS:
        yield {'sql': a, 'same': b}
    leafs = [['col', 'a'], ['col', 'b'], ['num', '2']]
    for x in BIN:
        for y in BIN:
            yield {'t': [x, [y, leafs[0], leafs[1]], leafs[2]]}
            yield {'t': [x, leafs[2], [y, leafs[0], leafs[1]]]}
    for x in BIN:
        for u in ('not', 'missing', 'exists'):
            yield {'t': [x, [u, leafs[0]], leafs[1]]}
            yield {'t': [x, leafs[0], [u, leafs[1]]]}
            yield {'t': [u, [x, leafs[0], leafs[1]]]}
        yield {'t': ['between', [x, leafs[0], leafs[1]], ['num', '1'], ['num', '5']]}
        yield {'t': ['between', leafs[0], [x, leafs[0], leafs[1]], ['num', '5']]}
        yield {'t': ['between', leafs[0], ['num', '5'], [x, leafs[0], leafs[1]]]}
        yield {'t': [x, ['between', leafs[0], ['num', '1'], ['num', '5']], leafs[1]]}
        yield {'t': [x, leafs[1], ['between', leafs[0], ['num', '1'], ['num', '5']]]}
        yield {'t': ['in', [x, leafs[0], leafs[1]], ['num', '1'], ['num', '5']]}
        yield {'t': [x, ['in', leafs[0], ['num', '1'], ['num', '5']], leafs[1]]}
        yield {'t': [x, leafs[1], ['in', leafs[0], ['num', '1'], ['num', '5']]]}
    if o.thorough:
        for x in BIN:
            for y in BIN:
                for z in BIN:
                    yield {'t': [x, [y, leafs[0], leafs[1]], [z, leafs[2], leafs[0]]]}
                    yield {'t': [x, leafs[0], [y, leafs[1], [z, leafs[2], leafs[0]]]]}
                    yield {'t': [x, [y, [z, leafs[2], leafs[0]], leafs[1]], leafs[0]]}
    for i in range(5000 if o.thorough else 500):
        yield {'t': tree(o, o.rng.choice([2, 3, 3, 4]))}
        if i % 3 == 0:
            yield {'sql': rand_stmt(o)}


rule_C17 = 'expression trees over the binary operators, NOT, IS NULL, BETWEEN and IN; whole statements in a canonical form'


def judge_C17(c):
    if 'same' in c:
        return judge_pair(c['sql'], c['same'])
    if 'sql' in c:
        return judge_stmt(c['sql'])
    t = MR.flat(c['t'])
    if t[0] in ('col', 'num', 'str'):
        return SKIP
    j = to_json_tree(c['t'])
    for pos in ('where', 'select'):
        js = {'select': '*', 'from': 't', 'where': j} if pos == 'where' else {'select': {'value': j}, 'from': 't'}
        txt = sqlformat(copy.deepcopy(js), ansi_quotes=False)
        try:
            st = MR.statement(txt)
        except MR.Bad as ex:
            return '%s became %s, which is not MySQL (%s)' % (to_sql(c['t']), txt, ex)
        got = st.get('where') if pos == 'where' else st['items'][0][0]
        if got != t:
            return '%s was written as %s, which MySQL reads as %s' % (to_sql(c['t']), txt, to_sql2(got))
    try:
        back = parse_mysql(txt)
    except Exception as ex:
        return '%s was written as %s, which this parser rejects: %s' % (to_sql(c['t']), txt, str(ex)[:100])
    got = MR.flat(of_json(back['select']['value']))
    if got != t and '-3' not in txt:      # this parser takes the sign of -3 * a after the product
        return '%s was written as %s, which this parser reads as %s' % (to_sql(c['t']), txt, to_sql2(got))
    return None


def of_json(j):
    if isinstance(j, str):
        return ['col'] + j.split('.')
    if isinstance(j, (int, float)):
        return ['num', str(Fr(j))]
    if isinstance(j, list):
        return [of_json(x) for x in j]
    if 'literal' in j:
        return ['str', j['literal']] if isinstance(j['literal'], str) else [of_json(x) for x in j['literal']]
    k, v = list(j.items())[0]
    if len(j) != 1:
        return ['?', j]
    if k in ('not', 'missing', 'exists', 'neg'):
        return [k, of_json(v)]
    if k in ('in', 'nin'):
        r = of_json(v[1])
        return [k, of_json(v[0])] + (r if isinstance(r[0], list) else [r])
    r = [of_json(x) for x in v]
    while k in ('sub', 'div', 'mod', 'and', 'or', 'add', 'mul') and len(r) > 2 and k in ('sub', 'div', 'mod'):
        r = [[k, r[0], r[1]]] + r[2:]
    return [k] + r


def to_sql2(t):
    try:
        return to_sql(t)
    except Exception:
        return repr(t)


# ------------------------------------------------------------------ C18
ID = ['a', 'order', 'select', 'group', 'a b', 'a-b', '1a', 'a`b', '`', '``x', 'key', 'Index', 'x"y', "it's", '中', 'é', 'a.b', '.', 'a..b', 'in', 'INTERVAL', 'null', 'true',
      '', ' ', 'semi;colon', 'a\\b', 'x\n', '$x', '_a', 'a1_', 'desc', 'Union', 'left', 'a*b', 'a--b', 'tab\t']


def gen_C18(o):
    _i, _f, strs = o.mined('sql_parsing/formatting.py', 'sql_parsing/utils.py')
    base = STRS + ['\r', '\r\n', '\\n', "\\\\'", "'\\", '\\0', 'a\tb', '\x1a', '\x08', '"', '""', '`', 'a\\%b', '\\_', '%s', '{0}', '{}', '\\x41', '\\u0041', "\n'", '\\\n'] + \
        [s for s in strs if '\0' not in s]
    for s in base:
        yield {'f': 'lit', 's': s}
        yield {'f': 'ins', 's': s}
        yield {'f': 'upd', 's': s}
    for n in ID:
        yield {'f': 'id', 'names': [n]}
        yield {'f': 'id', 'names': ['t', n]}
        yield {'f': 'id', 'names': [n, 'c']}
    for v in (0, 1, -1, 10 ** 30, -10 ** 30, 2.5, -0.125, 1e-9, 1e22):
        yield {'f': 'num', 'v': v}
    al = "a'\"\\%_\n\r`;- bcn0rtZ"
    for n in range(1, 3 if not o.thorough else 4):
        for t in itertools.product("a'\\\n\"n", repeat=n):
            yield {'f': 'lit', 's': ''.join(t)}
    for _ in range(3000 if o.thorough else 300):
        s = ''.join(o.rng.choice(al + '中') for _ in range(o.rng.randrange(0, 12)))
        yield {'f': o.rng.choice(['lit', 'lit', 'ins', 'upd']), 's': s}
    for _ in range(1000 if o.thorough else 120):
        yield {'f': 'id', 'names': [''.join(o.rng.choice('ab`". -\\1$é') for _ in range(o.rng.randrange(1, 6))) for _ in range(o.rng.choice([1, 1, 2]))]}


rule_C18 = 'string literals, numbers and identifiers (also inside INSERT and UPDATE)'


def judge_C18(c):
    meta = {'t1': {'anonymous': 'table_aa', 'columns': {'a': {'enc-cols': {}, 'plaintext': True, 'type': 'varchar', 'key': ''}, 'b': {'enc-cols': {}, 'plaintext': True, 'type': 'int', 'key': ''}}}}
    if c['f'] in ('lit', 'num'):
        v = c.get('s') if c['f'] == 'lit' else c['v']
        j = {'literal': v} if c['f'] == 'lit' else v
        for js, pick in (({'select': '*', 'from': 't', 'where': {'eq': ['a', j]}}, lambda s: s['where'][2]),
                         ({'select': [{'value': j}, {'value': 'b'}], 'from': 't'}, lambda s: s['items'][0][0]),
                         ({'insert': 't', 'values': [{'a': v if c['f'] == 'num' else v, 'b': 1}]}, lambda s: s['rows'][0][0]),
                         ({'select': '*', 'from': 't', 'where': {'in': ['a', {'literal': [v, 'zz']}]}}, lambda s: s['where'][2])):
            if c['f'] == 'num' and 'in' in js.get('where', {}):
                continue
            txt = sqlformat(copy.deepcopy(js), ansi_quotes=False)
            try:
                st = MR.statement(txt)
                got = pick(st)
            except (MR.Bad, KeyError, IndexError) as ex:
                return 'literal %r made the statement unreadable (%s): %s' % (v, ex, txt)
            if got != ast_of(v):
                return 'literal %r is read by MySQL as %s (%s)' % (v, short(got), txt)
            if st['k'] == 'select' and (len(st['items']) != (2 if isinstance(js['select'], list) else 1)):
                return 'literal %r changed the statement: %s' % (v, txt)
            if c['f'] == 'lit':
                back = parse_mysql(txt)
                bv = back.get('where', {}).get('eq', [None, None])[1] if 'eq' in back.get('where', {}) else None
                if bv is not None and bv != {'literal': v}:
                    return 'literal %r is read by this parser as %r (%s)' % (v, bv, txt)
        return None
    if c['f'] in ('ins', 'upd'):
        s = c['s']
        sql = 'insert into t1 (a, b) values (%s, 1)' % q(s) if c['f'] == 'ins' else 'update t1 set a = %s where b = 1' % q(s)
        st, r, ast, txt = read(meta, sql)
        if st == 'refused':
            return 'refused: %r for %r' % (r, sql)
        if st == 'bad':
            return 'literal %r made the statement unreadable (%s): %s' % (s, r, txt)
        if c['f'] == 'ins':
            if ast['cols'] != [['a'], ['b']] or ast['rows'] != [[['str', s], ['num', '1']]]:
                return 'literal %r: %s' % (s, txt)
        elif ast['set'] != [[['a'], ['str', s]]] or ast.get('where') != ['eq', ['col', 'b'], ['num', '1']]:
            return 'literal %r: %s' % (s, txt)
        return None
    names = c['names']
    if any(n == '' or n.endswith(' ') or '\0' in n or n != n.strip() or n.endswith('\n') or '\n' in n for n in names):
        return SKIP
    from dots import join_field, literal_field
    if any('\\' in n or n.startswith('.') or n.endswith('.') or '..' in n for n in names):
        return SKIP        # the path notation itself (C20)
    path = '.'.join(n.replace('.', '\\.') for n in names)
    if '*' in names:
        return SKIP
    txt = sqlformat({'select': {'value': path}, 'from': 't'}, ansi_quotes=False)
    try:
        st = MR.statement(txt)
    except MR.Bad as ex:
        return 'identifier %r made the statement unreadable (%s): %s' % (names, ex, txt)
    if st['items'] != [[['col'] + names, None]]:
        return 'identifier %r is read as %s (%s)' % (names, short(st['items']), txt)
    return None
