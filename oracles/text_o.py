"""C19 (tokenizer, splitter, grouping) and C20 (dotted paths) against the real code."""
import io
import itertools
import logging
import sys

import lib
from lib import SKIP

logging.disable(logging.CRITICAL)

FRAG = ['select', 'SELECT', 'from', 'where', 'a', 'b.c', 't1', '*', ',', ' ', '  ', '\n', '\r\n', '\r', '\t', ';', '(', ')', '[', ']', '[1]', 'and', 'or', 'not null', 'in', 'IN (1,2)',
        "'", '"', '`', '´', "'x'", '"x"', '`x`', "'it''s'", "'a\\'b'", "'\\\\'", '\\', '--', '-- c\n', '# c\n', '/*', '*/', '/* c */', '/*+ h */', '--+ h\n', '$$', '$a$', '$1', ':x', '?', '%s', '%(a)s', '%',
        '1', '-1', '1.5', '.5', '1.', '1e5', '-0xFF', '0x', 'é', '中文', '\x00', '\u2028', '😀', '@a', '##t', '#t', ':=', '::', '<', '>=', '<>', '!=', '=', '||', '+', '-', '/', '&', '^', '|', '~', '!',
        'as', 'AS x', 'case when a then b end', 'CASE', 'END', 'END IF', 'IF', 'FOR', 'WHILE', 'LOOP', 'BEGIN', 'DECLARE', 'create table', 'CREATE OR REPLACE', 'create', 'table', 'values', 'VALUES (1)', 'insert into',
        'update', 'set', 'delete', 'join', 'left outer join', 'natural join', 'union all', 'order by', 'group by', 'asc', 'desc', 'limit', 'null', 'like', 'not like', 'between', 'interval', "date '2020-01-01'",
        "INTERVAL '1' DAY", 'at time zone', "AT TIME ZONE 'x'", 'double precision', 'f(x)', 'max(a)', 'count(*)', 'x.y.z', 'a .b', 'a. b', '.', 'CURRENT_DATE', 'USING', 'handler for', 'NULLS FIRST', 'lateral view explode', '\\d', 'À', '_x', '$', '{', '}',
        'DO', 'then', 'else', 'having', 'on', 'distinct', 'into', 'Ünï', '\x0b', '\xa0', '\ufeff', 'ſ', 'İ', "e'x'", "x'1F'", 'GO', 'role', 'elsif', 'FOREACH', 'end case']

SQLS = ["select a, b from t where x = 1; select 2;", "create or replace procedure p() begin declare x int; if a then b; end if; end; select 1",
        "CREATE FUNCTION f() DECLARE a; BEGIN WHILE x DO y; END WHILE; END; drop table t;", "select case when a=1 then 'x;y' else \"q;\" end as z from (select * from u) w; -- done\n",
        "insert into t (a, b) values (1, 'x'), (2, 'y;')  ;  \n\n", "select 1;;;select 2", "  ; ", "a;b;c", "select foo.bar[1].baz as q, x::int, y := 3; -- c1\n -- c2\nselect 2",
        "begin; select 1; end; select 2", "select * from a where b in (select c from d where e = 'f') group by g having h > 1 order by i desc, j asc limit 5;",
        "update t set a = a + 1, b = (c * d) where e is not null and f like '%x%';", "case case end end; end end;", "create table t (a int primary key, b varchar(20) default 'x;') ; drop table t",
        "select /* ; */ 1; select '; ' ; # x ; y\nselect 3", "for x in y loop z; end loop; select 1", "select a as b c d, e f from g h where i = j /* c */ -- d\n and k",
        "select 'a' 'b' \"c\" `d` ´e´ $$f;$$ $t$ g; $t$ ;h", "if a then b; else c; end if; d"]

rule_C19 = ('SQL-like texts: whole statements, their prefixes and mutations, random concatenations of tokens and fragments (quotes, comments, control and non-ASCII '
            'characters), all pairs of fragments, as str/bytes/stream; distinct = distinct texts')


def gen_C19(o):
    for s in SQLS:
        yield {'t': s}
        for i in range(len(s)):
            yield {'t': s[:i]}
            if o.thorough or i % 3 == 0:
                yield {'t': s[i:]}
                yield {'t': s[:i] + s[i + 1:]}
        yield {'t': s, 'as': 'bytes'}
        yield {'t': s, 'as': 'io'}
    for f in FRAG:
        yield {'t': f}
        yield {'t': f * 3}
        yield {'t': f, 'as': 'bytes'}
        for n in (40, 120):
            yield {'t': "'" + f * n}
            yield {'t': '"' + f * n}
            yield {'t': f * n}
    for a, b in itertools.product(FRAG, FRAG):
        if o.thorough or o.rng.random() < .25:
            yield {'t': a + b}
            yield {'t': a + ' ' + b + ';'}
    ints, _, strs = o.mined(*['scheduler/compile/parse/' + f for f in ('keywords.py', 'sql.py', 'engine/grouping.py', 'engine/statement_splitter.py', 'lexer.py', 'utils.py')])
    for k in sorted(x for x in ints if 2 < x < 70000)[:12] + [130, 1030]:
        for n in (k - 1, k, k + 1, k + 2):          # tokens as long as the numbers in the source
            for t in ("'%s'" % ('x' * (n - 2)), 'a' * n, '1' * n, ' ' * n, '/*%s*/' % ('c' * (n - 4)), '-- ' + 'c' * (n - 3), '`%s`' % ('q' * (n - 2)), '"%s"' % ('q' * (n - 2)), ';' * n, '(' * min(n, 150)):
                yield {'t': t}
                yield {'t': 'select ' + t + ' ; x'}
    words = [s for s in strs if 0 < len(s) < 25]
    for w in words:
        if o.thorough or o.rng.random() < .2:
            yield {'t': w}
            yield {'t': 'select %s x; %s(1) %s' % (w, w, w.lower())}
    for i in range(40000 if o.thorough else 3000):
        n = o.rng.choice([2, 3, 5, 9, 16, 30])
        sep = o.rng.choice(['', '', ' ', ' ', '\n'])
        ps = [o.rng.choice(FRAG if o.rng.random() < .8 or not words else words) for _ in range(n)]
        t = sep.join(ps)
        c = {'t': t}
        if o.rng.random() < .05:
            c['as'] = o.rng.choice(['bytes', 'io'])
        yield c
    for i in range(10000 if o.thorough else 800):
        s = list(o.rng.choice(SQLS))
        for _ in range(o.rng.choice([1, 2, 4, 8])):
            k = o.rng.randrange(len(s) + 1)
            r = o.rng.random()
            if r < .4 and k < len(s):
                del s[k]
            elif r < .8:
                s.insert(k, o.rng.choice(FRAG))
            else:
                j = o.rng.randrange(len(s) + 1)
                s[k:k] = s[j:j + 12]
        yield {'t': ''.join(s)}


def judge_C19(case):
    from scheduler.compile.parse import lexer, engine
    from scheduler.compile import parse as P
    from scheduler.compile.parse.engine.statement_splitter import StatementSplitter
    t = case['t']
    src = t
    kw = {}
    if case.get('as') == 'bytes':
        src = t.encode('utf-8')
    elif case.get('as') == 'io':
        src = io.StringIO(t, newline='')
    toks = list(lexer.tokenize(src))
    got = ''.join(v for _, v in toks)
    if got != t:
        return 'tokens of %r spell %r' % (t, got)
    if any(v == '' for _, v in toks):
        return 'an empty token in %r' % t
    st = list(StatementSplitter().process(iter(toks)))
    flat = [(x.ttype, x.value) for s in st for x in s.flatten()]
    rest = toks[len(flat):]
    if flat != toks[:len(flat)]:
        return 'splitting %r gives tokens %r, expected %r' % (t, flat[:40], toks[:40])
    from scheduler.compile.parse import tokens as T
    if any(k not in T.Whitespace for k, _ in rest):
        return 'splitting %r lost the tokens %r' % (t, rest[:20])
    if rest and ''.join(v for _, v in rest).strip():
        return 'splitting %r lost %r' % (t, rest[:20])
    for s in st:
        for x in s.tokens:
            if x.parent is not s:
                return 'token %r of %r has another parent' % (x.value, t)
    src = t if case.get('as') != 'bytes' else t.encode('utf-8')
    sts = P.parse(src)
    if len(sts) != len(st):
        return 'parse gives %d statements, split %d' % (len(sts), len(st))
    for a, b in zip(sts, st):
        ta = [x.value for x in a.flatten()]
        tb = [x.value for x in b.flatten()]
        if ta != tb:
            return 'grouping changed %r: %r became %r' % (t, tb[:40], ta[:40])
        if str(a) != ''.join(tb):
            return 'text of the grouped statement is %r, was %r' % (str(a), ''.join(tb))
        r = tree(a, ''.join(tb))
        if r:
            return r
    sp = P.split(t)
    if len(sp) != len(st) or any(x != ''.join(y.value for y in s.flatten()).strip() for x, s in zip(sp, st)):
        return 'split of %r gives %r' % (t, sp)
    return None


def tree(node, text):
    """every group's parent links point to the group that contains it"""
    todo = [node]
    while todo:
        n = todo.pop()
        for x in n.tokens:
            if x.parent is not n:
                return 'in %r the parent of %r is not the group that contains it' % (text, x.value)
            if x.is_group:
                todo.append(x)
    return None


# =============================================================================================== C20
rule_C20 = 'lists of 0-6 names over letters, dots, backslashes and other characters (exhaustive small ones, random longer ones), and paths built from them; distinct = distinct cases'
ALPH = ['a', 'b', '.', '\\']


def names20(o):
    r = o.rng.random()
    if r < .5:
        return ''.join(o.rng.choice(ALPH) for _ in range(o.rng.choice([1, 1, 2, 3, 5])))
    return o.rng.choice(['x', 'name', 'a.b', 'a..b', '.a', 'a.', '..', '.', 'é', '$', 'a b', '\\', '\\\\', '\\.', 'a\\', '-1', '0', 'a.b.c', 'x\\y', '\n', 'ab', 'abc', 'a\\.b', ' '])


def gen_C20(o):
    small = [''.join(p) for n in (1, 2) for p in itertools.product(ALPH, repeat=n)] + ['a.b', '.a.', '\\.a', 'a\\.']
    for n in small:
        yield {'k': 'rt', 'l': [n]}
    for a, b in itertools.product(small, small):
        yield {'k': 'rt', 'l': [a, b]}
        if o.thorough or o.rng.random() < .5:
            yield {'k': 'pair', 'l': [a], 'm': [b]}
            yield {'k': 'pair', 'l': [a, b], 'm': [a]}
            yield {'k': 'pair', 'l': [a, b], 'm': [b, a]}
    for a, b, c in itertools.product(small[:14], small[:14], small[:14]):
        if o.thorough or o.rng.random() < .3:
            yield {'k': 'rt', 'l': [a, b, c]}
    for i in range(20000 if o.thorough else 3000):
        l = [names20(o) for _ in range(o.rng.choice([0, 1, 1, 2, 3, 4, 6]))]
        m = [names20(o) for _ in range(o.rng.choice([0, 1, 2, 3]))]
        r = o.rng.random()
        if r < .3:
            yield {'k': 'rt', 'l': l}
        elif r < .6:
            yield {'k': 'pair', 'l': l, 'm': m}
        elif r < .8:
            yield {'k': 'pair', 'l': l + m, 'm': l}
        else:
            yield {'k': 'up', 'l': l, 'm': m, 'n': o.rng.choice([0, 1, 2, 3, 5])}


def judge_C20(case):
    import dots as D
    l = case['l']
    p = D.join_field(list(l))
    if D.split_field(p) != list(l):
        return 'split_field(join_field(%r)) is %r (path %r)' % (l, D.split_field(p), p)
    if D.join_field(x for x in list(l)) != p or D.join_field(tuple(l)) != p:
        return 'join_field depends on the kind of sequence for %r' % l
    for n in l:
        if D.split_field(D.literal_field(n)) != [n]:
            return 'split_field(literal_field(%r)) is %r' % (n, D.split_field(D.literal_field(n)))
        if D.unliteral_field(D.literal_field(n)) != n:
            return 'unliteral_field(literal_field(%r)) is %r' % (n, D.unliteral_field(D.literal_field(n)))
    if not any(n.endswith('\\') for n in l):
        q = '.'.join(D.literal_field(n) for n in l) or '.'
        if D.split_field(q) != list(l):
            return 'split_field(%r) is %r, names were %r' % (q, D.split_field(q), l)
        if q != p:
            return 'join_field(%r) is %r, escaping each name gives %r' % (l, p, q)
    ht = D.tail_field(p)
    if tuple(ht) != ((l[0], D.join_field(l[1:])) if l else ('.', '.')):
        return 'tail_field(%r) is %r' % (p, ht)
    if case['k'] == 'rt':
        return None
    m = case['m']
    q = D.join_field(list(m))
    if case['k'] == 'pair':
        c = D.concat_field(p, q)
        if D.split_field(c) != l + m:
            return 'concat_field(%r, %r) is %r, which splits to %r' % (p, q, c, D.split_field(c))
        s = D.startswith_field(p, q)
        if bool(s) != (l[:len(m)] == m):
            return 'startswith_field(%r, %r) is %r' % (p, q, s)
        r = D.relative_field(p, q)
        k = 0
        while k < min(len(l), len(m)) and l[k] == m[k]:
            k += 1
        want = [-1] * (len(m) - k) + l[k:]
        if D.split_field(r) != want:
            return 'relative_field(%r, %r) is %r, which splits to %r' % (p, q, r, D.split_field(r))
        if D.split_field(D.concat_field(q, r)) != l:
            return 'concat_field(%r, relative_field(%r, %r)=%r) is %r' % (q, p, q, r, D.concat_field(q, r))
        return None
    n = case['n']
    if n:
        up = '.' * (n + 1) + (q if m else '')
        if D.split_field(up) != [-1] * n + m:
            return 'split_field(%r) is %r' % (up, D.split_field(up))
        if D.join_field([-1] * n + m) != up:
            return 'join_field(%r) is %r' % ([-1] * n + m, D.join_field([-1] * n + m))
        c = D.concat_field(p, up)
        if len(l) >= n:
            if D.split_field(c) != l[:len(l) - n] + m:
                return 'concat_field(%r, %r) is %r' % (p, up, c)
        elif D.split_field(c) != [-1] * (n - len(l)) + m:
            return 'concat_field(%r, %r) is %r' % (p, up, c)
    return None
