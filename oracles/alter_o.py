"""C23 (ALTER TABLE key and index statements) against the real code: an independent reader of the statement forms."""
import itertools
import re

from lib import SKIP

TOK = re.compile(r'(?:\s*)(?:(`)([^`]+)`|(\w+)|([(),;.])|(\S))', re.S)
FORMS = [
    'alter table T add primary key ( W )',
    'alter table T drop primary key',
    'alter table T add constraint ? foreign key ( W ) references W ( W )',
    'alter table T drop foreign key W',
    'alter table T add index ? ( W )',
    'alter table T add fulltext ? ( W )',
    'alter table T add unique ? ( W )',
    'alter table T drop index W',
]
WS = ' \t\n\r'
rule_C23 = ('ALTER TABLE statements of the eight forms with names that contain, start with or are the keywords, in any letter case, spacing and quoting, and near misses of '
            'them (words run together, missing, doubled or swapped, other operations, several columns); distinct = distinct statements')


def tokens(s):
    """[(kind, text)] with kind q (quoted name), w (word), p (sign); None if a character belongs to no statement of these forms"""
    out, i = [], 0
    while i < len(s):
        if s[i] in WS:
            i += 1
            continue
        m = re.compile(r'`(\w+)`|(\w+)|([(),;])').match(s, i)
        if not m:
            return None
        out.append(('q', m.group(1)) if m.group(1) else ('w', m.group(2)) if m.group(2) else ('p', m.group(3)))
        i = m.end()
    return out


def read(s, table_quoted_ok=True):
    """(form, names) of a statement, or None"""
    t = tokens(s)
    if t is None:
        return None
    if t and t[-1] == ('p', ';'):
        t = t[:-1]
    for k, f in enumerate(FORMS):
        n = match(f.split(), t)
        if n is not None:
            return k, n
    return None


def match(f, t):
    if not f:
        return [] if not t else None
    x = f[0]
    if x == '?':
        r = match(f[1:], t)
        if r is not None:
            return [''] + r
        x = 'W'
    if not t:
        return None
    k, w = t[0]
    if x == 'T':
        ok, n = k in 'qw', [(k, w)]
    elif x == 'W':
        ok, n = k == 'w', [w]
    elif x in '()':
        ok, n = (k, w) == ('p', x), []
    else:
        ok, n = k == 'w' and w.lower() == x, []
    if not ok:
        return None
    r = match(f[1:], t[1:])
    return None if r is None else n + r


NAMES = ['t', 'a', 'user_id', 'T1', 'x9', '_x', 'add_time', 'added', 'drop_', 'dropped', 'index_no', 'indexes', 'keyed', 'primary_key', 'table2', 'alter_x', 'foreign_id', 'unique_a', 'uniq',
         'constraint1', 'references_', 'fulltext_x', 'in_dex', 'k', 'KEY_', 'fk_Test', 'c1', 'Straße', '中文', 'e5', 'o', 'xadd', 'tadd', 'mydrop', 'a' * 64, 'test_local_fk_test', 'None', 'true_', 'Primary1']
QUOTED = ['order', 'select', 'key', '123', '1a', 'group', 'index', 'add', 'drop', 'table', 'primary', 'from', 'where', '1e5']
OTHER = ['select a from t', 'alter table t add key k (c)', 'alter table t add column c int', 'alter table t drop column c', 'alter table t drop indexed', 'alter table t drop index_no',
         'alter table t add index i (a, b)', 'alter table t add primary key (a, b)', 'alter table t add primary key (a(10))', 'alter table t drop primary key, drop index i',
         'alter table t add index i (a) comment x', 'alter table db.t drop index i', 'alter table t add index i using btree (a)', 'alter table t rename index a to b',
         'alter table t drop key i', 'alter table t drop constraint c', 'alter table t add foreign key (a) references b (c)', 'alter table t add constraint c primary key (a)',
         'alter table t add constraint c unique (a)', 'alter table t add unique index u (a)', 'alter table t add unique key u (a)', 'alter table t drop foreign key', 'alter table t drop index',
         'alter table t add index', 'alter table t add index i', 'alter table t add index i ()', 'alter table t add primary key', 'alter table t add primary key ()', 'alter table t add primary (a)',
         'alter table t add constraint c foreign key (a) references b', 'alter table t add constraint c foreign key (a) references b ()', 'alter table t add constraint c foreign key () references b (c)',
         'alter table t add constraint c foreign key (a) references b (c) on delete cascade', 'alter table t add constraint c foreign key (a) references b (c) on update set null',
         'alter table t add constraint c foreign key a (a) references b (c)', 'alter table t add constraint c foreign key (a, d) references b (c, e)', 'alter table t add index i (a desc)',
         'alter table t add index i (a) ; drop table t', 'alter table t drop primary key; select 1', 'alter table t alter index i invisible', 'alter table t add spatial index i (a)',
         'alter table t add spatial i (a)', 'alter ignore table t drop primary key', 'alter view t drop primary key', 'create table t (a int)', 'create index i on t (a)', 'drop index i on t',
         'x alter table t drop primary key', 'alter table t drop primary key x', 'alter table t drop primary key;;', 'alter table t drop primary', 'alter table t drop key', 'alter table drop primary key',
         'alter table `` drop primary key', 'alter table `t drop primary key', 'alter table t` drop primary key', 'alter table "t" drop primary key', "alter table 't' drop primary key", 'alter table (t) drop primary key',
         'alter table add index i (c)', 'altertable t drop primary key', 'alter tablet drop primary key', 'alter table t dropprimary key', 'alter table t drop primarykey', 'alter table tdrop primary key',
         'alter table t addprimary key (a)', 'alter table t add primarykey (a)', 'alter table t addindex i (a)', 'alter table t add indexi (a)', 'alter table t add uniquei (a)', 'alter table t add fulltexti (a)',
         'alter table t dropindex i', 'alter table t drop foreignkey i', 'alter table t drop foreign keyi', 'alter table t dropforeign key i', 'alter table t add constraintc foreign key (a) references b (c)',
         'alter table t add constraint cforeign key (a) references b (c)', 'alter table t add constraint c foreignkey (a) references b (c)', 'alter table t add constraint c foreign key (a) referencesb (c)',
         'alter table t addconstraint c foreign key (a) references b (c)', 'alter table tadd index i (a)', 'alter table t add index i (a b)', 'alter table t add index i j (a)', 'alter table t add index i (a))',
         'alter table t add index i ((a))', 'alter table t add index i (a', 'alter table t add index i a)', 'alter table t add index `i (a)', 'alter table t x add index i (a)', 'alter table t add index i(a,)',
         'alter table t add index i(,a)', 'alter table t add unique i (a) invisible', 'alter table t drop index i algorithm=inplace', 'alter table t drop index i, lock=none', '', ' ', ';', 'alter', 'alter table t']


def spell(o, form, names, style, quoted):
    r = o.rng
    out = []
    names = list(names)
    prev = ''
    for x in form.split():
        if x == 'T':
            w = names.pop(0)
            w = '`%s`' % w if quoted else w
        elif x in ('W', '?'):
            w = names.pop(0)
            if w == '':
                continue
        elif x in '()':
            w = x
        else:
            w = {'l': x, 'u': x.upper(), 'c': x.capitalize()}.get(style[0]) or ''.join(r.choice([c, c.upper()]) for c in x)
        need = prev and re.match(r'\w', w) and re.search(r'\w$', prev)
        if style[1] == 'm':
            sp = ' ' if need else ''
        elif style[1] == 's':
            sp = ' ' if prev else ''
        else:
            sp = ''.join(r.choice(WS) for _ in range(r.choice([1, 1, 2, 3]))) if need or r.random() < .6 else ''
        out.append(sp + w)
        prev = w
    s = ''.join(out)
    if style[1] == 'r' and r.random() < .3:
        s += r.choice(WS)
    if r.random() < .6:
        s += ';'
    return s


def gen_C23(o):
    for s in o.hints.get('strs', []):
        yield {'s': s}
    for s in OTHER:
        yield {'s': s}
        yield {'s': s + ';'}
        yield {'s': s.upper()}
    for f in FORMS:
        nw = len([x for x in f.split() if x in 'TW?'])
        for st in itertools.product('luc', 'ms'):
            yield {'s': spell(o, f, ['n%d' % i for i in range(nw)], st, False)}
            yield {'s': spell(o, f, ['n%d' % i for i in range(nw)], st, True)}
        if '?' in f:
            names = ['' if x == '?' else 'n' + x for x in f.split() if x in 'TW?']
            yield {'s': spell(o, f, names, 'ls', False)}
            yield {'s': spell(o, f, names, 'um', True)}
        for w in NAMES:
            for q in (False, True):
                yield {'s': spell(o, f, [w] * nw, 'xr', q)}
                for i in range(nw):
                    yield {'s': spell(o, f, [w if i == j else 'n%d' % j for j in range(nw)], 'xr', q)}
        for w in QUOTED:
            yield {'s': spell(o, f, [w] + ['n'] * (nw - 1), 'ls', True)}
    _, _, strs = o.mined('sql_parsing/__init__.py')
    words = sorted({w for s in strs for w in re.findall(r'\w+', s)})[:200]
    for i in range(60000 if o.thorough else 12000):
        f = o.rng.choice(FORMS)
        nw = len([x for x in f.split() if x in 'TW?'])
        s = spell(o, f, [o.rng.choice(NAMES + words[:40]) for _ in range(nw)], o.rng.choice(['xr', 'lr', 'ur', 'cm']), o.rng.random() < .3)
        if o.rng.random() < .55:
            p = re.findall(r'\w+|\s+|.', s)
            for _ in range(o.rng.choice([1, 1, 2])):
                k = o.rng.randrange(len(p)) if p else 0
                r = o.rng.random()
                if r < .35 and p:
                    del p[k]
                elif r < .5 and len(p) > 1:
                    j = o.rng.randrange(len(p))
                    p[k], p[j] = p[j], p[k]
                elif r < .75:
                    p.insert(k, o.rng.choice(['x', ' y ', ',', '(', ')', '`', ';', '.', 'add', ' drop ', ' index ', 'key', ' key ', ' column ', '"', "'", ' ', '\x0b', '\xa0', '--', ' , b']))
                elif p:
                    p[k] = p[k] + o.rng.choice(['x', '_', '1', 'key', '(1)', ' x', ' '])
            s = ''.join(p)
        yield {'s': s}


def must(s, form, t):
    """the spellings that are to be recognised: nothing after the semicolon"""
    return not re.search(r';[ \t\n\r]+$', s)


def judge_C23(case):
    import sql_parsing
    from sql_parsing.formatting import should_quote
    s = case['s']
    want = read(s)
    got = sql_parsing.parse_alter_key(s)
    if want is None:
        if got:
            return '%r is none of the key/index statements, recognised as %r' % (s, got)
        return None
    if not got:
        return 'the key/index statement %r is not recognised' % (s,) if must(s, want, None) else None
    text = sql_parsing.format_alter_key(got)
    if not isinstance(text, str):
        return '%r is written back as %r' % (s, text)
    back = read(text)
    if back is None or back[0] != want[0] or [x if isinstance(x, str) else x[1] for x in back[1]] != [x if isinstance(x, str) else x[1] for x in want[1]]:
        return '%r is written back as %r (read as %r)' % (s, text, got)
    if want[1][0][0] == 'q' and back[1][0][0] == 'w' and should_quote(want[1][0][1]):
        return 'the quoted table of %r is written bare: %r' % (s, text)
    return None
