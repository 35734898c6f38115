"""Contracts of the ALTER TABLE key and index statements (C23): sql_parsing.parse_alter_key and format_alter_key.

The statement forms are regular languages with named parts, written here once.  parse_alter_key is executed symbolically on an arbitrary statement
of each form (any letter case, spacing, names, quoting of the table), and on an arbitrary text that is none of them; what a regular expression of
the code matches and captures there is decided by pyded.relang on the product of the automata, for texts of any length.  The written text is then
read token by token: it has to be the same statement."""
import re
import z3

from pyded import relang as RL
from pyded.engine import Unsupported, zstr
from pyded.values import *
from pyded.values import Opaque, Builtin, Sym, FuncVal

SM = 'sql_parsing'
FM = 'sql_parsing.formatting'
WS = r'[ \t\n\r]'
# T: the table, bare or in back quotes; other capitals: bare names
FORMS = {
    'add primary key': 'alter table T add primary key ( C )',
    'drop primary key': 'alter table T drop primary key',
    'add foreign key': 'alter table T add constraint N foreign key ( C ) references U ( D )',
    'add foreign key, no constraint name': 'alter table T add constraint foreign key ( C ) references U ( D )',
    'drop foreign key': 'alter table T drop foreign key N',
    'add index': 'alter table T add index N ( C )',
    'add index, no name': 'alter table T add index ( C )',
    'add fulltext': 'alter table T add fulltext N ( C )',
    'add fulltext, no name': 'alter table T add fulltext ( C )',
    'add unique': 'alter table T add unique N ( C )',
    'add unique, no name': 'alter table T add unique ( C )',
    'drop index': 'alter table T drop index N',
}
IDENT = z3.Function('identifier', S, S)


def pattern(form, quoted, loose):
    """the texts of a form; loose: white space after the semicolon too"""
    out, wordy = WS + '*', None
    for x in form.split():
        word = x not in '()' and not (x == 'T' and quoted)
        if x == 'T' and quoted:
            r = r'`(?P<T>\w+)`'
        elif x in '()':
            r = '\\' + x
        elif x.isupper():
            r = r'(?P<%s>\w+)' % x
        else:
            r = ''.join('[%s%s]' % (c, c.upper()) for c in x)
        if wordy is not None:
            out += WS + ('+' if wordy and word else '*')
        out, wordy = out + r, word
    return out + WS + '*;?' + (WS + '*' if loose else '') + r'\Z'


def lang(e):
    return e.st.ghost['lang']


def value(f):
    return Sym('str', z3.Const('name ' + f, S))


def hard(f):
    try:
        return f()
    except RL.TooHard as x:
        raise Unsupported('regular expression: %s' % x)


def the_group(e, a, g, n):
    """what group n captured: a part of the statement, the same for every text that comes this way and every way to match"""
    if n == 0:
        raise Unsupported('the whole match')
    if isinstance(n, str):
        if n not in a.names:
            e.raise_(IndexError, 'no such group')
        n = a.names[n]
    if not isinstance(n, int) or not 1 <= n <= a.ngroups:
        e.raise_(IndexError, 'no such group')
    L = lang(e)
    if not L.base.names:
        return e.fresh_sym('str')
    for f, k in L.base.names.items():
        if hard(lambda: L.witness(a, n, k)) is None:
            return value(f)
    if hard(lambda: L.witness(a, n, -1)) is None:      # captures no character
        if not a.optional[n]:
            return ''
        if not a.empty[n]:
            return None
    if not a.optional[n]:
        # some other part of the text, of which nothing is known; not to be written, and nothing may depend on it
        return Sym('str', z3.Const('capture %d' % n, S))
    raise Unsupported('group %d is no part of the statement, for example in %r' % (n, L.witness(a, n, -1)))


def match_obj(e, a):
    def group(e, args, k):
        args = [e.resolve(x) for x in args] or [0]
        r = [the_group(e, a, None, n) for n in args]
        return r[0] if len(r) == 1 else tuple(r)

    def groups(e, args, k):
        if args or k:
            raise Unsupported('default of groups')
        return tuple(the_group(e, a, None, n) for n in range(1, a.ngroups + 1))

    def groupdict(e, args, k):
        return e.alloc(DObj(None, None, [(x, the_group(e, a, None, n)) for x, n in a.names.items()]))
    return Opaque('match', {'group': Builtin('group', group), 'groups': Builtin('groups', groups), 'groupdict': Builtin('groupdict', groupdict),
                            '__getitem__': lambda e, k: group(e, [k], {}), 'lastindex': None})


def statement():
    from pyded.values import ExtClass
    return Opaque('statement', {'isinstance': lambda e, c: isinstance(c, ExtClass) and issubclass(str, c.py)})


def flag(e, v):
    v = e.resolve(v)
    if isinstance(v, Opaque) and 'flag' in v.attrs:
        return v.attrs['flag']
    if isinstance(v, int):
        return v
    raise Unsupported('flags of a pattern')


def do_match(e, pat, fl, args, full):
    t = e.resolve(args[0])
    if not (isinstance(t, Opaque) and t.name == 'statement') or len(args) > 1:
        raise Unsupported('matching another text')
    a = hard(lambda: RL.Auto(pat, fl, full))
    L = lang(e)
    yes, no = L.also(a, True), L.also(a, False)
    y, n = hard(yes.witness) is not None, hard(no.witness) is not None
    r = y
    if y and n:
        r = e.choose([True, True]) == 0
    e.setghost('lang', yes if r else no)
    return match_obj(e, a) if r else None


def m_compile(e, a, k):
    pat = e.resolve(a[0])
    if isinstance(pat, Opaque) and 'pattern' in pat.attrs:
        return pat
    if not isinstance(pat, str):
        raise Unsupported('pattern')
    fl = flag(e, a[1]) if len(a) > 1 else flag(e, k['flags']) if 'flags' in k else 0
    return Opaque('pattern', {'match': Builtin('match', lambda e, a, k: do_match(e, pat, fl, a, False)),
                              'fullmatch': Builtin('fullmatch', lambda e, a, k: do_match(e, pat, fl, a, True)), 'pattern': pat})


def direct(full):
    def f(e, a, k):
        p = m_compile(e, [a[0]] + list(a[2:]), k)
        return e.call(p.attrs['fullmatch' if full else 'match'], [a[1]], {})
    return f


def k_escape(e, f, a, k):
    v = e.resolve(a[0])
    ansi = e.resolve(a[1])
    sq = e.resolve(a[2])
    if not isinstance(sq, FuncVal) or sq.qual != 'should_quote' or ansi not in (True, False):
        raise Unsupported('how names are quoted')
    if ansi:
        raise Unsupported('ANSI quotes')
    return Sym('str', IDENT(e.str_term(v)))


def split_hook(e, t, sep):
    # names hold word characters only
    if isinstance(sep, str) and not any(c == '_' or c.isalnum() for c in sep) and z3.is_const(t) and t.decl().name().startswith('name '):
        return e.alloc(LObj([Elem(Sym('str', t))]))
    return None


def flags_value(n):
    return lambda e: int(n)


def engine(ctx):
    import re as _re
    vals = {}
    for names, f in ((('re.I', 're.IGNORECASE'), _re.I), (('re.S', 're.DOTALL'), _re.S), (('re.X', 're.VERBOSE'), _re.X), (('re.U', 're.UNICODE'), _re.U),
                     (('re.A', 're.ASCII'), _re.A), (('re.M', 're.MULTILINE'), _re.M)):
        for n in names:
            vals[n] = flags_value(f)
    e = ctx.engine({FM + ':escape': k_escape}, {'re.compile': m_compile, 're.match': direct(False), 're.fullmatch': direct(True)},
                   {'split_hook': split_hook}, vals)
    ctx.assume('re matches a text exactly when its pattern describes it; under IGNORECASE letters outside ASCII are as they are')
    ctx.assume('formatting.escape writes a name so that MySQL reads that name (C18)')
    return e


def pieces(t):
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for c in t.children() for x in pieces(c)]
    return [t]


def written(e, v):
    """tokens of the text written: lower-case words and signs, 'name X' for a bare name, 'ident X' for an escaped one; None if not a text"""
    v = e.resolve(v)
    if e.kind(v) != 'str':
        return None
    s, names = '', []
    for p in pieces(e.str_term(v)):
        if z3.is_string_value(p):
            s += zstr(p)
            continue
        if p.decl().name().startswith('name '):
            names.append(('name', p.decl().name()[5:]))
        elif p.decl().name() == 'identifier' and z3.is_const(p.arg(0)) and p.arg(0).decl().name().startswith('name '):
            names.append(('ident', p.arg(0).decl().name()[5:]))
        else:
            raise Unsupported('a text written: %s' % p)
        s += chr(0xe000 + len(names) - 1)
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        m = re.compile(r'`([\ue000-\uf8ff])`|[A-Za-z0-9_\ue000-\uf8ff]+').match(s, i)
        if m is None:
            if c not in ' \t\n\r':
                out.append(c)
            i += 1
            continue
        x = m.group(1) or m.group(0)
        i = m.end()
        if len(x) == 1 and x >= '\ue000':
            k, n = names[ord(x) - 0xe000]
            if m.group(1):
                k = 'quoted' if k == 'name' else 'quoted twice'
            out.append('%s %s' % (k, n))
        elif any('\ue000' <= y <= '\uf8ff' for y in x):
            out.append('run together: ' + re.sub('[\ue000-\uf8ff]', '<name>', x))
        else:
            out.append(x.lower())
    return out


BACK = 'automata (pyded.relang)'


def ok(e, name):
    e.ok(name)
    e.obligations[-1].backend = BACK


def bad(e, name, why, w):
    if any('capture ' in str(c) for c in list(e.st.facts) + list(e.st.dec)):
        raise Unsupported('depends on a part of the text that is not known')
    e.fail(name, why)
    o = e.obligations[-1]
    o.backend = BACK
    o.model = {'statement': '"%s"' % ''.join(c if 32 <= ord(c) < 127 and c != '"' else '\\u{%x}' % ord(c) for c in w)}


def form_task(name, quoted):
    form = FORMS[name]

    def task(ctx):
        e = engine(ctx)
        f = ctx.func(e, SM, 'parse_alter_key')
        g = ctx.func(e, SM, 'format_alter_key')
        base = RL.Auto(pattern(form, quoted, True))
        must = RL.Auto(pattern(form, quoted, False))

        def run():
            e.setghost('lang', RL.Lang(base))
            for x in base.names:
                e.assume(z3.Length(value(x).t) > 0)
            r = e.outcomes(lambda: e.call(f, [statement()], {}))
            if r[0] != 'ok':
                return None, r
            if not e.truth(r[1]):
                return 'no', r
            return 'yes', e.outcomes(lambda: e.call(g, [r[1]], {}))

        def onp(c, r):
            w = hard(lambda: lang(e).witness())
            nm = 'a statement of the form is recognised'
            if r[0] != 'ok':
                return bad(e, 'a statement of the form is read and written back', 'for %r: raises %r' % (w, e.obj(r[1]).cls), w)
            if c == 'no':
                w = hard(lambda: lang(e).also(must, True).witness())
                return ok(e, nm) if w is None else bad(e, nm, 'not recognised: %r' % w, w)
            ok(e, nm)
            ctx.cover('recognised')
            nm = 'the statement written back is the one read'
            got = written(e, r[1])
            if got is None:
                return bad(e, nm, 'for %r: no text is written' % w, w)
            if got and got[-1] == ';':
                got = got[:-1]
            want = ['name ' + x if x.isupper() else x for x in form.split()]
            if [re.sub('^(quoted|ident) ', 'name ', x) for x in got] != want:
                return bad(e, nm, 'for %r: %s' % (w, ' '.join(got)), w)
            ok(e, nm)
            if quoted:
                nm = 'a table that has to be quoted is quoted'
                if got[want.index('name T')] == 'name T':
                    return bad(e, nm, 'for %r: %s' % (w, ' '.join(got)), w.replace(re.search(r'`(\w+)`', w).group(0), '`order`'))
                ok(e, nm)
        ctx.explore(e, SM + ':parse_alter_key, format_alter_key', run, onp)
    return task


def t_other(ctx):
    """a text that is no statement of any form is not recognised"""
    e = engine(ctx)
    f = ctx.func(e, SM, 'parse_alter_key')
    conds = [(RL.Auto(pattern(fm, q, True)), False) for fm in FORMS.values() for q in (False, True)]
    base = RL.Auto(r'.*\Z', re.S)
    nm = 'any other text is not recognised'

    def run():
        e.setghost('lang', RL.Lang(base, conds))
        return None, e.outcomes(lambda: e.call(f, [statement()], {}))

    def onp(c, r):
        w = hard(lambda: lang(e).witness())
        if r[0] != 'ok':
            bad(e, nm, 'for %r: raises %r' % (w, e.obj(r[1]).cls), w)
        elif e.truth(r[1]):
            bad(e, nm, 'recognised: %r' % w, w)
        else:
            ctx.cover('other')
            ok(e, nm)
    ctx.explore(e, SM + ':parse_alter_key', run, onp)


C23 = [('%s, %s table' % (n, 'quoted' if q else 'bare'), form_task(n, q)) for n in FORMS for q in (False, True)] + [('other texts', t_other)]
