"""Contracts of sql_parsing.formatting (C17, C18)."""
import ast
from fractions import Fraction

import z3

from pyded import builtins_ as bi
from pyded.engine import Unsupported, PathEnd, PyRaise, Infeasible
from pyded.task import REPO
from pyded.values import *
from pyded.values import Opaque, Builtin, ExtClass, IObj, LObj, DObj, Elem, Flat, Case, Ref, Sym, SV
from specs.runtime import WEXT, WVAL, dct

FM = 'sql_parsing.formatting'
TEXT = z3.Function('operand_text', V, S)          # the text an operand is printed as
KEYW = z3.Function('is_reserved_here', S, B)

NARY = ('mul', 'div', 'mod', 'add', 'sub', 'neq', 'gt', 'lt', 'gte', 'lte', 'eq', 'eq!', 'or', 'and', 'binary_and', 'binary_or')
SYMBOL = {'mul': '*', 'div': '/', 'mod': '%', 'add': '+', 'sub': '-', 'neq': '<>', 'gt': '>', 'lt': '<', 'gte': '>=', 'lte': '<=', 'eq': '=', 'eq!': '<=>',
          'or': 'OR', 'and': 'AND', 'binary_and': '&', 'binary_or': '|', 'like': 'LIKE', 'not_like': 'NOT LIKE', 'rlike': 'RLIKE', 'not_rlike': 'NOT RLIKE'}
COMP = ('neq', 'gt', 'lt', 'gte', 'lte', 'eq', 'eq!')
ASSOC = ('mul', 'add', 'and', 'or', 'binary_and', 'binary_or')
OPS = NARY + ('like', 'not_like', 'rlike', 'not_rlike', 'neg', 'binary_not', 'not', 'missing', 'exists', 'between', 'not_between', 'in', 'nin')

# MySQL's grammar (sql_yacc.yy): expr (OR > AND > NOT) > bool_pri (comparisons, IS NULL) > predicate > bit_expr (| & +- */%) > simple_expr
MY = {'or': 13, 'and': 12, 'not': 11, 'neq': 9, 'gt': 9, 'lt': 9, 'gte': 9, 'lte': 9, 'eq': 9, 'eq!': 9, 'missing': 9, 'exists': 9,
      'like': 8, 'not_like': 8, 'rlike': 8, 'not_rlike': 8, 'between': 8, 'not_between': 8, 'in': 8, 'nin': 8,
      'binary_or': 7, 'binary_and': 6, 'add': 5, 'sub': 5, 'mul': 4, 'div': 4, 'mod': 4, 'neg': 2, 'binary_not': 2}
BIT, PREDICATE, SIMPLE, ANY = 7, 8, 2, 99


def mysql_allows(op, pos, child):
    """may the bare text of an expression with outermost operator `child` stand as operand `pos` of `op` and be read as that operand?"""
    if op in ('arg', 'not'):
        return True
    if child == 'select':
        return False
    c, k = MY[child], MY[op]
    if op in ('and', 'or') or op in ('mul', 'div', 'mod', 'add', 'sub', 'binary_and', 'binary_or'):
        if pos == 0:
            return c <= k and child != 'not' or op in ('and', 'or') and child == 'not'
        return c < k or child == op and op in ASSOC
    if op in COMP:
        return c <= (9 if pos == 0 else PREDICATE)
    if op in ('missing', 'exists'):
        return c <= 9
    if op in ('like', 'not_like'):
        return c <= (BIT if pos == 0 else SIMPLE)
    if op in ('rlike', 'not_rlike'):
        return c <= BIT
    if op in ('between', 'not_between'):
        return c <= (PREDICATE if pos == 2 else BIT)
    if op in ('in', 'nin'):
        return c <= BIT if pos == 0 else False
    if op in ('neg', 'binary_not'):
        return c <= SIMPLE
    raise Unsupported(op)


def known_ops():
    """the operator levels of this parser: the order of KNOWN_OPS in sql_parsing/keywords.py (read from the source on every run)"""
    mod = ast.parse(open(REPO + '/sql_parsing/keywords.py').read())
    for st in mod.body:
        if isinstance(st, ast.Assign) and getattr(st.targets[0], 'id', '') == 'KNOWN_OPS' and isinstance(st.value, ast.List):
            names = {'MUL': 'mul', 'DIV': 'div', 'MOD': 'mod', 'NEG': 'neg', 'ADD': 'add', 'SUB': 'sub', 'BINARY_AND': 'binary_and', 'BINARY_OR': 'binary_or',
                     'GTE': 'gte', 'LTE': 'lte', 'LT': 'lt', 'GT': 'gt', 'EEQ': 'eq', 'DEQ': 'eq!', 'RLIKE': 'rlike', 'NOT_RLIKE': 'not_rlike', 'BINARY_NOT': 'binary_not', 'NEQ': 'neq', 'BETWEEN': 'between', 'NOT_BETWEEN': 'not_between',
                     'IN': 'in', 'NOT_IN': 'nin', 'IS': 'missing', 'IS_NOT': 'exists', 'LIKE': 'like', 'NOT_LIKE': 'not_like', 'NOT': 'not', 'AND': 'and', 'OR': 'or'}
            out = {}
            for i, x in enumerate(st.value.elts):
                if isinstance(x, ast.Tuple):
                    x = x.elts[0]
                todo = [x]
                while todo:
                    y = todo.pop()
                    if isinstance(y, ast.BinOp):
                        todo += [y.left, y.right]
                    elif isinstance(y, ast.Name) and y.id in names:
                        out[names[y.id]] = i
            if set(OPS) - set(out):
                raise Unsupported('operators without a level: %s' % sorted(set(OPS) - set(out)))
            return out
    raise Unsupported('KNOWN_OPS')


def parser_allows(lv, op, pos, child):
    """the same for this parser: operators bind by their level, the left one first within a level; comparisons do not chain"""
    if op in ('not', 'arg'):
        return True
    if child == 'select':
        return False
    c = lv[child]
    if op in ('in', 'nin') and pos == 1:
        return False
    k = lv[op]
    if child in ('neg', 'not', 'binary_not') and pos > 0:
        return c <= k
    compare = COMP + ('like', 'not_like', 'rlike', 'not_rlike', 'between', 'not_between', 'in', 'nin', 'missing', 'exists')
    if op in compare and child in compare:
        return False
    return c <= k if pos == 0 else c < k or child == op and op in ASSOC


def prec_of(e):
    p = e.get_global('sql_parsing.keywords', 'precedence')
    out = {}
    for k, v in e.obj(e.resolve(p)).ents:
        out[k] = e.resolve(v)
    return out


def num(e, v):
    v = e.resolve(v)
    if not isinstance(v, (int, float, Fraction)) or isinstance(v, bool):
        raise Unsupported('an operand printed in a context that is not constant')
    return v


OVER = {'parsing.utils:many_types': lambda e: (ExtClass(list), ExtClass(tuple), ExtClass(set))}


LITT = z3.Function('literal_text', V, S)
ESC = z3.Function('identifier_text', S, S)
XS = ('x0', 'x1', 'x2')


def has(e, v, k):
    return e.dict_lookup(v, k)[0]


def check_operand(e, v, q):
    """precondition of printing an operand: whatever may stand bare at this place is read back as this operand"""
    op = e.st.ghost['op']
    q = num(e, q)
    pos = None
    if isinstance(v, SV):
        if z3.is_const(v.t) and v.t.decl().name() in XS:
            pos = [XS.index(v.t.decl().name())]
        elif z3.is_app(v.t) and v.t.num_args() == 2:
            i = v.t.arg(1)
            pos = [0] if e.must(i == 0) else [1] if e.must(i > 0) else [0, 1]
    if pos is None or (len(pos) == 1 and op in NARY and pos[0] > 1):
        pos = [1] if pos else [0, 1]
    P, lv = prec_of(e), known_ops()
    for c in OPS + ('select',):
        if P.get(c, 100) > q:
            continue
        for i in pos:
            for who, ok in (('MySQL', mysql_allows(op, i, c)), ('this parser', parser_allows(lv, op, i, c))):
                nm = '%s operand %d: what stands there without parentheses is read as that operand (%s)' % (op, i, who)
                if ok:
                    e.ok(nm)
                else:
                    e.fail(nm, 'a %s expression is printed without parentheses as operand %d of %s' % (c, i, op))


def k_dispatch(e, f, a, k):
    """contract of Formatter.dispatch on an operand"""
    me, v = a[0], e.resolve(a[1])
    q = a[2] if len(a) > 2 else k.get('prec', 100)
    if isinstance(v, Ref) and isinstance(e.obj(v), LObj):
        # a list of operands in parentheses
        if e.st.ghost['op'] in ('in', 'nin'):
            e.setghost('op', 'arg')
        return e.inline(f, [me, v] + ([q] if q is not None else []), {})
    if isinstance(v, Ref) and isinstance(e.obj(v), DObj) and has(e, v, 'literal'):
        return e.inline(f, [me, v, q], {})
    check_operand(e, a[1] if isinstance(a[1], SV) else v, q)
    return Sym('str', TEXT(e.to_V(a[1])))


def k_literal(e, f, a, k):
    return Sym('str', LITT(e.to_V(a[1])))


def opaque_operand(e, v, c):
    """an operand is an expression: no list, no tuple, not None"""
    if isinstance(v, SV) and v.shape is not None and isinstance(c, ExtClass) and c.py in (list, tuple, set):
        return False
    return None


def k_is_null(e, f, a, k):
    return False if isinstance(e.resolve(a[0]), SV) else e.inline(f, a, k)


def fm_engine(ctx, extra=None, ext=None, opts=None):
    cs = {FM + ':Formatter.dispatch': k_dispatch, FM + ':Formatter._literal': k_literal, 'dots:is_null': k_is_null, 'dots.nones:is_null': k_is_null, 'dots.utils:is_null': k_is_null,
          FM + ':escape': lambda e, f, a, k: Sym('str', ESC(e.str_term(e.resolve(a[0]))))}
    cs.update(extra or {})
    e = ctx.engine(cs, dict(WEXT, **(ext or {})), dict({'branch_ms': 400, 'isinstance': opaque_operand}, **(opts or {})), dict(WVAL), OVER)
    ctx.assume('the operator levels MySQL reads expressions by are those of its grammar (expr > bool_pri > predicate > bit_expr > simple_expr); '
               'this parser reads them in the order of KNOWN_OPS in sql_parsing/keywords.py, left to right within a level')
    return e


def sv(name):
    return lambda e: e.from_V(z3.Const(name, V), ObjT('operand'))


def lst(*fs):
    return lambda e: e.alloc(LObj([Elem(f(e)) for f in fs]))


def T(x):
    return TEXT(z3.Const(x, V))


def cat(*ps):
    if len(ps) == 1:
        return z3.StringVal(ps[0]) if isinstance(ps[0], str) else ps[0]
    return z3.Concat(*[z3.StringVal(p) if isinstance(p, str) else p for p in ps])


OPERANDS = {}
for _k in NARY:
    OPERANDS[_k] = [('two operands', lst(sv('x0'), sv('x1')), lambda k=_k: [cat(T('x0'), ' %s ' % SYMBOL[k], T('x1'))])]
for _k in ASSOC:
    OPERANDS[_k].append(('any number of operands', lambda e: e.from_V(z3.Const('xs', V), ListT(ObjT('operand'), 2)), None))
for _k in ('like', 'not_like', 'rlike', 'not_rlike'):
    OPERANDS[_k] = [('two operands', lst(sv('x0'), sv('x1')), lambda k=_k: [cat(T('x0'), ' %s ' % SYMBOL[k], T('x1'))])]
for _k in ('between', 'not_between'):
    OPERANDS[_k] = [('three operands', lst(sv('x0'), sv('x1'), sv('x2')),
                     lambda k=_k: [cat(T('x0'), {'between': ' BETWEEN ', 'not_between': ' NOT BETWEEN '}[k], T('x1'), ' AND ', T('x2'))])]
OPERANDS['neg'] = [('operand', sv('x0'), lambda: [cat('-', T('x0')), cat('-(', T('x0'), ')')])]
OPERANDS['binary_not'] = [('operand', sv('x0'), lambda: [cat('~', T('x0'))])]
OPERANDS['not'] = [('operand', sv('x0'), lambda: [cat('NOT(', T('x0'), ')'), cat('NOT (', T('x0'), ')')])]
OPERANDS['missing'] = [('operand', sv('x0'), lambda: [cat(T('x0'), ' IS NULL')])]
OPERANDS['exists'] = [('operand', sv('x0'), lambda: [cat(T('x0'), ' IS NOT NULL')])]
for _k in ('in', 'nin'):
    _w = {'in': ' IN ', 'nin': ' NOT IN '}[_k]
    OPERANDS[_k] = [
        ('values', lst(sv('x0'), lst(sv('y0'), sv('y1'))), lambda w=_w: [cat(T('x0'), w, '(', T('y0'), ', ', T('y1'), ')')]),
        ('texts', lst(sv('x0'), lambda e: dct(e, ('literal', e.alloc(LObj([Elem('u'), Elem('v')]))))),
         lambda w=_w: [('lit', w)]),
        ('one text', lst(sv('x0'), lambda e: dct(e, ('literal', 'u'))), lambda w=_w: [('lit1', w)])]


def eq_any(e, name, r, wants, p, P):
    """the text is one of the wanted ones, in parentheses unless the context accepts the operator bare"""
    t = e.str_term(r)
    for w in wants:
        if e.must(t == w):
            e.ok(name)
            e.oblige('without parentheses only where the context takes the operator', p >= P)
            return w
    for w in wants:
        if e.must(t == cat('(', w, ')')):
            e.ok(name)
            return w
    e.oblige(name, z3.Or(*[x for w in wants for x in (t == w, t == cat('(', w, ')'))]))
    return None


def t_op(op, form, shape, want):
    def task(ctx):
        e = fm_engine(ctx)
        f = ctx.func(e, FM, 'Formatter.dispatch')
        ctx.func(e, FM, 'Formatter.op')

        def run():
            e.setghost('op', op)
            cls = e.get_global(FM, 'Formatter')
            me = fmt(e)
            v = shape(e)
            p = z3.Real('p')
            e.assume(p >= -1)
            if op == 'neg':
                e.assume(z3.Length(T('x0')) > 0)
            return None, e.outcomes(lambda: e.inline(f, [me, dct(e, (op, v)), Sym('real', p)], {}))

        def onp(c, r):
            if r[0] != 'ok':
                e.fail('every expression is printed', 'raises %r %s' % (e.obj(r[1]).cls, e.obj(r[1]).attrs.get('args')))
                return
            ctx.cover('printed')
            p, P = z3.Real('p'), e.num_term(prec_of(e).get(op, 100))
            r = e.resolve(r[1])
            if want is None:
                # any number of operands
                ref = e.call(e.get_global('refspec.expr', 'joined'), [e.from_V(z3.Const('xs', V), ListT(ObjT('operand'), 2)), SYMBOL[op]], {})
                par = e.mkrope('str', ['(', ref, ')'])
                bare = not (isinstance(r, type(ref)) and isinstance(getattr(r, 'segs', (None,))[0], str) and r.segs[0].startswith('('))
                e.prove_eq('the operands stand in order between the operator signs', r, ref if bare else par)
                if bare:
                    e.oblige('without parentheses only where the context takes the operator', p >= P)
                return
            ws = []
            for w in want():
                if isinstance(w, tuple):
                    L = e.alloc(LObj([Elem('u')] + ([Elem('v')] if w[0] == 'lit' else [])))
                    w = cat(T('x0'), w[1], LITT(e.to_V(L)))
                ws.append(w)
            w = eq_any(e, 'the operands stand in order around the operator signs', r, ws, p, P)
            if op == 'neg' and w is not None and w.eq(ws[0]):
                e.oblige('two minus signs never meet (-- starts a comment)', z3.Not(z3.PrefixOf(z3.StringVal('-'), T('x0'))))
        e.externals['ghost.operand_text'] = lambda e, a, k: Sym('str', TEXT(e.to_V(a[0])))
        ctx.explore(e, FM + ':Formatter.dispatch(%s, %s)' % (op, form), run, onp)
    return task


C17 = [('%s %s' % (k, form), t_op(k, form, shape, want)) for k in OPS for (form, shape, want) in OPERANDS[k]]


# ------------------------------------------------------------------ C17: statements and atoms
def fmt(e):
    return e.call(e.get_global(FM, 'Formatter'), [], {'ansi_quotes': False})


def items(n, key='value'):
    return lambda e: e.alloc(LObj([Elem(dct(e, (key, sv('x%d' % i)(e)))) for i in range(n)]))


def strv(name):
    return lambda e: Sym('str', z3.Const(name, S))


TXT = lambda n: z3.Const(n, S)
FORMS = {
    'function of two': (lambda e: dct(e, ('ifnull', lst(sv('x0'), sv('x1'))(e))), lambda: cat('IFNULL(', T('x0'), ', ', T('x1'), ')')),
    'function of one': (lambda e: dct(e, ('sum', sv('x0')(e))), lambda: cat('SUM(', T('x0'), ')')),
    'function of none': (lambda e: dct(e, ('now', dct(e))), lambda: cat('NOW()')),
    'null': (lambda e: dct(e, ('null', dct(e))), lambda: cat('NULL')),
    'value': (lambda e: dct(e, ('value', sv('x0')(e))), lambda: T('x0')),
    'alias': (lambda e: dct(e, ('value', sv('x0')(e)), ('name', Sym('str', TXT('n')))), lambda: cat(T('x0'), ' AS ', ESC(TXT('n')))),
    'select one': (lambda e: dct(e, ('select', sv('x0')(e)), ('from', Sym('str', TXT('t')))), lambda: cat('SELECT ', T('x0'), ' FROM ', ESC(TXT('t')))),
    'select list': (lambda e: dct(e, ('select', lst(sv('x0'), sv('x1'), sv('x2'))(e)), ('from', Sym('str', TXT('t')))),
                    lambda: cat('SELECT ', T('x0'), ', ', T('x1'), ', ', T('x2'), ' FROM ', ESC(TXT('t')))),
    'select distinct': (lambda e: dct(e, ('select_distinct', lst(sv('x0'), sv('x1'))(e)), ('from', Sym('str', TXT('t')))),
                        lambda: cat('SELECT DISTINCT ', T('x0'), ', ', T('x1'), ' FROM ', ESC(TXT('t')))),
    'select where': (lambda e: dct(e, ('select', '*'), ('from', Sym('str', TXT('t'))), ('where', sv('x0')(e))),
                     lambda: cat('SELECT ', ESC(z3.StringVal('*')), ' FROM ', ESC(TXT('t')), ' WHERE ', T('x0'))),
    'select where group order limit': (
        lambda e: dct(e, ('limit', sv('x2')(e)), ('orderby', dct(e, ('value', sv('x1')(e)), ('sort', 'desc'))), ('where', sv('x0')(e)), ('select', sv('y0')(e)),
                      ('from', Sym('str', TXT('t'))), ('groupby', sv('y1')(e)), ('having', sv('y2')(e)), ('offset', sv('y3')(e))),
        lambda: cat('SELECT ', T('y0'), ' FROM ', ESC(TXT('t')), ' WHERE ', T('x0'), ' GROUP BY ', T('y1'), ' HAVING ', T('y2'), ' ORDER BY ', T('x1'), ' DESC',
                    ' LIMIT ', T('x2'), ' OFFSET ', T('y3'))),
    'order by': (lambda e: dct(e, ('select', sv('y0')(e)), ('from', Sym('str', TXT('t'))), ('orderby', lst(lambda e: dct(e, ('value', sv('x1')(e))),
                                                                                                      lambda e: dct(e, ('value', sv('x1')(e)), ('sort', 'asc')))(e))),
                 lambda: cat('SELECT ', T('y0'), ' FROM ', ESC(TXT('t')), ' ORDER BY ', T('x1'), ', ', T('x1'), ' ASC')),
    'join': (lambda e: dct(e, ('select', sv('y0')(e)),
                           ('from', e.alloc(LObj([Elem(Sym('str', TXT('t'))), Elem(dct(e, ('left join', Sym('str', TXT('u'))), ('on', sv('x0')(e))))])))),
             lambda: cat('SELECT ', T('y0'), ' FROM ', ESC(TXT('t')), ' LEFT JOIN ', ESC(TXT('u')), ' ON ', T('x0'))),
    'update': (lambda e: dct(e, ('update', Sym('str', TXT('t'))), ('where', sv('x2')(e)), ('set', dct(e, ('c', sv('x0')(e)), ('d', sv('x1')(e))))),
               lambda: cat('UPDATE ', ESC(TXT('t')), ' SET ', ESC(z3.StringVal('c')), ' = ', T('x0'), ', ', ESC(z3.StringVal('d')), ' = ', T('x1'), ' WHERE ', T('x2'))),
    'delete': (lambda e: dct(e, ('where', sv('x0')(e)), ('delete', Sym('str', TXT('t')))), lambda: cat('DELETE FROM ', ESC(TXT('t')), ' WHERE ', T('x0'))),
    'delete all': (lambda e: dct(e, ('delete', Sym('str', TXT('t')))), lambda: cat('DELETE FROM ', ESC(TXT('t')))),
    'drop': (lambda e: dct(e, ('drop', dct(e, ('table', Sym('str', TXT('t')))))), lambda: cat('DROP TABLE ', ESC(TXT('t')))),
    'insert row': (lambda e: dct(e, ('columns', lst(strv('c'), strv('d'))(e)), ('query', dct(e, ('select', items(2)(e)))), ('insert', Sym('str', TXT('t')))),
                   lambda: cat('INSERT INTO ', ESC(TXT('t')), ' (', ESC(TXT('c')), ', ', ESC(TXT('d')), ') VALUES (', T('x0'), ', ', T('x1'), ')')),
}

def js(x):
    """a concrete JSON value; '$x' stands for an arbitrary operand x, '@t' for an arbitrary text t"""
    def f(e):
        if isinstance(x, dict):
            return dct(e, *[(k, js(v)(e)) for k, v in x.items()])
        if isinstance(x, list):
            return e.alloc(LObj([Elem(js(v)(e)) for v in x]))
        if isinstance(x, str) and x[:1] == '$':
            return sv(x[1:])(e)
        if isinstance(x, str) and x[:1] == '@':
            return Sym('str', TXT(x[1:]))
        return x
    return f


def tx(*ps):
    """a text: '$x' the text of operand x, '@t' the text t, '`t' the text t written as an identifier"""
    def one(x):
        return T(x[1:]) if x[0] == '$' else TXT(x[1:]) if x[0] == '@' else ESC(TXT(x[1:])) if x[0] == '`' else ESC(z3.StringVal(x[2:])) if x[:2] == '=`' else x[1:] if x[0] == '=' else x
    return lambda: cat(*[one(x) for x in ps])


def par(*ps):
    return [tx(*ps), tx('(', *ps, ')')]


SEL = {'select': '$y0', 'from': '@t'}
SELT = ('SELECT ', '$y0', ' FROM ', '`t')


def over(o):
    return {'value': '$x0', 'over': o}


FORMS.update({
    'fetch': (js(dict(SEL, fetch='$x0')), tx(*SELT, ' FETCH FIRST ', '$x0', ' ROWS ONLY')),
    'offset fetch': (js(dict(SEL, offset='$x1', fetch='$x0')), tx(*SELT, ' OFFSET ', '$x1', ' FETCH FIRST ', '$x0', ' ROWS ONLY')),
    'limit of two': (js(dict(SEL, limit=['$x0', '$x1'])), tx(*SELT, ' LIMIT ', '$x0', ', ', '$x1')),
    'order by nulls': (js(dict(SEL, orderby=[{'value': '$x1', 'sort': 'desc', 'nulls': 'last'}, {'value': '$x1', 'nulls': 'first'}])),
                       tx(*SELT, ' ORDER BY ', '$x1', ' DESC NULLS LAST, ', '$x1', ' NULLS FIRST')),
    'group by two': (js(dict(SEL, groupby=['$x0', '$x1'])), tx(*SELT, ' GROUP BY ', '$x0', ', ', '$x1')),
    'with': (js(dict(SEL, **{'with': {'name': '@n', 'value': '$x0'}})), tx('WITH ', '`n', ' AS (', '$x0', ') ', *SELT)),
    'with two': (js(dict(SEL, **{'with': [{'name': '@n', 'value': '$x0'}, {'name': '@m', 'value': '$x1'}]})), tx('WITH ', '`n', ' AS (', '$x0', '), ', '`m', ' AS (', '$x1', ') ', *SELT)),
    'with columns': (js(dict(SEL, **{'with': {'name': {'w': ['@c', '@d']}, 'value': '$x0'}})), tx('WITH ', '=`w', '(', '`c', ', ', '`d', ') AS (', '$x0', ') ', *SELT)),
    'with recursive': (js(dict(SEL, **{'with_recursive': {'name': '@n', 'value': '$x0'}})), tx('WITH RECURSIVE ', '`n', ' AS (', '$x0', ') ', *SELT)),
    'with ordered': (js(dict(SEL, **{'with': {'name': '@n', 'value': '$x0'}, 'where': '$x2', 'limit': '$x1'})), tx('WITH ', '`n', ' AS (', '$x0', ') ', *SELT, ' WHERE ', '$x2', ' LIMIT ', '$x1')),
    'with a union': (js({'union': ['$x0', '$x1'], 'with': {'name': '@n', 'value': '$y0'}}), tx('WITH ', '`n', ' AS (', '$y0', ') ', '$x0', ' UNION ', '$x1')),
    'limit of a query': (js({'from': {'select': '$x0', 'from': '@t', 'limit': '$x1'}, 'limit': '$x2'}), tx('(SELECT ', '$x0', ' FROM ', '`t', ' LIMIT ', '$x1', ') LIMIT ', '$x2')),
    'table with columns': (js({'select': '$x0', 'from': {'value': '@t', 'name': {'x': ['@c', '@d']}}}), tx('SELECT ', '$x0', ' FROM ', '`t', ' AS ', '=`x', '(', '`c', ', ', '`d', ')')),
    'distinct on': (js({'distinct_on': ['$x0', '$x1'], 'select': ['$y0', '$y1'], 'from': '@t'}),
                    tx('SELECT DISTINCT ON (', '$x0', ', ', '$x1', ') ', '$y0', ', ', '$y1', ' FROM ', '`t')),
    'count distinct': (js({'count': {'distinct': '$x0'}}), tx('COUNT(DISTINCT ', '$x0', ')')),
    'case with else': (js({'case': [{'when': '$x0', 'then': '$x1'}, {'when': '$y0', 'then': '$y1'}, '$x2']}),
                       par('CASE WHEN ', '$x0', ' THEN ', '$x1', ' WHEN ', '$y0', ' THEN ', '$y1', ' ELSE ', '$x2', ' END')),
    'case of one': (js({'case': {'when': '$x0', 'then': '$x1'}}), par('CASE WHEN ', '$x0', ' THEN ', '$x1', ' END')),
    'cast': (js({'cast': ['$x0', {'decimal': ['$x1', '$x2']}]}), tx('CAST(', '$x0', ' AS DECIMAL(', '$x1', ', ', '$x2', '))')),
    'trim': (js({'trim': '$x0'}), tx('TRIM(', '$x0', ')')),
    'trim of characters': (js({'characters': '$x1', 'trim': '$x0'}), tx('TRIM(', '$x1', ' FROM ', '$x0', ')')),
    'trim of one side': (js({'characters': '$x1', 'direction': 'both', 'trim': '$x0'}), tx('TRIM(BOTH ', '$x1', ' FROM ', '$x0', ')')),
    'collate': (js({'collate': ['$x0', 'binary']}), tx('$x0', ' COLLATE binary')),
    'subquery in from': (js({'select': '$x0', 'from': {'value': SEL, 'name': '@n'}}), tx('SELECT ', '$x0', ' FROM (', *SELT, ') AS ', '`n')),
    'ordered subquery in from': (js({'select': '$x0', 'from': dict(SEL, limit='$x1')}), tx('SELECT ', '$x0', ' FROM (', *SELT, ' LIMIT ', '$x1', ')')),
    'subquery of in': (js({'in': ['$x0', SEL]}), tx('$x0', ' IN (', *SELT, ')')),
    'subquery of not in': (js({'nin': ['$x0', SEL]}), tx('$x0', ' NOT IN (', *SELT, ')')),
    'subquery compared': (js({'eq': ['$x0', SEL]}), tx('$x0', ' = (', *SELT, ')')),
    'subquery as a value': (js({'select': {'value': SEL}, 'from': '@u'}), tx('SELECT (', *SELT, ') FROM ', '`u')),
    'two tables': (js({'select': '$x0', 'from': ['@t', {'value': '@u', 'name': '@n'}]}), tx('SELECT ', '$x0', ' FROM ', '`t', ', ', '`u', ' AS ', '`n')),
    'join using one': (js({'select': '$x0', 'from': ['@t', {'join': '@u', 'using': '@n'}]}), tx('SELECT ', '$x0', ' FROM ', '`t', ' JOIN ', '`u', ' USING (', '`n', ')')),
    'join using two': (js({'select': '$x0', 'from': ['@t', {'inner join': '@u', 'using': ['@n', '@m']}]}),
                       tx('SELECT ', '$x0', ' FROM ', '`t', ' INNER JOIN ', '`u', ' USING (', '`n', ', ', '`m', ')')),
    'join of two more': (js({'select': '$x0', 'from': ['@t', {'cross join': '@u'}, {'right join': {'value': '@n', 'name': '@m'}, 'on': '$x1'}]}),
                         tx('SELECT ', '$x0', ' FROM ', '`t', ' CROSS JOIN ', '`u', ' RIGHT JOIN ', '`n', ' AS ', '`m', ' ON ', '$x1')),
    'join with a subquery': (js({'select': '$x0', 'from': ['@u', {'join': {'value': SEL, 'name': '@n'}, 'on': '$x1'}]}),
                             tx('SELECT ', '$x0', ' FROM ', '`u', ' JOIN (', *SELT, ') AS ', '`n', ' ON ', '$x1')),
    'union all': (js({'union_all': [SEL, {'select': '$x0', 'from': '@u', 'where': '$x1'}]}), tx(*SELT, ' UNION ALL SELECT ', '$x0', ' FROM ', '`u', ' WHERE ', '$x1')),
    'union of a limited query': (js({'union': [SEL, {'select': '$x0', 'from': '@u', 'limit': '$x1'}]}),
                                 tx(*SELT, ' UNION (SELECT ', '$x0', ' FROM ', '`u', ' LIMIT ', '$x1', ')')),
    'ordered union': (js({'from': {'union': [SEL, {'select': '$x0', 'from': '@u'}]}, 'orderby': {'value': '$x1'}, 'limit': '$x2'}),
                      tx(*SELT, ' UNION SELECT ', '$x0', ' FROM ', '`u', ' ORDER BY ', '$x1', ' LIMIT ', '$x2')),
    'window': (js(over({'partitionby': '$x2', 'orderby': {'value': '$x1', 'sort': 'desc'}})), tx('$x0', ' OVER (PARTITION BY ', '$x2', ' ORDER BY ', '$x1', ' DESC)')),
    'window of two': (js(dict(over({'partitionby': ['$x2', '$y2']}), name='@n')), tx('$x0', ' OVER (PARTITION BY ', '$x2', ', ', '$y2', ') AS ', '`n')),
    'empty window': (js(over({})), tx('$x0', ' OVER ()')),
    'drop if exists': (js({'drop': {'if_exists': True, 'table': '@t'}}), tx('DROP TABLE IF EXISTS ', '`t')),
    'drop view': (js({'drop': {'view': '@t'}}), tx('DROP VIEW ', '`t')),
    'drop index': (js({'drop': {'index': '@t'}}), tx('DROP INDEX ', '`t')),
    'insert one value': (js({'columns': '@c', 'query': {'select': {'value': '$x0'}}, 'insert': '@t'}), tx('INSERT INTO ', '`t', ' (', '`c', ') VALUES (', '$x0', ')')),
    'insert without columns': (js({'query': {'select': [{'value': '$x0'}, {'value': '$x1'}]}, 'insert': '@t'}), tx('INSERT INTO ', '`t', ' VALUES (', '$x0', ', ', '$x1', ')')),
    'insert a query': (js({'columns': ['@c', '@d'], 'query': {'select': [{'value': '$x0'}, {'value': '$x1'}], 'from': '@u', 'where': '$x2'}, 'insert': '@t'}),
                       tx('INSERT INTO ', '`t', ' (', '`c', ', ', '`d', ') SELECT ', '$x0', ', ', '$x1', ' FROM ', '`u', ' WHERE ', '$x2')),
    'insert a query of one': (js({'columns': '@c', 'query': {'select': {'value': '$x0'}, 'from': '@u'}, 'insert': '@t'}),
                              tx('INSERT INTO ', '`t', ' (', '`c', ') SELECT ', '$x0', ' FROM ', '`u')),
    'insert a union': (js({'columns': '@c', 'query': {'union_all': [{'select': {'value': '$x0'}}, {'select': {'value': '$x1'}}]}, 'insert': '@t'}),
                       tx('INSERT INTO ', '`t', ' (', '`c', ') SELECT ', '$x0', ' UNION ALL SELECT ', '$x1')),
})
for _k, _w in (('in', ' IN ('), ('nin', ' NOT IN (')):
    FORMS['%s one column' % _k] = (js({_k: ['$x0', '@n']}), tx('$x0', _w, '`n', ')'))
    FORMS['%s one number' % _k] = (js({_k: ['$x0', 5]}), tx('$x0', _w, '=5', ')'))
    FORMS['%s one function' % _k] = (js({_k: ['$x0', {'ifnull': ['$y0', '$y1']}]}), tx('$x0', _w, 'IFNULL(', '$y0', ', ', '$y1', '))'))
    FORMS['%s one sum' % _k] = (js({_k: ['$x0', {'add': ['$y0', '$y1']}]}), tx('$x0', _w, '$y0', ' + ', '$y1', ')'))
    FORMS['%s a union' % _k] = (js({_k: ['$x0', {'union': [SEL, {'select': '$x1', 'from': '@u'}]}]}), tx('$x0', _w, *SELT, ' UNION SELECT ', '$x1', ' FROM ', '`u', ')'))
for _k in ('union_distinct', 'intersect', 'intersect_all', 'intersect_distinct', 'except', 'except_all', 'except_distinct'):
    FORMS[_k.replace('_', ' ')] = (js({_k: [SEL, {'select': '$x0', 'from': '@u'}]}), tx(*SELT, ' %s SELECT ' % _k.replace('_', ' ').upper(), '$x0', ' FROM ', '`u'))
FORMS['limited union'] = (js({'from': {'union_all': [SEL, {'select': '$x0', 'from': '@u'}]}, 'limit': 0, 'offset': '$x1', 'fetch': '$x2'}),
                          tx(*SELT, ' UNION ALL SELECT ', '$x0', ' FROM ', '`u', ' LIMIT ', '=0', ' OFFSET ', '$x1', ' FETCH FIRST ', '$x2', ' ROWS ONLY'))
for _k, _w in (('eq', '='), ('neq', '<>')):
    FORMS['%s null' % _k] = (js({_k: ['$x0', {'null': {}}]}), tx('$x0', ' %s ' % _w, 'NULL'))
    FORMS['null %s' % _k] = (js({_k: [{'null': {}}, '$x0']}), tx('NULL', ' %s ' % _w, '$x0'))
FORMS['exists a query'] = (js({'exists': SEL}), tx('EXISTS (', *SELT, ')'))
FORMS['not exists a query'] = (js({'not': {'exists': SEL}}), [tx('NOT(EXISTS (', *SELT, '))'), tx('NOT (EXISTS (', *SELT, '))'), tx('NOT EXISTS (', *SELT, ')')])
FORMS['query is null'] = (js({'missing': SEL}), tx('(', *SELT, ') IS NULL'))
BOUND = {None: None, -2: '2 PRECEDING', 0: 'CURRENT ROW', 3: '3 FOLLOWING'}
for _lo in BOUND:
    for _hi in BOUND:
        if (_lo, _hi) == (None, None) or _lo == 3 and _hi in (-2, 0):
            continue
        _r = dict([('min', _lo)] * (_lo is not None) + [('max', _hi)] * (_hi is not None))
        _full = 'BETWEEN %s AND %s' % (BOUND[_lo] or 'UNBOUNDED PRECEDING', BOUND[_hi] or 'UNBOUNDED FOLLOWING')
        _ws = [_full]
        if _hi == 0:                     # a frame of one bound ends at the current row
            _ws.append(BOUND[_lo] or 'UNBOUNDED PRECEDING')
        FORMS['window rows %s to %s' % (_lo, _hi)] = (js(over({'orderby': {'value': '$x1'}, 'range': _r})),
                                                      [tx('$x0', ' OVER (ORDER BY ', '$x1', ' ROWS ', '=' + w, ')') for w in _ws])


def t_form(name):
    shape, want = FORMS[name]

    def task(ctx):
        def disp(e, f, a, k):
            v = e.resolve(a[1])
            if isinstance(v, SV):
                return Sym('str', TXT_OF(e, a[1]))
            q = [x for x in a[2:]]
            return e.inline(f, [a[0], v] + q, k)

        def TXT_OF(e, v):
            return TEXT(e.to_V(v))
        e = fm_engine(ctx, {FM + ':Formatter.dispatch': disp})
        ctx.assume('the text of an operand neither starts nor ends with blanks')
        f = ctx.func(e, 'sql_parsing', 'format')

        def run():
            j = shape(e)
            for n in ('t', 'u', 'n', 'm', 'c', 'd'):
                e.assume(z3.Length(TXT(n)) > 0)
                e.assume(z3.Length(ESC(TXT(n))) > 0)
            for n in ('x0', 'x1', 'x2', 'y0', 'y1', 'y2', 'y3'):
                e.assume(z3.Length(T(n)) > 0)
            strip = z3.Function('str_strip', S, S)
            for t in (T('x1'), cat(T('x1'), ' ASC'), cat(T('x1'), ' DESC')):
                e.assume(strip(t) == t)
                e.assume(strip(cat(t, ' ')) == t)
            return None, e.outcomes(lambda: e.inline(f, [j], {}))

        def onp(c, r):
            if r[0] != 'ok':
                e.fail('every statement is printed', 'raises %r %s' % (e.obj(r[1]).cls, e.obj(r[1]).attrs.get('args')))
                return
            ctx.cover('printed')
            nm = 'the clauses stand in SQL order with their parts in the order given'
            if isinstance(want, list):
                t = e.str_term(e.resolve(r[1]))
                e.oblige(nm, z3.Or(*[t == w() for w in want]))
            else:
                e.prove_eq(nm, r[1], Sym('str', want()))
        ctx.explore(e, 'sql_parsing:format (%s)' % name, run, onp)
    return task


C17 += [('form ' + n, t_form(n)) for n in FORMS]


# ------------------------------------------------------------------ C18: literals
class Maps:
    """texts made of another text by a map of its characters (a chain of one-character replacements)"""
    def __init__(self):
        self.of = {}            # term name -> (source term, {char: text})

    def term(self, src, m):
        for n, (s, mm) in self.of.items():
            if s.eq(src) and mm == m:
                return z3.Const(n, S)
        n = 'mapped!%d' % len(self.of)
        self.of[n] = (src, dict(m))
        return z3.Const(n, S)

    def lookup(self, t):
        if z3.is_const(t) and t.decl().name() in self.of:
            return self.of[t.decl().name()]
        return (t, {})


def replace_hook(maps):
    def h(e, o, a, b):
        a, b = e.resolve(a), e.resolve(b)
        if isinstance(o, str) and isinstance(a, str) and isinstance(b, str):
            return o.replace(a, b)
        if not (isinstance(a, str) and isinstance(b, str) and len(a) == 1 and isinstance(o, Sym)):
            raise Unsupported('replace of %r' % (a,))
        src, m = maps.lookup(o.t)
        n = {c: w.replace(a, b) for c, w in m.items()}
        n.setdefault(a, b)
        return Sym('str', maps.term(src, n))
    return h


MYSQL_ESC = {'0': '\0', "'": "'", '"': '"', 'b': '\b', 'n': '\n', 'r': '\r', 't': '\t', 'Z': '\x1a', '\\': '\\'}


def unit_mysql(w, q):
    """the character a text fragment is read as inside a MySQL string quoted by q, or None when it is no complete unit"""
    if len(w) == 1 and w not in (q, '\\'):
        return w
    if w == q + q:
        return q
    if len(w) == 2 and w[0] == '\\':
        return MYSQL_ESC.get(w[1], w if w[1] in '%_' else w[1])
    return None


def unit_parser(w, q):
    """the same for this parser: '' is a quote, the rest is read by ast.literal_eval"""
    if w == q + q:
        return q
    if len(w) == 1 and w not in (q, '\\', '\n', '\r', '\0'):
        return w
    if len(w) == 2 and w[0] == '\\' and w[1] != q:
        try:
            r = ast.literal_eval("'" + w + "'")
        except Exception:
            return None
        return r if len(r) == 1 else None
    return None


def check_units(e, m, q, who, unit, must_map):
    """a map of characters whose every image is one complete unit that is read back as the character: no text ends the string early"""
    for c in sorted(set(m) | set(must_map)):
        w = m.get(c, c)
        nm = 'the character %r of a quoted text is read back as itself (%s)' % (c, who)
        if unit(w, q) == c:
            e.ok(nm)
        else:
            e.fail(nm, 'it is written %r' % w)


def quoted_by(e, maps, r, src, q):
    """r == q + (character map of src) + q: the map"""
    r = e.resolve(r)
    if isinstance(r, str) or not isinstance(r, Sym):
        return None
    t = z3.simplify(r.t)
    for n, (s, m) in list(maps.of.items()) + [(None, (src, {}))]:
        if s.eq(src):
            x = z3.Const(n, S) if n else src
            if e.must(t == z3.Concat(z3.StringVal(q), x, z3.StringVal(q))):
                return m
    return None


def t_text_literal(form):
    def task(ctx):
        maps = Maps()
        e = fm_engine(ctx, opts={'replace_model': replace_hook(maps)})
        del e.contracts[FM + ':Formatter._literal']
        f = ctx.func(e, FM, 'Formatter._literal')
        ctx.assume('replacing one-character texts maps a text character by character; no text holds a NUL')

        def run():
            x = Sym('str', z3.Const('text', S))
            me = fmt(e)
            if form == 'direct':
                r = e.outcomes(lambda: e.inline(f, [me, x], {}))
            else:
                r = e.outcomes(lambda: e.inline(ctx.func(e, FM, 'Formatter.dispatch'), [me, dct(e, ('literal', x))], {}))
            return x.t, r

        def onp(src, r):
            if r[0] != 'ok':
                e.fail('every text is written', 'raises %r' % (e.obj(r[1]).cls,))
                return
            m = quoted_by(e, maps, r[1], src, "'")
            if m is None:
                if isinstance(e.resolve(r[1]), Sym) and all(z3.is_string_value(x) or (z3.is_const(x) and (x.eq(src) or x.decl().name() in maps.of)) for x in pieces(z3.simplify(e.resolve(r[1]).t))):
                    e.fail('a text is written as a quoted string', str(e.resolve(r[1]))[:200])
                    return
                raise Unsupported('how the text is quoted: %s' % str(e.resolve(r[1]))[:100])
            e.ok('a text is written as a quoted string')
            ctx.cover('written')
            check_units(e, m, "'", 'MySQL', unit_mysql, "'\\")
            check_units(e, m, "'", 'this parser', unit_parser, "'\\\n\r")
        ctx.explore(e, FM + ':Formatter._literal', run, onp)
    return task


def pieces(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for c in t.children() for y in pieces(c)]
    return [t]


def t_other_literals(ctx):
    e = fm_engine(ctx)
    f = ctx.func(e, FM, 'Formatter._literal')

    def lit(e, f_, a, k):
        v = e.resolve(a[1])
        if isinstance(v, SV):
            return Sym('str', LITT(e.to_V(a[1])))
        return e.inline(f_, a, k)
    e.contracts[FM + ':Formatter._literal'] = lit
    x = z3.Const('n', I)
    y = z3.Const('r', R)
    cases = {
        'integer': (lambda: Sym('int', x), lambda: bi.py_str(e, Sym('int', x))),
        'real': (lambda: Sym('real', y), lambda: bi.py_str(e, Sym('real', y))),
        'list': (lambda: lst(sv('x0'), sv('x1'))(e), lambda: Sym('str', cat('(', LITT(z3.Const('x0', V)), ', ', LITT(z3.Const('x1', V)), ')'))),
    }
    for name, (mk, want) in cases.items():
        def run(mk=mk):
            return None, e.outcomes(lambda: e.inline(f, [fmt(e), mk()], {}))

        def onp(c, r, name=name, want=want):
            if r[0] != 'ok':
                e.fail('every literal is written', 'raises %r' % (e.obj(r[1]).cls,))
                return
            ctx.cover('written')
            e.prove_eq('a %s literal is written as it is' % name, r[1], want())
        ctx.explore(e, FM + ':Formatter._literal (%s)' % name, run, onp)
        if name == 'list':
            continue

        def run2(mk=mk):
            return None, e.outcomes(lambda: e.inline(ctx.func(e, FM, 'Formatter.dispatch'), [fmt(e), mk()], {}))
        ctx.explore(e, FM + ':Formatter.dispatch (%s)' % name, run2, onp)

    def run3():
        return None, e.outcomes(lambda: e.inline(ctx.func(e, FM, 'Formatter.dispatch'), [fmt(e), None], {}))

    def onp3(c, r):
        e.prove_eq('None is written as NULL', r[1] if r[0] == 'ok' else '?', 'NULL')
    ctx.explore(e, FM + ':Formatter.dispatch (None)', run3, onp3)


def t_rows(ctx):
    """multi-row INSERT: every row gives its value of each column, in the order of the printed columns"""
    def lit(e, f_, a, k):
        return Sym('str', LITT(e.to_V(a[1])))
    e = fm_engine(ctx)
    f = ctx.func(e, FM, 'Formatter.insert')
    e.contracts[FM + ':Formatter.sql_list'] = None
    del e.contracts[FM + ':Formatter.sql_list']

    def disp(e, f, a, k):
        v = e.resolve(a[1])
        return Sym('str', ESC(e.str_term(v))) if e.kind(v) == 'str' else e.inline(f, a, k)
    e.contracts[FM + ':Formatter.dispatch'] = disp

    def run():
        rows = lst(lambda e: dct(e, ('b', sv('x0')(e)), ('a', sv('x1')(e))), lambda e: dct(e, ('a', sv('y0')(e)), ('b', sv('y1')(e))))(e)
        e.assume(z3.Length(TXT('t')) > 0)
        j = dct(e, ('values', rows), ('insert', Sym('str', TXT('t'))))
        return None, e.outcomes(lambda: e.inline(f, [fmt(e), j], {}))

    def onp(c, r):
        if r[0] != 'ok':
            e.fail('every row is written', 'raises %r %s' % (e.obj(r[1]).cls, e.obj(r[1]).attrs.get('args')))
            return
        ctx.cover('written')
        L = lambda n: LITT(z3.Const(n, V))
        A, B_ = ESC(z3.StringVal('a')), ESC(z3.StringVal('b'))
        t = e.str_term(e.resolve(r[1]))
        w1 = cat('INSERT INTO ', ESC(TXT('t')), ' (', A, ', ', B_, ') VALUES (', L('x1'), ', ', L('x0'), '),\n(', L('y0'), ', ', L('y1'), ')')
        w2 = cat('INSERT INTO ', ESC(TXT('t')), ' (', B_, ', ', A, ') VALUES (', L('x0'), ', ', L('x1'), '),\n(', L('y1'), ', ', L('y0'), ')')
        e.oblige('every row gives its value of each column in the order of the columns', z3.Or(t == w1, t == w2))
    ctx.explore(e, FM + ':Formatter.insert', run, onp)


# ------------------------------------------------------------------ C18: identifiers
import re._parser as sre
import re._constants as srec


def z3re(pat):
    """the words a pattern without lookaround accepts with match(), as a z3 regular expression; characters outside ASCII in \\w are U+0080 - U+FFFF"""
    def rng(a, b):
        return z3.Range(chr(a), chr(b)) if a < b else z3.Re(z3.StringVal(chr(a)))
    anych = z3.Range(chr(0), chr(0xffff))
    word = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Range('0', '9'), z3.Re('_'), z3.Range(chr(0x80), chr(0xffff)))

    def one(op, av):
        if op == srec.LITERAL:
            return z3.Re(z3.StringVal(chr(av)))
        if op == srec.IN:
            if av and av[0][0] == srec.NEGATE:
                raise Unsupported('negated set')
            rs = []
            for o, v in av:
                if o == srec.RANGE:
                    rs.append(rng(*v))
                elif o == srec.LITERAL:
                    rs.append(rng(v, v))
                elif o == srec.CATEGORY and v == srec.CATEGORY_WORD:
                    rs.append(word)
                elif o == srec.CATEGORY and v == srec.CATEGORY_DIGIT:
                    rs.append(z3.Range('0', '9'))
                else:
                    raise Unsupported('set in a pattern')
            return rs[0] if len(rs) == 1 else z3.Union(*rs)
        if op in (srec.MAX_REPEAT, srec.MIN_REPEAT):
            lo, hi, sub = av
            r = seq(list(sub))
            if hi == srec.MAXREPEAT:
                return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            return z3.Loop(r, lo, hi) if hi else z3.Re('')
        if op == srec.SUBPATTERN:
            return seq(list(av[-1]))
        if op == srec.BRANCH:
            return z3.Union(*[seq(list(b)) for b in av[1]])
        if op == srec.ANY:
            return anych
        raise Unsupported('pattern %s' % op)

    def seq(ops):
        rs = [one(*x) for x in ops]
        return z3.Re('') if not rs else rs[0] if len(rs) == 1 else z3.Concat(*rs)
    ops = list(sre.parse(pat))
    if ops and ops[0] == (srec.AT, srec.AT_BEGINNING):
        ops = ops[1:]
    if ops and ops[-1][0] == srec.AT:
        end = ops[-1][1]
        body = seq(ops[:-1])
        if end == srec.AT_END_STRING:
            return body
        if end == srec.AT_END:
            return z3.Union(body, z3.Concat(body, z3.Re('\n')))
        raise Unsupported('pattern end')
    return z3.Concat(seq(ops), z3.Star(anych))


def m_compile(e, a, k):
    pat = e.resolve(a[0])
    if not isinstance(pat, str) or len(a) > 1 or k:
        raise Unsupported('pattern')

    def m(full):
        def match(e, a, k):
            r = z3re(pat)
            t = e.str_term(e.resolve(a[0]))
            if full:
                p = z3re(pat + r'\Z') if not pat.endswith(('$', r'\Z')) else r
                r = p
            return Opaque('match', {}) if e.branch(z3.InRe(t, r)) else None
        return match
    return Opaque('pattern', {'match': Builtin('match', m(False)), 'fullmatch': Builtin('fullmatch', m(True))})


# MySQL's unquoted identifiers: [0-9a-zA-Z$_] and U+0080 - U+FFFF, not digits only (here: not starting with one)
def plain_word():
    ch = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Range('0', '9'), z3.Re('_'), z3.Re('$'), z3.Range(chr(0x80), chr(0xffff)))
    first = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Re('_'), z3.Re('$'), z3.Range(chr(0x80), chr(0xffff)))
    return z3.Concat(first, z3.Star(ch))


def m_keyword(e, a, k):
    if e.branch(KEYW(e.str_term(e.resolve(a[0])))):
        return Opaque('tokens', {})
    e.raise_(ValueError, 'no reserved word')


FIELDS = z3.Function('field_parts', S, V)


def k_split(e, f, a, k):
    """contract of dots.split_field (C20): the parts of a dotted name"""
    return e.from_V(FIELDS(e.str_term(e.resolve(a[0]))), ListT(StrT, 1))


def id_engine(ctx, maps, opts=None):
    e = fm_engine(ctx, {'dots:split_field': k_split}, {'re.compile': m_compile}, dict({'replace_model': replace_hook(maps)}, **(opts or {})))
    del e.contracts[FM + ':escape']
    e.overrides = dict(e.overrides)
    e.overrides['sql_parsing.keywords:RESERVED'] = lambda e: Opaque('RESERVED', {'parse_string': Builtin('parse_string', m_keyword)})
    ctx.assume('a reserved word is one RESERVED of sql_parsing/keywords.py accepts; identifiers are within the Basic Multilingual Plane (MySQL allows no others)')
    return e


def t_identifier_part(ctx):
    """escape() on a name of one part"""
    maps = Maps()
    e = id_engine(ctx, maps)
    e.contracts['dots:split_field'] = lambda e, f, a, k: e.alloc(LObj([Elem(a[0])]))
    f = ctx.func(e, FM, 'Formatter.dispatch')
    for n in ('escape', 'should_quote', 'is_keyword'):
        ctx.func(e, FM, n)

    def run():
        x = Sym('str', z3.Const('name', S))
        return x.t, e.outcomes(lambda: e.inline(f, [fmt(e), x], {}))

    def onp(src, r):
        if r[0] != 'ok':
            e.fail('every identifier is written', 'raises %r' % (e.obj(r[1]).cls,))
            return
        t = e.str_term(e.resolve(r[1]))
        if e.must(t == src):
            ctx.cover('as it is')
            e.oblige('an identifier without quotes is * or a plain word', z3.Or(src == z3.StringVal('*'), z3.InRe(src, plain_word())))
            e.oblige('an identifier without quotes is no reserved word', z3.Or(src == z3.StringVal('*'), z3.Not(KEYW(src))))
            return
        m = quoted_by(e, maps, r[1], src, '`')
        if m is None:
            if all(z3.is_string_value(x) or (z3.is_const(x) and (x.eq(src) or x.decl().name() in maps.of)) for x in pieces(z3.simplify(t))):
                e.fail('an identifier is quoted by back quotes', str(t)[:200])
                return
            raise Unsupported('how the identifier is quoted')
        e.ok('an identifier is quoted by back quotes')
        ctx.cover('quoted')
        e.oblige('the * of SELECT * is not quoted', src != z3.StringVal('*'))
        for c in sorted(set(m) | {'`'}):
            nm = 'the character %r of a quoted identifier is read back as itself' % c
            w = m.get(c, c)
            (e.ok if w == '``' and c == '`' or w == c and c != '`' else lambda n: e.fail(n, 'it is written %r' % w))(nm)
    ctx.explore(e, FM + ':escape (one part)', run, onp)


PART = z3.Function('identifier_part', S, S)


def t_identifier_dots(ctx):
    """escape() on a dotted name: part by part"""
    maps = Maps()
    e = id_engine(ctx, maps, {'replace_model': lambda e, o, a, b: Sym('str', z3.Function('doubled', S, S, S, S)(e.str_term(o), e.str_term(a), e.str_term(b)))})
    f = ctx.func(e, FM, 'Formatter.dispatch')
    G = lambda n: e.get_global('refspec.ident', n)
    SQ = z3.Function('should_quote', S, B)
    e.contracts[FM + ':should_quote'] = lambda e, f, a, k: e.norm(Sym('bool', SQ(e.str_term(e.resolve(a[0])))))
    e.externals['ghost.field_parts'] = lambda e, a, k: k_split(e, None, a, k)
    e.externals['ghost.should_quote'] = lambda e, a, k: e.norm(Sym('bool', SQ(e.str_term(e.resolve(a[0])))))

    def run():
        x = Sym('str', z3.Const('name', S))
        return None, (e.outcomes(lambda: e.inline(f, [fmt(e), x], {})), e.outcomes(lambda: e.call(G('dotted'), [x], {})))

    def onp(c, rw):
        r, w = rw
        if r[0] != 'ok' or w[0] != 'ok':
            e.fail('every identifier is written', 'raises')
            return
        ctx.cover('written')
        e.prove_eq('a dotted name is quoted part by part', r[1], w[1])
    ctx.explore(e, FM + ':escape (dotted)', run, onp)


def t_mysql_quotes(ctx):
    """the rewriter prints its statements with MySQL's identifier quotes"""
    from specs import rewriting as rw
    for kind in ('select', 'delete'):
        def json(e, kind=kind):
            if kind == 'delete':
                return dct(e, ('delete', 't'))
            return dct(e, ('select', '*'), ('from', 't'))
        e = rw.rw_engine(ctx, json)

        def fmt_(e, f, a, k):
            e.setghost('kwargs', (len(a), dict(k)))
            return Sym('str', e.fresh(S, 'sql'))
        e.contracts['sql_parsing:format'] = fmt_
        ctx.func(e, rw.RW, 'Rewriter.rewrite_query')

        def run():
            rw.metas(e, 't')
            return None, e.outcomes(lambda: e.call(e.getattr_(rw.rewriter(e), 'rewrite_query'), ['sql'], {}))

        def onp(c, r):
            if r[0] != 'ok' or 'kwargs' not in e.st.ghost:
                return
            ctx.cover('printed')
            n, k = e.st.ghost['kwargs']
            e.prove_eq('statements are printed with back quotes', k.get('ansi_quotes', True), False)
        ctx.explore(e, rw.RW + ':Rewriter.rewrite_query', run, onp)


C18 = [('text literal', t_text_literal('direct')), ('text literal in an expression', t_text_literal('dispatched')), ('other literals', t_other_literals), ('rows', t_rows),
       ('identifier part', t_identifier_part), ('identifier dots', t_identifier_dots), ('quotes', t_mysql_quotes)]
