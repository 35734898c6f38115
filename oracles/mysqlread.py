"""An independent reader of the MySQL text the proxy generates (lexical rules and operator precedence of the MySQL manual,
sql_mode without ANSI_QUOTES / NO_BACKSLASH_ESCAPES).  It shares nothing with the repository's parsers.

Expressions: ['col', part, ...] ['str', s] ['num', 'p/q'] ['null'] ['bool', b] ['call', NAME, args...] ['star'] and [op, operands...]
with op from OPNAMES; and/or/add/mul are flattened.
"""
from fractions import Fraction

ESC = {'0': '\0', "'": "'", '"': '"', 'b': '\b', 'n': '\n', 'r': '\r', 't': '\t', 'Z': '\x1a', '\\': '\\'}
RES = set('''ALL ALTER AND AS ASC BETWEEN BY CASE COLLATE CONSTRAINT CREATE CROSS DEFAULT DELETE DESC DISTINCT DROP ELSE EXISTS FALSE FOREIGN FROM
GROUP HAVING IN INDEX INNER INSERT INTERVAL INTO IS JOIN KEY LEFT LIKE LIMIT NOT NULL ON OR ORDER OUTER PRIMARY REFERENCES REGEXP RIGHT RLIKE
SELECT SET TABLE THEN TRUE UNION UNIQUE UPDATE USING VALUES WHEN WHERE WITH XOR DIV MOD'''.split())


class Bad(Exception):
    pass


def lex(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in ' \t\r\n':
            i += 1
            continue
        if c == '#' or s.startswith('--', i) and (i + 2 >= n or s[i + 2] in ' \t\n\r') or s.startswith('/*', i):
            raise Bad('a comment starts at %r' % s[i:i + 30])
        if c in '\'"':
            j = i + 1
            b = []
            while True:
                if j >= n:
                    raise Bad('unterminated string at %r' % s[i:i + 40])
                d = s[j]
                if d == '\\':
                    if j + 1 >= n:
                        raise Bad('unterminated string')
                    e = s[j + 1]
                    b.append(ESC.get(e, '\\' + e if e in '%_' else e))
                    j += 2
                elif d == c:
                    if s[j + 1:j + 2] == c:
                        b.append(c)
                        j += 2
                    else:
                        break
                else:
                    b.append(d)
                    j += 1
            out.append(('str', ''.join(b)))
            i = j + 1
            continue
        if c == '`':
            j = i + 1
            b = []
            while True:
                if j >= n:
                    raise Bad('unterminated identifier')
                if s[j] == '`':
                    if s[j + 1:j + 2] == '`':
                        b.append('`')
                        j += 2
                        continue
                    break
                b.append(s[j])
                j += 1
            if not b:
                raise Bad('empty identifier')
            out.append(('qid', ''.join(b)))
            i = j + 1
            continue
        if c.isdigit() and c.isascii() or c == '.' and s[i + 1:i + 2].isdigit() and not (out and out[-1][0] in ('id', 'qid')):
            j = i
            while j < n and s[j].isdigit():
                j += 1
            if j < n and s[j] == '.':
                j += 1
                while j < n and s[j].isdigit():
                    j += 1
            if j < n and s[j] in 'eE':
                k = j + 1
                if k < n and s[k] in '+-':
                    k += 1
                if k < n and s[k].isdigit():
                    while k < n and s[k].isdigit():
                        k += 1
                    j = k
            if j < n and (s[j].isalpha() or s[j] in '_$'):
                while j < n and (s[j].isalnum() or s[j] in '_$'):
                    j += 1
                out.append(('id', s[i:j]))
            else:
                out.append(('num', s[i:j]))
            i = j
            continue
        if c.isalpha() or c in '_$@' or ord(c) >= 128:
            j = i
            while j < n and (s[j].isalnum() or s[j] in '_$@' or ord(s[j]) >= 128):
                j += 1
            out.append(('id', s[i:j]))
            i = j
            continue
        for op in ('<=>', ':=', '<=', '>=', '<>', '!=', '||', '&&', '<<', '>>'):
            if s.startswith(op, i):
                break
        else:
            op = c
            if c not in '(),.+-*/%=<>!&|^~;':
                raise Bad('unexpected character %r' % c)
        out.append(('op', op))
        i += len(op)
    return out


CMP = {'=': 'eq', '<>': 'neq', '!=': 'neq', '<': 'lt', '<=': 'lte', '>': 'gt', '>=': 'gte', '<=>': 'nseq'}
FLAT = ('and', 'or', 'add', 'mul')


def flat(t):
    if not isinstance(t, list) or not t:
        return t
    if t[0] in ('str', 'col', 'num', 'null', 'bool', 'star'):
        return t
    if t[0] in ('call', 'cast'):
        return t[:2] + [flat(x) for x in t[2:]]
    args = [flat(x) for x in t[1:]]
    if t[0] in FLAT:
        r = []
        for x in args:
            if isinstance(x, list) and x and x[0] == t[0]:
                r += x[1:]
            else:
                r.append(x)
        args = r
    return [t[0]] + args


class P:
    def __init__(self, s):
        self.t = lex(s) if isinstance(s, str) else s
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def isop(self, *ops):
        k, v = self.peek()
        return k == 'op' and v in ops

    def iskw(self, *ws):
        k, v = self.peek()
        return k == 'id' and v.upper() in ws

    def op(self, o):
        if not self.isop(o):
            raise Bad('expected %r, found %r' % (o, self.peek()))
        self.i += 1

    def kw(self, *ws):
        for w in ws:
            if not self.iskw(w):
                raise Bad('expected %s, found %r' % (w, self.peek()))
            self.i += 1

    def end(self):
        if self.isop(';'):
            self.i += 1
        if self.peek()[0] != 'eof':
            raise Bad('unexpected %r after the statement' % (self.peek(),))

    def ident(self):
        k, v = self.peek()
        if k == 'qid' or k == 'id' and v.upper() not in RES:
            self.i += 1
            return v
        raise Bad('expected a name, found %r' % (self.peek(),))

    def name(self):
        r = [self.ident()]
        while self.isop('.'):
            self.i += 1
            if self.peek()[0] == 'id' or self.peek()[0] == 'qid':
                r.append(self.next()[1])
            else:
                raise Bad('expected a name after the dot')
        return r

    # ---- expressions
    def expr(self):
        return flat(self.e_or())

    def e_or(self):
        x = self.e_xor()
        while self.iskw('OR') or self.isop('||'):
            self.i += 1
            x = ['or', x, self.e_xor()]
        return x

    def e_xor(self):
        x = self.e_and()
        while self.iskw('XOR'):
            self.i += 1
            x = ['xor', x, self.e_and()]
        return x

    def e_and(self):
        x = self.e_not()
        while self.iskw('AND') or self.isop('&&'):
            self.i += 1
            x = ['and', x, self.e_not()]
        return x

    def e_not(self):
        if self.iskw('NOT'):
            self.i += 1
            return ['not', self.e_not()]
        return self.e_cmp()

    def e_cmp(self):
        x = self.e_pred()
        while True:
            if self.peek()[0] == 'op' and self.peek()[1] in CMP:
                o = CMP[self.next()[1]]
                x = [o, x, self.e_pred()]
            elif self.iskw('IS'):
                self.i += 1
                neg = False
                if self.iskw('NOT'):
                    self.i += 1
                    neg = True
                if self.iskw('NULL'):
                    self.i += 1
                    x = ['exists' if neg else 'missing', x]
                elif self.iskw('TRUE', 'FALSE'):
                    x = ['is_not' if neg else 'is', x, ['bool', self.next()[1].upper() == 'TRUE']]
                else:
                    raise Bad('IS what?')
            else:
                return x

    def e_pred(self):
        x = self.e_bor()
        neg = ''
        if self.iskw('NOT') and self.peek(1)[0] == 'id' and self.peek(1)[1].upper() in ('LIKE', 'IN', 'BETWEEN', 'RLIKE', 'REGEXP'):
            self.i += 1
            neg = 'not_'
        if self.iskw('LIKE'):
            self.i += 1
            y = self.e_unary()
            return [neg + 'like', x, y]
        if self.iskw('RLIKE', 'REGEXP'):
            self.i += 1
            return [neg + 'rlike', x, self.e_bor()]
        if self.iskw('BETWEEN'):
            self.i += 1
            a = self.e_bor()
            self.kw('AND')
            b = self.e_pred()
            return [neg + 'between', x, a, b]
        if self.iskw('IN'):
            self.i += 1
            self.op('(')
            r = [self.expr()]
            while self.isop(','):
                self.i += 1
                r.append(self.expr())
            self.op(')')
            return ['nin' if neg else 'in', x] + r
        if neg:
            raise Bad('NOT without a predicate')
        return x

    def binl(self, sub, table):
        x = sub()
        while True:
            k, v = self.peek()
            u = v.upper() if k == 'id' else v
            if k in ('op', 'id') and u in table:
                self.i += 1
                x = [table[u], x, sub()]
            else:
                return x

    def e_bor(self):
        return self.binl(self.e_band, {'|': 'binary_or'})

    def e_band(self):
        return self.binl(self.e_shift, {'&': 'binary_and'})

    def e_shift(self):
        return self.binl(self.e_add, {'<<': 'shl', '>>': 'shr'})

    def e_add(self):
        return self.binl(self.e_mul, {'+': 'add', '-': 'sub'})

    def e_mul(self):
        return self.binl(self.e_xorb, {'*': 'mul', '/': 'div', '%': 'mod', 'MOD': 'mod', 'DIV': 'idiv'})

    def e_xorb(self):
        return self.binl(self.e_unary, {'^': 'bitxor'})

    def e_unary(self):
        if self.isop('-'):
            self.i += 1
            x = self.e_unary()
            if x[0] == 'num':
                return ['num', str(-Fraction(x[1]))]
            return ['neg', x]
        if self.isop('+'):
            self.i += 1
            return self.e_unary()
        if self.isop('~'):
            self.i += 1
            return ['binary_not', self.e_unary()]
        if self.isop('!'):
            self.i += 1
            return ['not', self.e_unary()]
        return self.primary()

    def primary(self):
        k, v = self.peek()
        if k == 'str':
            self.i += 1
            while self.peek()[0] == 'str':      # adjacent strings are one
                v += self.next()[1]
            return ['str', v]
        if k == 'num':
            self.i += 1
            return ['num', str(Fraction(v))]
        if self.isop('('):
            self.i += 1
            x = self.expr()
            if self.isop(','):
                r = ['row', x]
                while self.isop(','):
                    self.i += 1
                    r.append(self.expr())
                x = r
            self.op(')')
            return x
        if self.isop('*'):
            self.i += 1
            return ['star']
        if k == 'id' and v.upper() in ('NULL', 'TRUE', 'FALSE'):
            self.i += 1
            return ['null'] if v.upper() == 'NULL' else ['bool', v.upper() == 'TRUE']
        if k == 'id' and v.upper() == 'CASE':
            self.i += 1
            r = ['case']
            while self.iskw('WHEN'):
                self.i += 1
                r.append(self.expr())
                self.kw('THEN')
                r.append(self.expr())
            if self.iskw('ELSE'):
                self.i += 1
                r.append(['else', self.expr()])
            self.kw('END')
            return r
        if k == 'id' and self.peek(1) == ('op', '('):
            self.i += 2
            r = ['call', v.upper()]
            if self.iskw('DISTINCT'):
                self.i += 1
                r[1] += ' DISTINCT'
            if not self.isop(')'):
                r.append(self.expr())
                while self.isop(','):
                    self.i += 1
                    r.append(self.expr())
            self.op(')')
            return r
        nm = self.name_or_star()
        return ['col'] + nm

    def name_or_star(self):
        r = [self.ident()]
        while self.isop('.'):
            self.i += 1
            if self.isop('*'):
                self.i += 1
                r.append('*')
                return r
            if self.peek()[0] in ('id', 'qid'):
                r.append(self.next()[1])
            else:
                raise Bad('expected a name after the dot')
        return r

    # ---- statements
    def clist(self, f):
        r = [f()]
        while self.isop(','):
            self.i += 1
            r.append(f())
        return r

    def statement(self):
        k, v = self.peek()
        u = v.upper() if k == 'id' else ''
        f = {'INSERT': self.insert, 'UPDATE': self.update, 'DELETE': self.delete, 'SELECT': self.select, 'DROP': self.drop}.get(u)
        if f is None:
            raise Bad('unknown statement %r' % v)
        r = f()
        self.end()
        return r

    def par_names(self):
        self.op('(')
        r = self.clist(self.name)
        self.op(')')
        return r

    def par_exprs(self):
        self.op('(')
        r = self.clist(self.expr)
        self.op(')')
        return r

    def insert(self):
        self.kw('INSERT', 'INTO')
        t = self.name()
        cols = self.par_names()
        self.kw('VALUES')
        rows = self.clist(self.par_exprs)
        return {'k': 'insert', 'table': t, 'cols': cols, 'rows': rows}

    def tail(self, r):
        if self.iskw('WHERE'):
            self.i += 1
            r['where'] = self.expr()
        if self.iskw('GROUP'):
            self.i += 1
            self.kw('BY')
            r['group'] = self.clist(self.expr)
        if self.iskw('HAVING'):
            self.i += 1
            r['having'] = self.expr()
        if self.iskw('ORDER'):
            self.i += 1
            self.kw('BY')

            def one():
                e = self.expr()
                d = 'asc'
                if self.iskw('ASC', 'DESC'):
                    d = self.next()[1].lower()
                return [e, d]
            r['order'] = self.clist(one)
        if self.iskw('LIMIT'):
            self.i += 1
            r['limit'] = self.clist(self.expr)
            if self.iskw('OFFSET'):
                self.i += 1
                r['offset'] = self.expr()
        return r

    def update(self):
        self.kw('UPDATE')
        t = self.name()
        self.kw('SET')

        def one():
            c = self.name()
            self.op('=')
            return [c, self.expr()]
        sets = self.clist(one)
        return self.tail({'k': 'update', 'table': t, 'set': sets})

    def delete(self):
        self.kw('DELETE', 'FROM')
        return self.tail({'k': 'delete', 'table': self.name()})

    def drop(self):
        self.kw('DROP', 'TABLE')
        return {'k': 'drop', 'table': self.name()}

    def item(self):
        e = self.expr()
        a = None
        if self.iskw('AS'):
            self.i += 1
            a = self.next()[1]
        return [e, a]

    def select(self):
        self.kw('SELECT')
        d = False
        if self.iskw('DISTINCT'):
            self.i += 1
            d = True
        items = self.clist(self.item)
        r = {'k': 'select', 'distinct': d, 'items': items}
        if self.iskw('FROM'):
            self.i += 1
            r['from'] = self.name()
        return self.tail(r)


def statement(s):
    return P(s).statement()


def expression(s):
    p = P(s)
    r = p.expr()
    p.end()
    return r
