"""Decision procedure for regular expressions of Python over words of any length: which texts a pattern matches and what its groups capture.

A pattern is read by Python's own parser and becomes a nondeterministic automaton over characters; each consuming transition carries the groups that
are open there.  Texts are described by such automata too, with named groups for their parts.  All questions are emptiness questions of products,
decided by exhaustive search of the product (no bound on the length).  Characters no pattern or description tells apart are represented by one."""
import re
try:
    from re import _parser as sp, _constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc

ALPHA = [chr(i) for i in range(1, 128)] + ['\xe9', '\u4e2d', '\u0663', '\xa0', '\u2603']


class TooHard(Exception):
    pass


def isword(c):
    return c == '_' or c.isalnum()


CAT = {sc.CATEGORY_DIGIT: lambda c: c.isdecimal(), sc.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(), sc.CATEGORY_SPACE: lambda c: c.isspace(),
       sc.CATEGORY_NOT_SPACE: lambda c: not c.isspace(), sc.CATEGORY_WORD: isword, sc.CATEGORY_NOT_WORD: lambda c: not isword(c)}


def asciiword(c):
    return c < '\x80' and isword(c)


ACAT = {sc.CATEGORY_DIGIT: lambda c: c in '0123456789', sc.CATEGORY_NOT_DIGIT: lambda c: c not in '0123456789', sc.CATEGORY_SPACE: lambda c: c in ' \t\n\r\x0b\x0c',
        sc.CATEGORY_NOT_SPACE: lambda c: c not in ' \t\n\r\x0b\x0c', sc.CATEGORY_WORD: asciiword, sc.CATEGORY_NOT_WORD: lambda c: not asciiword(c)}


class Auto:
    def __init__(self, pattern, flags=0, full=False):
        self.pattern = pattern
        tree = sp.parse(pattern, flags)
        st = getattr(tree, 'state', None) or tree.pattern
        self.flags = st.flags
        if self.flags & (re.M | re.L):
            raise TooHard('flags of the pattern')
        self.word = asciiword if self.flags & re.A else isword
        self.names = dict(st.groupdict)
        self.ngroups = st.groups - 1
        for o in self.lits(tree):
            if o not in ALPHA:
                ALPHA.append(o)
        self.eps = []        # per state: [(target, condition)]
        self.mv = []         # per state: [(set, labels, target)]
        self.final = self.new()          # accepts at the end only
        self.loop = self.new()           # accepts anything that follows
        self.nl = self.new()             # the newline $ looks over
        self.eps[self.loop].append((self.final, None))
        self.loopset = None
        self.optional = {}               # group -> it may be None
        self.empty = {}                  # group -> it can match the empty text
        ops = list(tree)
        if full:
            if ops and ops[-1] == (sc.AT, sc.AT_END):
                ops.pop()
            ops.append((sc.AT, sc.AT_END_STRING))
        self.start = self.new()
        alts = self.expand(ops)
        for a in alts:
            s = self.new()
            self.eps[self.start].append((s, None))
            self.build(a, s, self.loop, frozenset(), False)
        self._cl = {}

    def lits(self, t):
        if isinstance(t, sp.SubPattern):
            for x in t:
                yield from self.lits(x)
        elif isinstance(t, (list, tuple)):
            if len(t) == 2 and t[0] in (sc.LITERAL, sc.NOT_LITERAL) and isinstance(t[1], int):
                yield chr(t[1])
                return
            for x in t:
                yield from self.lits(x)

    def new(self):
        self.eps.append([])
        self.mv.append([])
        return len(self.eps) - 1

    # back references to groups with finitely many texts: one alternative per text
    def expand(self, ops):
        refs = set()

        def find(t):
            if isinstance(t, sp.SubPattern):
                t = list(t)
            if isinstance(t, (list, tuple)):
                if len(t) == 2 and t[0] == sc.GROUPREF:
                    refs.add(t[1])
                    return
                for x in t:
                    find(x)
        find(ops)
        if not refs:
            return [ops]
        if len(refs) > 1:
            raise TooHard('several back references')
        g = refs.pop()
        for i, (o, a) in enumerate(ops):
            if o == sc.SUBPATTERN and a[0] == g:
                body = list(a[3])
                if len(body) == 1 and body[0][0] == sc.BRANCH:
                    ch = [list(x) for x in body[0][1][1]]
                else:
                    ch = [body]
                out = []
                for c in ch:
                    if any(o2 not in (sc.LITERAL, sc.AT) for o2, _ in c):
                        raise TooHard('back reference')
                    lit = [(o2, a2) for o2, a2 in c if o2 == sc.LITERAL]

                    def sub(t):
                        r = []
                        for o2, a2 in t:
                            if o2 == sc.GROUPREF:
                                r += lit
                            elif o2 in (sc.SUBPATTERN, sc.BRANCH, sc.MAX_REPEAT, sc.MIN_REPEAT):
                                f2 = []

                                def chk(u):
                                    if isinstance(u, sp.SubPattern):
                                        u = list(u)
                                    if isinstance(u, (list, tuple)):
                                        if len(u) == 2 and u[0] == sc.GROUPREF:
                                            f2.append(1)
                                        else:
                                            for x in u:
                                                chk(x)
                                chk(a2)
                                if f2:
                                    raise TooHard('nested back reference')
                                r.append((o2, a2))
                            else:
                                r.append((o2, a2))
                        return r
                    out.append(ops[:i] + [(sc.SUBPATTERN, (g, 0, 0, c))] + sub(ops[i + 1:]))
                return out
        raise TooHard('back reference')

    def cset(self, o, a):
        ic = bool(self.flags & re.I)

        def one(o, a):
            if o == sc.LITERAL:
                x = chr(a)
                return (lambda c: c == x) if not ic else (lambda c: c.lower() == x.lower())
            if o == sc.NOT_LITERAL:
                f = one(sc.LITERAL, a)
                return lambda c: not f(c)
            if o == sc.ANY:
                return (lambda c: True) if self.flags & re.S else (lambda c: c != '\n')
            if o == sc.RANGE:
                lo, hi = a
                return (lambda c: lo <= ord(c) <= hi) if not ic else (lambda c: lo <= ord(c.lower()) <= hi or lo <= ord(c.upper()[:1]) <= hi)
            if o == sc.CATEGORY:
                return (lambda c: ACAT[a](c)) if self.flags & re.A else CAT[a]
            if o == sc.IN:
                neg = a and a[0][0] == sc.NEGATE
                fs = [one(x, y) for x, y in (a[1:] if neg else a)]
                return (lambda c: not any(f(c) for f in fs)) if neg else (lambda c: any(f(c) for f in fs))
            raise TooHard(str(o))
        f = one(o, a)
        return frozenset(c for c in ALPHA if f(c))

    def build(self, ops, s, t, lab, opt):
        for i, (o, a) in enumerate(ops):
            n = t if i == len(ops) - 1 else self.new()
            if o in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
                self.mv[s].append((self.cset(o, a), lab, n))
            elif o == sc.SUBPATTERN:
                g, add, dele, p = a
                if add or dele:
                    raise TooHard('local flags')
                if g is not None:
                    self.optional[g] = opt
                    self.empty[g] = self.minw(p) == 0
                self.build(list(p), s, n, lab | {g} if g is not None else lab, opt)
            elif o == sc.BRANCH:
                for p in a[1]:
                    self.build(list(p), s, n, lab, True)
            elif o in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, p = a
                p = list(p)
                if self.hasgroup(p) and (hi == sc.MAXREPEAT or hi > 1):
                    raise TooHard('a group that repeats')
                if lo > 40 or (hi != sc.MAXREPEAT and hi > 40):
                    raise TooHard('large repeat')
                cur = s
                for _ in range(lo):
                    m = self.new()
                    self.build(p, cur, m, lab, opt)
                    cur = m
                if hi == sc.MAXREPEAT:
                    m = self.new()
                    self.eps[cur].append((m, None))
                    m2 = self.new()
                    self.build(p, m, m2, lab, True)
                    self.eps[m2].append((m, None))
                    self.eps[m].append((n, None))
                else:
                    self.eps[cur].append((n, None))
                    for _ in range(hi - lo):
                        m = self.new()
                        self.build(p, cur, m, lab, True)
                        self.eps[m].append((n, None))
                        cur = m
            elif o == sc.AT:
                if a in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                    self.eps[s].append((n, 'b' if a == sc.AT_BOUNDARY else 'B'))
                elif a in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                    self.eps[s].append((n, '^'))
                elif a == sc.AT_END_STRING:
                    self.eps[s].append((n, 'Z'))
                elif a == sc.AT_END:
                    if n != self.loop:
                        raise TooHard('$ inside a pattern')
                    self.eps[s].append((n, 'Z'))
                    self.eps[s].append((self.nl, None))
                else:
                    raise TooHard(str(a))
            elif o in (sc.ASSERT, sc.ASSERT_NOT):
                d, p = a
                p = list(p)
                if len(p) != 1 or p[0][0] not in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
                    raise TooHard('look-around')
                self.eps[s].append((n, ('ahead' if d > 0 else 'behind', o == sc.ASSERT, self.cset(*p[0]))))
            else:
                raise TooHard(str(o))
            s = n
        if not ops:
            self.eps[s].append((t, None))

    def hasgroup(self, p):
        return any(o == sc.SUBPATTERN and (a[0] is not None or self.hasgroup(list(a[3]))) or
                   o == sc.BRANCH and any(self.hasgroup(list(x)) for x in a[1]) or
                   o in (sc.MAX_REPEAT, sc.MIN_REPEAT) and self.hasgroup(list(a[2])) for o, a in p)

    def minw(self, p):
        n = 0
        for o, a in p:
            if o in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
                n += 1
            elif o == sc.SUBPATTERN:
                n += self.minw(list(a[3]))
            elif o == sc.BRANCH:
                n += min(self.minw(list(x)) for x in a[1])
            elif o in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                n += a[0] * self.minw(list(a[2]))
        return n

    # prev: character before, or None at the start; nxt: character after, or None at the end
    def closure(self, q, prev, nxt):
        k = (q, prev, nxt)
        if k in self._cl:
            return self._cl[k]
        seen, todo = {q}, [q]
        pw = prev is not None and self.word(prev)
        nw = nxt is not None and self.word(nxt)
        while todo:
            x = todo.pop()
            for t, c in self.eps[x]:
                if c is None:
                    ok = True
                elif c == 'b':
                    ok = pw != nw
                elif c == 'B':
                    ok = pw == nw
                elif c == '^':
                    ok = prev is None
                elif c == 'Z':
                    ok = nxt is None
                else:
                    side, pos, cs = c
                    z = nxt if side == 'ahead' else prev
                    ok = (z is not None and z in cs) == pos
                if ok and t not in seen:
                    seen.add(t)
                    todo.append(t)
        r = self._cl[k] = frozenset(seen)
        return r

    def moves(self, q, prev, c):
        """[(labels, target)] of reading c"""
        out = []
        for x in self.closure(q, prev, c):
            if x == self.loop:
                out.append((frozenset(), self.loop))
            if x == self.nl and c == '\n':
                out.append((frozenset(), self.final))
            for cs, lab, t in self.mv[x]:
                if c in cs:
                    out.append((lab, t))
        return out

    def accepts(self, q, prev):
        return self.final in self.closure(q, prev, None)

    # sets of states
    def sstep(self, Q, prev, c):
        return frozenset(t for q in Q for _, t in self.moves(q, prev, c))

    def saccepts(self, Q, prev):
        return any(self.accepts(q, prev) for q in Q)


def classes(autos):
    """one character for each class of characters the automata do not tell apart"""
    sig = {}
    sets = []
    for a in autos:
        for m in a.mv:
            sets += [cs for cs, _, _ in m]
        for es in a.eps:
            sets += [c[2] for _, c in es if isinstance(c, tuple)]
    sets = list(dict.fromkeys(sets))
    for c in ALPHA:
        k = (isword(c), asciiword(c), c == '\n', tuple(c in s for s in sets))
        sig.setdefault(k, c)
    return list(sig.values())


def prevkey(autos):
    """the characters before a position that need to be told apart"""
    sets = list(dict.fromkeys(c[2] for a in autos for es in a.eps for _, c in es if isinstance(c, tuple) and c[0] == 'behind'))
    rep = {}
    return {c: rep.setdefault((isword(c), asciiword(c), tuple(c in s for s in sets)), c) for c in ALPHA}


class Lang:
    """texts of a description (an automaton), with conditions (automaton, accepted or not) collected on the way"""

    def __init__(self, base, conds=()):
        self.base, self.conds = base, tuple(conds)

    def also(self, a, pos):
        return Lang(self.base, self.conds + ((a, pos),))

    def witness(self, track=None, group=None, field=None, labels=False):
        """a text of the language; with track: one with an accepting run of track in which the characters of its group differ from
        those of the field of the description"""
        cs = [a for a, _ in self.conds]
        letters = classes([self.base] + cs + ([track] if track else []))
        pk = prevkey([self.base] + cs + ([track] if track else []))
        init = (self.base.start, tuple(frozenset([a.start]) for a in cs), track.start if track else None, False, None)
        back = {init: None}
        todo = [init]
        while todo:
            nxt = []
            for st in todo:
                b, Q, t, bad, prev = st
                if (bad or track is None or group is None) and self.base.accepts(b, prev) and \
                        all(a.saccepts(q, prev) == pos for (a, pos), q in zip(self.conds, Q)) and (track is None or track.accepts(t, prev)):
                    w, x = [], st
                    while back[x] is not None:
                        w.append((back[x][1], back[x][2]))
                        x = back[x][0]
                    w = w[::-1]
                    return w if labels else ''.join(c for c, _ in w)
                for c in letters:
                    bm = self.base.moves(b, prev, c)
                    if not bm:
                        continue
                    Q2 = tuple(a.sstep(q, prev, c) for a, q in zip(cs, Q))
                    if any(pos and not q2 for (_, pos), q2 in zip(self.conds, Q2)):
                        continue
                    tm = track.moves(t, prev, c) if track else [(frozenset(), None)]
                    for bl, b2 in bm:
                        for tl, t2 in tm:
                            bad2 = bad or (group is not None and (group in tl) != (field in bl))
                            n = (b2, Q2, t2, bad2, pk[c])
                            if n not in back:
                                back[n] = (st, c, bl)
                                nxt.append(n)
            if len(back) > 400000:
                raise TooHard('too many states')
            todo = nxt
        return None
