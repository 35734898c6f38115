"""Decision procedure for functions on words built from str.replace / join / split with constant patterns.

A word function is a chain of left-to-right deterministic transducers over characters.  A list of texts is the word of its texts with SEP between
them, so ".".join is the replacement of SEP by "." and split(".") the replacement of "." by SEP.  Two functions are compared on every word of a
regular domain by exploring the product of all transducers together with the difference of their outputs: no bound on the length of the words."""

SEP = '\ue000'          # boundary between the texts of a list
OTHER = ('\ue001', '\ue002')  # any two characters no pattern mentions: str.replace treats all of them alike


class TooHard(Exception):
    pass


# an operation: ('rep', old, new) | ('rep1', old, new) first occurrence only | ('head',) text before the first SEP | ('rest',) after it
def start(op):
    return 0


def step(op, s, c):
    k = op[0]
    if k == 'rep' or k == 'rep1':
        old, new = op[1], op[2]
        if s == -1:
            return -1, c
        x = old[:s] + c
        if x == old:
            return (-1 if k == 'rep1' else 0), new
        for n in range(min(len(x), len(old) - 1), -1, -1):
            if x.endswith(old[:n]) if n else True:
                return n, x[:len(x) - n]
    if k == 'head':
        if s == 1 or c == SEP:
            return 1, ''
        return 0, c
    if k == 'rest':
        if s == 1:
            return 1, c
        return (1, '') if c == SEP else (0, '')
    raise TooHard(str(op))


def end(op, s):
    if op[0] in ('rep', 'rep1') and s > 0:
        return op[1][:s]
    return ''


def feed(fn, st, text):
    """text through the chain"""
    out = []
    for i, op in enumerate(fn):
        nxt = ''
        s = st[i]
        for c in text:
            s, w = step(op, s, c)
            nxt += w
        st[i] = s
        text = nxt
    return text


def finish(fn, st):
    text = ''
    for i, op in enumerate(fn):
        nxt = ''
        s = st[i]
        for c in text:
            s, w = step(op, s, c)
            nxt += w
        nxt += end(op, s)
        text = nxt
    return text


def apply(fn, word):
    st = [0] * len(fn)
    a = feed(fn, st, word)
    return a + finish(fn, st)


# conditions on the text a function gives: ('has', const) | ('eq', const) | ('starts', const) | ('empty',) | ('many',) a list of two or more
def cstart(c):
    return 0


def cstep(c, s, ch):
    k = c[0]
    if k == 'has':
        w = c[1]
        if s == len(w):
            return s
        x = w[:s] + ch
        for n in range(min(len(x), len(w)), -1, -1):
            if n == 0 or x.endswith(w[:n]):
                return n
    if k in ('eq', 'starts'):
        w = c[1]
        if s == -1:
            return -1
        if k == 'starts' and s == len(w):
            return s
        return s + 1 if s < len(w) and w[s] == ch else -1
    if k == 'ends':
        w = c[1]
        x = w[:s] + ch
        for n in range(min(len(x), len(w)), -1, -1):
            if n == 0 or x.endswith(w[:n]):
                return n
    if k == 'empty':
        return 1
    if k == 'many':
        return 1 if s or ch == SEP else 0
    raise TooHard(str(c))


def cholds(c, s):
    k = c[0]
    if k in ('has', 'eq', 'starts', 'ends'):
        return s == len(c[1])
    if k == 'empty':
        return s == 0
    if k == 'many':
        return s == 1
    raise TooHard(str(c))


class Domain:
    """lists of one or more non-empty names over the alphabet; `single`: exactly one; `ok(state, c)`: a further automaton on the names"""

    def __init__(self, alphabet, single=False, no_trailing=None):
        self.alphabet = [c for c in alphabet if c != SEP]
        self.single = single
        self.no_trailing = no_trailing

    def step(self, s, c):
        if c == SEP:
            if self.single or s == 0 or s == 2:
                return None
            return 0
        return 2 if c == self.no_trailing else 1

    def letters(self):
        return self.alphabet + ([] if self.single else [SEP])

    def accepts(self, s):
        return s == 1


def search(dom, conds, f=None, g=None, limit=400000):
    """a word of the domain on which every (fn, cond, bool) of conds holds and, when f and g are given, f and g differ; None when there is none"""
    init = (0, tuple((tuple([0] * len(fn)), 0) for fn, c, b in conds), (tuple([0] * len(f)), tuple([0] * len(g)), '', '', False) if f is not None else None)
    seen = {init}
    todo = [(init, '')]
    while todo:
        nxt = []
        for (d, cs, eq), word in todo:
            if dom.accepts(d) and accepted(conds, cs, f, g, eq):
                return word
            for ch in dom.letters():
                d2 = dom.step(d, ch)
                if d2 is None:
                    continue
                cs2 = []
                for (fn, c, b), (st, q) in zip(conds, cs):
                    st = list(st)
                    for x in feed(fn, st, ch):
                        q = cstep(c, q, x)
                    cs2.append((tuple(st), q))
                eq2 = None
                if eq is not None:
                    sf, sg, a, b_, bad = eq
                    sf, sg = list(sf), list(sg)
                    x, y = feed(f, sf, ch), feed(g, sg, ch)
                    if not bad:
                        a, b_ = a + x, b_ + y
                        n = 0
                        while n < len(a) and n < len(b_) and a[n] == b_[n]:
                            n += 1
                        a, b_ = a[n:], b_[n:]
                        if a and b_:
                            bad = True
                    if bad:
                        a = b_ = ''
                    if len(a) > 24 or len(b_) > 24:
                        raise TooHard('the two texts drift apart without end')
                    eq2 = (tuple(sf), tuple(sg), a, b_, bad)
                s2 = (d2, tuple(cs2), eq2)
                if s2 not in seen:
                    if len(seen) > limit:
                        raise TooHard('too many states')
                    seen.add(s2)
                    nxt.append((s2, word + ch))
        todo = nxt
    return None


def accepted(conds, cs, f, g, eq):
    for (fn, c, b), (st, q) in zip(conds, cs):
        for x in finish(fn, list(st)):
            q = cstep(c, q, x)
        if cholds(c, q) != b:
            return False
    if eq is None:
        return True
    sf, sg, a, b, bad = eq
    return bad or a + finish(f, list(sf)) != b + finish(g, list(sg))


def alphabet(fns, conds, extra=''):
    cs = set(OTHER) | set(extra)
    for fn in fns:
        for op in fn:
            for x in op[1:]:
                cs |= set(x)
    for c in conds:
        for x in c[1:]:
            cs |= set(x)
    cs.discard(SEP)
    return sorted(cs)


def show(word):
    return [x.replace(OTHER[0], 'x').replace(OTHER[1], 'y') for x in word.split(SEP)]
