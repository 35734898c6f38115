"""Structural equality obligations between a code value and a specification value."""
import z3

from .values import *
from .engine import Unsupported, NestedFlat, simp, zbool, is_z3, Obligation, Infeasible, CarriedRead


def undecided(e, name, why):
    e.obligations.append(Obligation(e.cur, name, 'unknown', 0.0, None, why, flags=tuple(sorted(e.st.flags))))
    return False


def prove_eq(e, name, a, b, why=''):
    try:
        return _eq(e, name, a, b, why)
    except Unsupported as u:
        return undecided(e, name, 'unsupported comparison: %s' % u)


def _eq(e, name, a, b, why):
    if isinstance(a, SV) and isinstance(b, SV):
        if a.t.eq(b.t):
            e.ok(name)
            return True
        if a.shape is None and b.shape is None:
            return e.oblige(name, a.t == b.t, why)
    if isinstance(a, SV) and a.shape is None and (b is None or isinstance(b, (bool, int, str, Sym))):
        return e.oblige(name, zbool(e.values_eq(a, b)), why)
    if isinstance(b, SV) and b.shape is None and (a is None or isinstance(a, (bool, int, str, Sym))):
        return e.oblige(name, zbool(e.values_eq(a, b)), why)
    a, b = e.resolve(a), e.resolve(b)
    ka, kb = e.kind(a), e.kind(b)
    num = ('int', 'bool', 'real')
    if ka in num and kb in num:
        if (ka == 'bool') != (kb == 'bool') and e.opts.get('strict_bool', True):
            return e.fail(name, '%s: %s where %s was specified' % (why, ka, kb))
        return e.oblige(name, zbool(e.values_eq(a, b)), '%s code=%r spec=%r' % (why, a, b))
    if ka != kb:
        if {ka, kb} == {'list', 'tuple'} and e.opts.get('seq_loose'):
            return eq_segs(e, name, e.to_segs(a), e.to_segs(b), why)
        return e.fail(name, '%s: %s (%r) where %s (%r) was specified' % (why, ka, a, kb, b))
    if ka == 'none':
        e.ok(name)
        return True
    if ka in ('str', 'bytes'):
        return eq_text(e, name, a, b, why)
    if ka in ('tuple', 'list'):
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            e.ok(name)
            return True
        return eq_segs(e, name, e.to_segs(a), e.to_segs(b), why)
    if ka == 'dict':
        return eq_dict(e, name, a, b, why)
    if ka == 'set':
        ea, eb = list(e.obj(a).elems), list(e.obj(b).elems)
        r = True
        for x in ea:
            r &= e.oblige(name, zbool(_orc([e.values_eq(x, y) for y in eb])), why + ' extra set element %r' % (x,))
        for x in eb:
            r &= e.oblige(name, zbool(_orc([e.values_eq(x, y) for y in ea])), why + ' missing set element %r' % (x,))
        return r
    if ka == 'obj':
        if a.id == b.id:
            e.ok(name)
            return True
        oa, ob = e.obj(a), e.obj(b)
        if oa.cls is not ob.cls and oa.cls != ob.cls:
            return e.fail(name, why + ': objects of different classes')
        r = True
        for k in sorted(set(oa.attrs) | set(ob.attrs)):
            if k not in oa.attrs or k not in ob.attrs:
                return e.fail(name, why + ': attribute ' + k)
            r &= _eq(e, name, oa.attrs[k], ob.attrs[k], why + '.' + k)
        return r
    if isinstance(a, SV) and isinstance(b, SV):
        return e.oblige(name, a.t == b.t, why)
    if a is b or a == b:
        e.ok(name)
        return True
    return e.fail(name, '%s: %r where %r was specified' % (why, a, b))


def _orc(cs):
    if any(c is True for c in cs):
        return True
    cs = [c for c in cs if c is not False]
    return z3.Or(*cs) if cs else False


def clean(e, segs):
    out = []
    for s in segs:
        if isinstance(s, Flat):
            if not s.cases:
                continue
            if all(len(c.pay) == 0 for c in s.cases):
                continue
            n = simp(s.n)
            if z3.is_int_value(n):
                for j in range(n.as_long()):
                    out += clean(e, e.enter_case(s, z3.IntVal(j)))
                continue
            if e.must(s.n <= 0):
                continue
            # drop cases that are impossible now?
            out.append(s)
        elif isinstance(s, Acc):
            raise CarriedRead(s.oid)
        else:
            out.append(s)
    return out


def eq_segs(e, name, sa, sb, why):
    sa, sb = clean(e, sa), clean(e, sb)
    r = True
    i = 0
    while sa or sb:
        if not sa or not sb:
            rest = sa or sb
            n = e.segs_len(rest)
            return e.oblige(name, e.num_term(n) == 0, '%s: %s elements' % (why, 'surplus' if sa else 'missing')) and r
        x, y = sa[0], sb[0]
        if isinstance(x, Elem) and isinstance(y, Elem):
            r &= _eq(e, name, x.v, y.v, '%s[%d]' % (why, i))
            sa, sb = sa[1:], sb[1:]
            i += 1
            continue
        if isinstance(x, Flat) and isinstance(y, Flat):
            if e.must(x.n == y.n):
                r &= eq_flat(e, name, x, y, why)
                sa, sb = sa[1:], sb[1:]
                i += 1
                continue
            if len(sa) == 1 and len(sb) == 1 and _const_width(x) and _const_width(x) == _const_width(y):
                return e.oblige(name, x.n == y.n, why + ': sequence lengths') and r
        # lengths must agree at least
        try:
            la, lb = e.segs_len(sa), e.segs_len(sb)
            if not e.oblige(name, e.num_term(la) == e.num_term(lb), why + ': sequence lengths'):
                return False
        except Unsupported:
            pass
        # case split on emptiness of leading parts, then peel
        for q, s in (('a', x), ('b', y)):
            if isinstance(s, Flat):
                if e.branch(s.n <= 0):
                    if q == 'a':
                        sa = sa[1:]
                    else:
                        sb = sb[1:]
                    break
        else:
            from .builtins_ import sub_flat

            def peel(sg):
                s = sg[0]
                if isinstance(s, Flat):
                    return clean(e, e.enter_case(s, z3.IntVal(0))) + [sub_flat(e, s, z3.IntVal(1), simp(s.n - 1))] + sg[1:]
                return sg
            if isinstance(x, Flat) and isinstance(y, Flat):
                return undecided(e, name, why + ': sequences built by differently shaped loops')
            e._peels = getattr(e, '_peels', 0) + 1
            if e._peels > 64:
                e._peels = 0
                return undecided(e, name, why + ': could not align sequences')
            sa, sb = peel(sa), peel(sb)
    return r


def _const_width(f):
    w = {len(c.pay) for c in f.cases if all(isinstance(s, Elem) for s in c.pay)}
    if len(w) == 1 and all(all(isinstance(s, Elem) for s in c.pay) for c in f.cases):
        return w.pop()
    return None


def eq_flat(e, name, x, y, why):
    k = e.kvar()
    ok = [True]
    idx0 = e.st.loopidx

    def run():
        e.st.loopidx = idx0 + (k,)
        e.assume(z3.And(k >= 0, k < x.n))
        ga = e.enter_case(x, k)
        gb = e.enter_case(y, k)
        rr = eq_segs(e, name, ga, gb, why + '{k}')
        return None, rr

    def onp(_, rr):
        ok[0] = ok[0] and rr
    e.explore(run, onp)
    return ok[0]


def eq_dict(e, name, a, b, why):
    if a.id == b.id:
        e.ok(name)
        return True
    oa, ob = e.obj(a), e.obj(b)
    if oa.base is not None and ob.base is not None and oa.base.eq(ob.base) and not (oa.ents or ob.ents or oa.absent or ob.absent):
        e.ok(name)
        return True
    conc_a = oa.base is None and all(isinstance(x, tuple) for x in oa.ents)
    conc_b = ob.base is None and all(isinstance(x, tuple) for x in ob.ents)
    if conc_a and conc_b:
        r = True
        for k, v in ob.ents:
            f, w = e.dict_lookup(a, k)
            if not f:
                r = e.fail(name, '%s: key %r missing' % (why, k)) and r
                continue
            r &= _eq(e, name, w, v, '%s[%r]' % (why, k))
        for k, v in oa.ents:
            f, w = e.dict_lookup(b, k)
            if not f:
                r = e.fail(name, '%s: key %r not specified' % (why, k)) and r
        return r
    if (conc_a and isinstance(ob.shape, DictT) and not ob.ents) or (conc_b and isinstance(oa.shape, DictT) and not oa.ents) or \
            (isinstance(oa.shape, DictT) and isinstance(ob.shape, DictT) and oa.base is not None and ob.base is not None):
        keys = []
        for o in (oa, ob):
            if o.base is not None:
                keys += list(o.shape.req) + list(o.shape.opt)
            keys += [x[0] for x in o.ents]
        r = True
        seen = []
        for k in keys:
            if any(type(q) is type(k) and isinstance(q, str) and q == k for q in seen):
                continue
            seen.append(k)
            fa, va = e.dict_lookup(a, k)
            fb, vb = e.dict_lookup(b, k)
            if fa != fb:
                r = e.fail(name, '%s: key %r %s' % (why, k, 'not specified' if fa else 'missing')) and r
                continue
            if fa:
                r &= _eq(e, name, va, vb, '%s[%r]' % (why, k))
        return r
    # symbolic maps: same base and entry segments in the same order
    same_base = (oa.base is None and ob.base is None) or (oa.base is not None and ob.base is not None and oa.base.eq(ob.base))
    if same_base and not oa.absent and not ob.absent:
        return eq_segs(e, name, [to_elem(x) for x in oa.ents], [to_elem(x) for x in ob.ents], why + ' (entries)')
    # one is a symbolic map, the other a copy made by iteration
    if not oa.absent and not ob.absent:
        sa = dict_segs(e, a)
        sb = dict_segs(e, b)
        return eq_segs(e, name, sa, sb, why + ' (entries)')
    return undecided(e, name, why + ': symbolic dictionaries')


def to_elem(x):
    return Elem((x[0], x[1])) if isinstance(x, tuple) else x


def dict_segs(e, r):
    o = e.obj(r)
    if o.base is None:
        return [to_elem(x) for x in o.ents]
    out = []
    base = e.alloc(DObj(o.base, o.shape))
    for c in e.dict_items(base):
        if c[0] == 's':
            out.append(e.flat_from_chunk(c[1], c[2]))
        else:
            out += [Elem(x) for x in (c[1] if c[0] == 'c' else c[1]())]
    return out + [to_elem(x) for x in o.ents]


def text_parts(e, v):
    if isinstance(v, Rope):
        return list(v.segs)
    if isinstance(v, (str, bytes)):
        return [v] if v else []
    return [v.t]


def is_idx(s):
    return isinstance(s, (Flat, JoinSeg))


def eq_text(e, name, a, b, why):
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
        if a == b:
            e.ok(name)
            return True
        return e.fail(name, '%s: %r where %r was specified' % (why, a, b))
    k = e.kind(a)
    pa, pb = text_parts(e, a), text_parts(e, b)
    if not any(is_idx(s) for s in pa + pb):
        return e.oblige(name, e.str_term(a) == e.str_term(b), '%s code=%r spec=%r' % (why, a, b))
    return eq_ropes(e, name, pa, pb, why, k)


def eq_ropes(e, name, pa, pb, why, k):
    pa, pb = list(pa), list(pb)
    # peel common prefixes
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                if not any(is_idx(s) for s in pa + pb) or True:
                    return e.fail(name, '%s: text %r where %r was specified' % (why, x[:80], y[:80]))
            pa[0:1] = [x[n:]] if len(x) > n else []
            pb[0:1] = [y[n:]] if len(y) > n else []
            continue
        if is_z3(x) and is_z3(y) and x.eq(y):
            pa.pop(0)
            pb.pop(0)
            continue
        if isinstance(x, JoinSeg) and isinstance(y, JoinSeg):
            if x.sep != y.sep:
                return undecided(e, name, '%s: joined by %r where %r was specified' % (why, x.sep, y.sep))
            if not eq_segs(e, name, list(x.segs), list(y.segs), why + ' (joined)'):
                return False
            pa.pop(0)
            pb.pop(0)
            continue
        if isinstance(x, Flat) and isinstance(y, Flat):
            if not e.must(x.n == y.n):
                return undecided(e, name, why + ': repeated text')
            if not eq_flat_rope(e, name, x, y, why, k):
                return False
            pa.pop(0)
            pb.pop(0)
            continue
        # terms up to the next indexed part
        ia = next((i for i, s in enumerate(pa) if is_idx(s)), len(pa))
        ib = next((i for i, s in enumerate(pb) if is_idx(s)), len(pb))
        if ia == 0 or ib == 0:
            # an indexed part against plain text: emptiness?
            s = pa[0] if ia == 0 else pb[0]
            if isinstance(s, JoinSeg):
                segs = s.segs
                if len(segs) == 1 and isinstance(segs[0], Flat) and e.branch(segs[0].n <= 0):
                    (pa if ia == 0 else pb).pop(0)
                    continue
            elif e.branch(s.n <= 0):
                (pa if ia == 0 else pb).pop(0)
                continue
            return undecided(e, name, why + ': texts of different structure')
        ta, tb = e.mkrope(k, [_w(s, k) for s in pa[:ia]]), e.mkrope(k, [_w(s, k) for s in pb[:ib]])
        if not e.oblige(name, e.str_term(ta) == e.str_term(tb), why + ' (text part)'):
            return False
        pa, pb = pa[ia:], pb[ib:]
    if pa or pb:
        rest = pa or pb
        if any(isinstance(s, (str, bytes)) and s for s in rest):
            return e.fail(name, '%s: %s text %r' % (why, 'surplus' if pa else 'missing', [s for s in rest if isinstance(s, (str, bytes))][:3]))
        if not any(is_idx(s) for s in rest):
            t = e.str_term(e.mkrope(k, [_w(s, k) for s in rest]))
            return e.oblige(name, z3.Length(t) == 0, why + ' (text tail)')
        return undecided(e, name, why + ': text tail')
    e.ok(name)
    return True


def _w(s, k):
    return Sym(k, s) if is_z3(s) else s


def eq_flat_rope(e, name, x, y, why, kk):
    k = e.kvar()
    ok = [True]
    idx0 = e.st.loopidx

    def run():
        e.st.loopidx = idx0 + (k,)
        e.assume(z3.And(k >= 0, k < x.n))
        ga = e.enter_case(x, k)
        gb = e.enter_case(y, k)
        return None, eq_ropes(e, name, ga, gb, why + '{k}', kk)

    def onp(_, rr):
        ok[0] = ok[0] and rr
    e.explore(run, onp)
    return ok[0]
