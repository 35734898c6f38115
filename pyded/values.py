"""Value domain of the verifier: universal SMT sort V, symbolic scalars, heap contents, list segments."""
import z3

z3.set_param('smt.random_seed', 0)

S = z3.StringSort()
I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()

_V = z3.Datatype('V')
_V.declare('VNone')
_V.declare('VBool', ('bv', B))
_V.declare('VInt', ('iv', I))
_V.declare('VReal', ('rv', R))
_V.declare('VStr', ('sv', S))
_V.declare('VBytes', ('yv', S))
_V.declare('VList', ('lid', I))
_V.declare('VTuple', ('tid', I))
_V.declare('VDict', ('did', I))
_V.declare('VObj', ('oid', I))
V = _V.create()

llen = z3.Function('llen', V, I)
lget = z3.Function('lget', V, I, V)
dlen = z3.Function('dlen', V, I)
dkey = z3.Function('dkey', V, I, V)
dhas = z3.Function('dhas', V, V, B)
dget = z3.Function('dget', V, V, V)
didx = z3.Function('didx', V, V, I)
strint = z3.Function('strint', I, S)        # str(int)
intstr = z3.Function('intstr', S, I)        # int(str)
isint = z3.Function('isint', S, B)          # text is a valid int literal

KSORT = {'int': I, 'bool': B, 'real': R, 'str': S, 'bytes': S}


class Sym:
    __slots__ = ('k', 't')

    def __init__(self, k, t):
        self.k = k
        self.t = t

    def __repr__(self):
        return 'Sym(%s,%s)' % (self.k, str(self.t)[:120])


class SV:
    """A symbolic value of not-yet-known type."""
    __slots__ = ('t', 'shape')

    def __init__(self, t, shape=None):
        self.t = t
        self.shape = shape

    def __repr__(self):
        return 'SV(%s)' % (str(self.t)[:120],)


class Rope:
    """A string built from constants, string terms and flat (indexed) parts."""
    __slots__ = ('k', 'segs')

    def __init__(self, k, segs):
        self.k = k
        self.segs = tuple(segs)

    def __repr__(self):
        return 'Rope(%s,%r)' % (self.k, self.segs)


class Ref:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return 'Ref%d' % self.id


class LObj:
    """list / deque contents: tuple of segments"""
    __slots__ = ('segs', 'shape', 'src')

    def __init__(self, segs, shape=None, src=None):
        self.segs = tuple(segs)
        self.shape = shape
        self.src = src      # V term when the object is an unmodified input


class TObj(LObj):
    """a tuple of symbolic length"""


class DObj:
    """dict contents: optional symbolic base plus newer entries (key, value) or FlatD/AccD/DEL"""
    __slots__ = ('base', 'shape', 'ents', 'absent')

    def __init__(self, base=None, shape=None, ents=(), absent=()):
        self.base = base
        self.shape = shape
        self.ents = tuple(ents)
        self.absent = tuple(absent)   # keys deleted from base


class SetObj:
    __slots__ = ('elems',)

    def __init__(self, elems=()):
        self.elems = tuple(elems)


class IObj:
    """instance contents"""
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = dict(attrs)


class FrameObj(dict):
    pass


class IterObj:
    __slots__ = ('chunks',)

    def __init__(self, chunks):
        self.chunks = chunks


class Elem:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'E(%r)' % (self.v,)


class Case:
    """One normally completing body path: decisions, facts, frozen payload (list of frozen segments / values)."""
    __slots__ = ('dec', 'facts', 'pay')

    def __init__(self, dec, facts, pay):
        self.dec = dec
        self.facts = facts
        self.pay = pay


class Flat:
    """concat over k in [0,n) of the payload of the case that holds at k"""
    __slots__ = ('n', 'k', 'cases', 'tag')

    def __init__(self, n, k, cases, tag=None):
        self.n = n
        self.k = k
        self.cases = cases
        self.tag = tag

    def __repr__(self):
        return 'Flat(n=%s,k=%s,%d cases)' % (self.n, self.k, len(self.cases))


class Acc:
    """marker: what the running loop appended in earlier iterations"""
    __slots__ = ('loop', 'oid')

    def __init__(self, loop, oid):
        self.loop = loop
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Acc) and (o.loop, o.oid) == (self.loop, self.oid)

    def __hash__(self):
        return hash((self.loop, self.oid))


class Poison:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'Poison%r' % (self.loc,)


class Last:
    """value of a location after a symbolic loop: value written in the last iteration, or before when n == 0"""
    __slots__ = ('n', 'k', 'cases', 'before')

    def __init__(self, n, k, cases, before):
        self.n = n
        self.k = k
        self.cases = cases
        self.before = before


UNSET = object()


class FFrozen:
    """frozen heap object in a Flat payload"""
    __slots__ = ('kind', 'data')

    def __init__(self, kind, data):
        self.kind = kind
        self.data = data


class FSrc:
    """frozen unmodified symbolic input"""
    __slots__ = ('t', 'shape')

    def __init__(self, t, shape):
        self.t = t
        self.shape = shape


class FuncVal:
    __slots__ = ('name', 'qual', 'mod', 'node', 'closure', 'cls', 'kind', 'defaults', 'kwdefaults', 'is_gen')

    def __init__(self, name, qual, mod, node, closure, cls, kind=None):
        self.name = name
        self.qual = qual
        self.mod = mod
        self.node = node
        self.closure = closure
        self.cls = cls
        self.kind = kind
        self.defaults = ()
        self.kwdefaults = {}
        self.is_gen = False

    def __repr__(self):
        return 'Func(%s:%s)' % (self.mod, self.qual)


class Bound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_


class ClassVal:
    __slots__ = ('name', 'mod', 'node', 'bases', 'ref', 'qual')

    def __init__(self, name, mod, node, bases, ref, qual=None):
        self.name = name
        self.mod = mod
        self.node = node
        self.bases = bases
        self.ref = ref      # Ref of IObj holding class attributes
        self.qual = qual or name

    def __repr__(self):
        return 'Class(%s:%s)' % (self.mod, self.name)


class ExtClass:
    """a builtin python class"""
    __slots__ = ('py',)

    def __init__(self, py):
        self.py = py

    def __eq__(self, o):
        return isinstance(o, ExtClass) and o.py is self.py

    def __hash__(self):
        return hash(self.py)

    def __repr__(self):
        return 'Ext(%s)' % self.py.__name__


class ModVal:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModVal) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class ExtVal:
    """dotted external name, resolved by the model registry"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtVal) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'ExtVal(%s)' % self.name


class Builtin:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class Opaque:
    """host-side token compared by identity/name (locks, cursors...)"""
    __slots__ = ('name', 'attrs')

    def __init__(self, name, attrs=None):
        self.name = name
        self.attrs = attrs or {}

    def __repr__(self):
        return 'Opaque(%s)' % self.name


class SliceVal:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


# ---------------------------------------------------------------- shapes
class Shape:
    pass


class _Scalar(Shape):
    """fact(term) gives facts about every value of the shape"""

    def __init__(self, k, fact=None):
        self.k = k
        self.fact = fact


StrT = _Scalar('str')
IntT = _Scalar('int')
BoolT = _Scalar('bool')
RealT = _Scalar('real')
BytesT = _Scalar('bytes')


class NoneS(Shape):
    pass


NoneT = NoneS()


class LitT(Shape):
    """one of some constants (strings, ints, None, bool)"""

    def __init__(self, *vals):
        self.vals = vals


class ListT(Shape):
    def __init__(self, elem, minlen=0, maxlen=None, fact=None):
        self.elem = elem
        self.minlen = minlen
        self.maxlen = maxlen
        self.fact = fact


class TupT(Shape):
    """fixed tuple/list of shapes; kind 'tuple' or 'list'"""

    def __init__(self, elems, kind='list'):
        self.elems = elems
        self.kind = kind


class DictT(Shape):
    """exact dictionary: required and optional string keys, nothing else. fact(eng, get) may add facts"""

    def __init__(self, req=None, opt=None, fact=None):
        self.req = req or {}
        self.opt = opt or {}
        self.fact = fact


class MapT(Shape):
    """dictionary with arbitrary string keys (from keys list, when given)"""

    def __init__(self, val, keys=None, fact=None):
        self.val = val
        self.keys = keys
        self.fact = fact


class OneT(Shape):
    def __init__(self, *alts):
        self.alts = alts


class SingleT(Shape):
    """dict with exactly one key: one of ops (op -> value shape), or another string key with shape other"""

    def __init__(self, ops, other=None):
        self.ops = ops
        self.other = other


class RecT(Shape):
    def __init__(self, thunk):
        self.thunk = thunk


class AnyS(Shape):
    pass


AnyT = AnyS()


class ObjT(Shape):
    """opaque object"""

    def __init__(self, name='obj'):
        self.name = name


class _M:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NOTFOUND = _M('NOTFOUND')
NOTSET = _M('NOTSET')
INLINE = _M('INLINE')
UNCHANGED = _M('UNCHANGED')
PARTIAL = _M('PARTIAL')
OPAQUE = _M('OPAQUE')
UNSETV = _M('UNSETV')


class SuperVal:
    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class JoinSeg:
    """sep.join(list segments) inside a rope"""
    __slots__ = ('sep', 'segs')

    def __init__(self, sep, segs):
        self.sep, self.segs = sep, tuple(segs)

    def __repr__(self):
        return 'Join(%r,%r)' % (self.sep, self.segs)
