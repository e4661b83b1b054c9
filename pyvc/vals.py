"""Values of the symbolic interpreter: types, immutable container values, mutable references.

Containers hold immutable ("frozen") values; names and attributes hold references (MList, MMap, MObj)
whose `val` is the current immutable value.  Reading an element that is itself a container yields a
view that writes through to its parent.
"""
import z3


class Unsupported(Exception):
    pass


class SpecNameError(Exception):
    def __init__(self, name, avail=(), fn=None):
        super().__init__(name)
        self.name, self.avail, self.fn = name, tuple(avail), fn


# ---------------------------------------------------------------- types
class Ty:
    def __repr__(self):
        return self.__class__.__name__


class _Base(Ty):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


Int, Bool, Real, Str, NoneT = (_Base(x) for x in ('Int', 'Bool', 'Real', 'Str', 'None'))


class Opaque(Ty):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class ListOf(Ty):
    def __init__(self, el):
        self.el = el


class SetOf(Ty):
    def __init__(self, el):
        self.el = el


class MapOf(Ty):
    def __init__(self, k, v):
        self.k, self.v = k, v


class TupleOf(Ty):
    def __init__(self, *els):
        self.els = els


class TupleUpTo(Ty):
    """a tuple of at least lo elements; those at the end may be missing"""

    def __init__(self, lo, *els):
        self.lo, self.els = lo, els


class Opt(Ty):
    def __init__(self, el):
        self.el = el


class Raw(Ty):
    """a value of a solver sort (ghost state only)"""

    def __init__(self, sort):
        self.sort = sort


class PureFn(Ty):
    """a function without effects that returns a value of a type, otherwise arbitrary"""

    def __init__(self, name, ret):
        self.fname, self.ret = name, ret


class ObjOf(Ty):
    """An instance of a repository class with the given fields."""

    def __init__(self, cls, **fields):
        self.cls, self.fields = cls, fields


class Grid(Ty):
    """numpy 2-D array of reals"""
    pass


# ---------------------------------------------------------------- values
class Undef:
    """Placeholder for "no value": out of the domain of a container, or an unset local."""

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Undef(%s)' % self.why


UNDEF = Undef('outside the container')


class OptVal:
    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val


class VTuple:
    """tuple with the first n of items"""

    def __init__(self, n, items):
        self.n, self.items = n, tuple(items)


class CList:
    """list of known length"""

    def __init__(self, items=()):
        self.items = tuple(items)

    @property
    def n(self):
        return len(self.items)


class SList:
    """list of symbolic length; src: the uninterpreted list it is, if any"""
    src = None

    def __init__(self, n, get, ety=None):
        self.n, self.get, self.ety = n, get, ety


class CMap:
    def __init__(self, d=None):
        self.d = dict(d or {})


class SMap:
    def __init__(self, n, dom, get, key, pos, kty, vty):
        self.n, self.dom, self.get, self.key, self.pos, self.kty, self.vty = n, dom, get, key, pos, kty, vty


class ObjVal:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, dict(attrs)


class GridVal:
    """2-D array: rows, cols, get(i, j)"""

    def __init__(self, r, c, get):
        self.r, self.c, self.get = r, c, get


class RowVal:
    """a row of a grid"""

    def __init__(self, g, i):
        self.g, self.i = g, i


class Ref:
    parent = None       # (parent ref, 'idx'|'key', index)
    pver = None

    def _root_set(self, ctx, v):
        raise NotImplementedError


class MCont(Ref):
    def __init__(self, val):
        self._val = val
        self.parent = None
        self.sver = 0          # structural version: changed by pop/insert/delete
        self.aid = None

    def get_val(self):
        if self.parent is not None:
            p, key, ver, fetch = self.parent
            if p.sver != ver:
                raise Unsupported('element used after its container was restructured')
            return fetch(p.val, key)
        return self._val

    val = property(get_val)


class MList(MCont):
    pass


class MBits(MList):
    """a bitarray: a list of 0 and 1"""
    big = True


class BitBytes:
    """bytes, seen as the list of their bits (the most significant bit of a byte first)"""

    def __init__(self, bits):
        self.bits = bits


class MSet(MCont):
    """val: CMap/SMap-like membership; only dom is used"""
    pass


class MMap(MCont):
    default = None   # defaultdict / Counter default


class MGrid(MCont):
    pass


class MObj(Ref):
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs
        self.parent = None
        self.aid = None


class Iter:
    """a for-loop source"""

    def __init__(self, n, item, ref=None, live=None):
        self.n, self.item, self.ref, self.live = n, item, ref, live


class RangeVal:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class FuncVal:
    def __init__(self, node, module, cls=None, env=None, qual=None, static=False, bound=None, prop=False, classm=False,
                 defaults=None):
        self.node, self.module, self.cls, self.env, self.qual = node, module, cls, env, qual
        self.static, self.bound, self.prop, self.classm = static, bound, prop, classm
        self.defaults = defaults

    def bind(self, o):
        return FuncVal(self.node, self.module, self.cls, self.env, self.qual, self.static, o, self.prop, self.classm,
                       self.defaults)


class ClassVal:
    def __init__(self, node, module, qual):
        self.node, self.module, self.qual = node, module, qual
        self.bases = []
        self.ns = {}
        self.name = node.name

    def lookup(self, name):
        if name in self.ns:
            return self.ns[name], self
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def is_sub(self, name):
        return self.name == name or any((isinstance(b, ClassVal) and b.is_sub(name)) or
                                        (not isinstance(b, ClassVal) and getattr(b, 'name', None) == name)
                                        for b in self.bases)


class ModVal:
    """an imported module: repo module or a modelled external"""

    def __init__(self, name, mod=None):
        self.name, self.mod = name, mod


class Builtin:
    def __init__(self, name, fn, bound=None):
        self.name, self.fn, self.bound = name, fn, bound


class ExtClass:
    """external class referenced by name (exception classes, base classes)"""

    def __init__(self, name):
        self.name = name


class NoEffect:
    """an object whose methods have no effect on the state under proof"""

    def __init__(self, name):
        self.name = name


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_sym(x):
    return isinstance(x, (z3.ExprRef, OptVal))
