"""pyvc: contract-based deductive verifier for a subset of Python, run on the real source of /repo.

A function is verified by symbolic execution of its AST, parsed from the repository on every run:
paths are explored by re-execution with decision traces, loops are cut by invariants, calls use the callee's
contract when there is one and are inlined otherwise.  Every check becomes a named obligation
(hypotheses |- goal) which prove.py hands to z3 / cvc5.
"""
import ast
import os
import math as _math
from fractions import Fraction
import z3
from .vals import *

MAXPATHS = 3000


class Kill(Exception):
    pass


class Restart(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, name, line=0):
        super().__init__(name)
        self.name, self.line = name, line


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


EXC_PARENTS = {'IndexError': ['LookupError'], 'KeyError': ['LookupError'], 'ZeroDivisionError': ['ArithmeticError'],
               'RuntimeError': [], 'ValueError': [], 'TypeError': [], 'AttributeError': [], 'AssertionError': [],
               'UnboundLocalError': ['NameError'], 'StopIteration': [], 'OverflowError': ['ArithmeticError'],
               'struct.error': [], 'NotImplementedError': ['RuntimeError']}


def exc_matches(raised, handler):
    if handler in ('Exception', 'BaseException', None) or raised == handler:
        return True
    return handler in EXC_PARENTS.get(raised, [])


class Obligation:
    __slots__ = ('name', 'hyps', 'goal', 'line', 'func', 'path', 'status', 'solver', 'secs', 'info', 'kind', 'seq')

    def __init__(self, name, hyps, goal, line, func, path, kind='vc'):
        self.name, self.hyps, self.goal, self.line, self.func, self.path, self.kind = name, hyps, goal, line, func, path, kind
        self.status = self.solver = self.info = None
        self.secs = 0.0
        self.seq = 0


class Only:
    """third part of a hint: prove it from these named facts and lemmas (and the facts without quantifiers) alone"""

    def __init__(self, *names, ground=True):
        self.names, self.ground = names, ground


_QF = {}


def has_quantifier(e):
    k = e.get_id()
    r = _QF.get(k)
    if r is None or r[0] is not e and not z3.eq(r[0], e):
        q = z3.is_quantifier(e) or any(has_quantifier(c) for c in e.children())
        _QF[k] = r = (e, q)
    return r[1]


class Loop:
    """Loop contract.  inv(L) -> list of (name, expr) or expr."""

    def __init__(self, inv=None, types=None, dec=None, pre=None, end=None, after=None, before=None, ghosts=None):
        self.before = before
        self.inv, self.types, self.dec, self.pre, self.end, self.after = inv, types or {}, dec, pre, end, after
        self.ghosts = ghosts or {}     # name -> (type, init(L), next(L, Lend))


class Ind:
    """a lemma proved by induction: P(lo) and P(k) => P(k+1) for lo <= k < hi give P on lo..hi (down: P(hi), P(k+1) => P(k)).
    pat(k): optional trigger of the conclusion"""

    def __init__(self, name, lo, hi, P, down=False, pat=None, local=False):
        self.local = local     # only used where a hint recalls it by name
        self.name, self.lo, self.hi, self.P, self.down, self.pat = name, lo, hi, P, down, pat


class Contract:
    def __init__(self, qual, params=None, ret=None, pre=None, post=None, modifies=(), raises=None, loops=(),
                 mode='int', defs=None, lemmas=None, name=None, cases=None, trusted=False, globals_=None,
                 pre_hints=None, effects=None, checks=None, result_alias=None, inline=False, hints=None, W=80, callpost=None, defs_ok=False, sites=False, comps=False, ground_pow2=False, anyof=None):
        self.anyof = anyof        # (constant, marking function): callers may use callpost for every value of the constant
        self.ground_pow2 = ground_pow2   # the equations of 2**x are only given at the exponents of the program text
        self.comps = comps        # comprehensions whose elements have effects are loops (with their own Loop)
        self.qual, self.params, self.ret = qual, dict(params or {}), ret
        self.pre, self.post, self.modifies, self.raises = pre, post, tuple(modifies), dict(raises or {})
        self.loops, self.mode, self.defs, self.lemmas = list(loops), mode, defs, lemmas
        self.name = name or qual
        self.trusted = trusted
        self.cases = cases
        self.effects = effects
        self.checks = checks
        self.result_alias = result_alias
        self.inline = inline      # callers use the body, not the contract
        self.hints = hints        # facts proved just before the postconditions
        self.W = W
        self.callpost = callpost  # what callers may assume instead of defs and post (no contract-local functions)
        self.sites = sites        # the loops of a helper without a contract are listed once per call of it
        self.defs_ok = defs_ok    # True: defs are true facts, the same at every call; 'once': one call outside loops may assume them


# ------------------------------------------------------------------------------ scalars
def conc(x):
    """python value of a concrete scalar, else None"""
    if isinstance(x, (bool, int, float, str, Fraction)) or x is None:
        return x
    if is_z3(x):
        s = z3.simplify(x)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if z3.is_int_value(s):
            return s.as_long()
    return None


def is_scalar(x):
    return isinstance(x, (bool, int, float, Fraction)) or (is_z3(x))


def is_boolish(x):
    return isinstance(x, bool) or (is_z3(x) and z3.is_bool(x))


def isint(x):
    return (isinstance(x, int)) or (is_z3(x) and (z3.is_int(x) or z3.is_bv(x)))


def NOT(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def AND(*xs):
    xs = [x for x in xs if not (isinstance(x, bool) and x)]
    if any(isinstance(x, bool) and not x for x in xs):
        return False
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def OR(*xs):
    xs = [x for x in xs if not (isinstance(x, bool) and not x)]
    if any(isinstance(x, bool) and x for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Theory:
    """How python ints are represented: mathematical integers, or W-bit signed vectors with overflow checks."""

    def __init__(self, mode='int', W=80):
        self.mode, self.W = mode, W
        self.bv = mode == 'bv'
        self.isort = z3.BitVecSort(W) if self.bv else z3.IntSort()

    def ival(self, n):
        return z3.BitVecVal(n, self.W) if self.bv else z3.IntVal(n)

    def sort(self, T):
        if T is Int:
            return self.isort
        if T is Bool:
            return z3.BoolSort()
        if T is Real:
            return z3.RealSort()
        if T is Str:
            return opaque_sort('Str')
        if isinstance(T, Opaque):
            return opaque_sort(T.name)
        if isinstance(T, Raw):
            return T.sort
        raise Unsupported('no sort for %r' % (T,))

    def lift(self, x):
        if isinstance(x, bool):
            return z3.BoolVal(x)
        if isinstance(x, int):
            return self.ival(x)
        if isinstance(x, float):
            return z3.RealVal(str(Fraction(x)))
        if isinstance(x, Fraction):
            return z3.RealVal(str(x))
        if isinstance(x, str):
            return str_const(x)
        return x


_SORTS = {}


def opaque_sort(n):
    if n not in _SORTS:
        _SORTS[n] = z3.DeclareSort(n)
    return _SORTS[n]


_STRS = {}


def str_const(s):
    """String literals are constants of sort Str; distinct literals get distinct codes."""
    if s not in _STRS:
        _STRS[s] = len(_STRS)
    code = z3.Function('strcode', opaque_sort('Str'), z3.IntSort())
    return z3.Const('str!%d' % _STRS[s], opaque_sort('Str'))


def str_facts(exprs):
    """distinctness facts for the literals in use"""
    if len(_STRS) < 2:
        return []
    return [z3.Distinct(*[z3.Const('str!%d' % i, opaque_sort('Str')) for i in range(len(_STRS))])]


def bitf(w, i):
    """bit i of the integer w, uninterpreted in int mode"""
    return z3.Function('bit', z3.IntSort(), z3.IntSort(), z3.BoolSort())(w, i)


# ------------------------------------------------------------------------------ merging
def same(a, b):
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if type(a) is type(b) and isinstance(a, (int, bool, float, str)):
        return a == b
    return a is None and b is None


def vparts(v):
    """(length, items) of a tuple"""
    return (v.n, v.items) if isinstance(v, VTuple) else (len(v), v)


def ITE(th, c, a, b):
    if isinstance(c, bool):
        return a if c else b
    cc = conc(c)
    if cc is not None:
        return a if cc else b
    if same(a, b):
        return a
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if isinstance(a, OptVal) or isinstance(b, OptVal) or a is None or b is None:
        ao = a if isinstance(a, OptVal) else OptVal(True, UNDEF) if a is None else OptVal(False, a)
        bo = b if isinstance(b, OptVal) else OptVal(True, UNDEF) if b is None else OptVal(False, b)
        return OptVal(ITE(th, c, ao.isnone, bo.isnone) if not same(ao.isnone, bo.isnone) else ao.isnone,
                      ITE(th, c, ao.val, bo.val))
    if isinstance(a, VTuple) or isinstance(b, VTuple) or (isinstance(a, tuple) and isinstance(b, tuple) and len(a) != len(b)):
        if isinstance(a, (tuple, VTuple)) and isinstance(b, (tuple, VTuple)):
            (na, ia), (nb, ib) = vparts(a), vparts(b)
            k = max(len(ia), len(ib))
            return VTuple(z3.If(B(c), th.lift(na), th.lift(nb)), [ITE(th, c, ia[i], ib[i]) if i < len(ia) and i < len(ib) else ia[i] if i < len(ia) else ib[i] for i in range(k)])
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ITE(th, c, x, y) for x, y in zip(a, b))
    if isinstance(a, (CList, SList)) and isinstance(b, (CList, SList)):
        if isinstance(a, CList) and isinstance(b, CList) and a.n == b.n:
            return CList([ITE(th, c, x, y) for x, y in zip(a.items, b.items)])
        return SList(ITE(th, c, a.n, b.n), lambda i: ITE(th, c, lget(th, a, i), lget(th, b, i)),
                     getattr(a, 'ety', None) or getattr(b, 'ety', None))
    if isinstance(a, (CMap, SMap)) and isinstance(b, (CMap, SMap)):
        if isinstance(a, CMap) and isinstance(b, CMap) and set(a.d) == set(b.d):
            return CMap({k: ITE(th, c, a.d[k], b.d[k]) for k in a.d})
        a, b = to_smap(th, a), to_smap(th, b)
        return SMap(ITE(th, c, a.n, b.n), lambda k: ITE(th, c, a.dom(k), b.dom(k)),
                    lambda k: ITE(th, c, a.get(k), b.get(k)), lambda i: ITE(th, c, a.key(i), b.key(i)),
                    lambda k: ITE(th, c, a.pos(k), b.pos(k)), a.kty or b.kty, a.vty or b.vty)
    if isinstance(a, MCont) and isinstance(b, MCont) and type(a) is type(b):
        return ITE(th, c, a.val, b.val)
    if isinstance(a, MCont):
        return ITE(th, c, a.val, b)
    if isinstance(b, MCont):
        return ITE(th, c, a, b.val)
    if isinstance(a, MObj) and isinstance(b, MObj) and a.cls is b.cls:
        raise Unsupported('merge of two objects')
    if isinstance(a, ObjVal) and isinstance(b, ObjVal) and a.cls is b.cls and set(a.attrs) == set(b.attrs):
        return ObjVal(a.cls, {k: ITE(th, c, a.attrs[k], b.attrs[k]) for k in a.attrs})
    if isinstance(a, GridVal) and isinstance(b, GridVal):
        return GridVal(ITE(th, c, a.r, b.r), ITE(th, c, a.c, b.c), lambda i, j: ITE(th, c, a.get(i, j), b.get(i, j)))
    if (is_scalar(a) or isinstance(a, str)) and (is_scalar(b) or isinstance(b, str)):
        x, y = th.lift(a), th.lift(b)
        if x.sort() != y.sort():
            if z3.is_bool(x) and (z3.is_int(y) or z3.is_bv(y)):
                x = z3.If(x, th.ival(1), th.ival(0))
            if z3.is_bool(y) and (z3.is_int(x) or z3.is_bv(x)):
                y = z3.If(y, th.ival(1), th.ival(0))
            if z3.is_int(x) and z3.is_real(y):
                x = z3.ToReal(x)
            if z3.is_int(y) and z3.is_real(x):
                y = z3.ToReal(y)
        if x.sort() == y.sort():
            return z3.If(B(c), x, y)
    raise Unsupported('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))


def lget(th, lv, i):
    if isinstance(lv, CList):
        ci = conc(i)
        if ci is not None and isinstance(ci, int):
            if -lv.n <= ci < lv.n:
                return lv.items[ci]
            return UNDEF
        r = UNDEF
        for k in range(lv.n - 1, -1, -1):
            r = ITE(th, th.lift(i) == th.ival(k), lv.items[k], r)
        return r
    return lv.get(th.lift(i))


def to_slist(th, lv):
    if isinstance(lv, CList):
        return SList(th.ival(lv.n), lambda i: lget(th, lv, i))
    return lv


def keyeq(th, a, b):
    if isinstance(a, tuple):
        if not isinstance(b, tuple) or len(a) != len(b):
            return False
        return AND(*[keyeq(th, x, y) for x, y in zip(a, b)])
    if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
        return a == b
    x, y = th.lift(a), th.lift(b)
    if x.sort() != y.sort():
        if z3.is_int(x) and z3.is_real(y):
            return z3.ToReal(x) == y
        if z3.is_real(x) and z3.is_int(y):
            return x == z3.ToReal(y)
        return False
    return x == y


def to_smap(th, mv):
    if isinstance(mv, SMap):
        return mv
    items = list(mv.d.items())

    def dom(k):
        return OR(*[keyeq(th, k, kk) for kk, _ in items])

    def get(k):
        r = UNDEF
        for kk, v in reversed(items):
            r = ITE(th, keyeq(th, k, kk), v, r)
        return r

    def key(i):
        r = UNDEF
        for x in range(len(items) - 1, -1, -1):
            r = ITE(th, th.lift(i) == th.ival(x), tuplelift(th, items[x][0]), r)
        return r

    def pos(k):
        r = th.ival(-1)
        for x in range(len(items) - 1, -1, -1):
            r = ITE(th, keyeq(th, k, items[x][0]), th.ival(x), r)
        return r
    return SMap(th.ival(len(items)), dom, get, key, pos, None, None)


def tuplelift(th, v):
    return tuple(tuplelift(th, x) for x in v) if isinstance(v, tuple) else th.lift(v)


def equal_val(th, a, b, n=[0]):
    """structural equality of two immutable values"""
    if a is b:
        return True
    if isinstance(a, MCont):
        a = a.val
    if isinstance(b, MCont):
        b = b.val
    if isinstance(a, Undef) or isinstance(b, Undef):
        return True
    if isinstance(a, OptVal) or isinstance(b, OptVal) or a is None or b is None:
        ao = a if isinstance(a, OptVal) else OptVal(True, UNDEF) if a is None else OptVal(False, a)
        bo = b if isinstance(b, OptVal) else OptVal(True, UNDEF) if b is None else OptVal(False, b)
        na, nb = B(ao.isnone), B(bo.isnone)
        return z3.And(na == nb, z3.Implies(z3.Not(na), B(equal_val(th, ao.val, bo.val))))
    if isinstance(a, VTuple) or isinstance(b, VTuple):
        (na, ia), (nb, ib) = vparts(a), vparts(b)
        return AND(th.lift(na) == th.lift(nb), *[OR(th.lift(na) <= i, equal_val(th, x, y)) for i, (x, y) in enumerate(zip(ia, ib))])
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and AND(*[equal_val(th, x, y) for x, y in zip(a, b)])
    if isinstance(a, ObjVal) and isinstance(b, ObjVal):
        return AND(*[equal_val(th, a.attrs[k], b.attrs[k]) for k in a.attrs if k in b.attrs])
    if isinstance(a, (CList, SList)) and isinstance(b, (CList, SList)):
        if isinstance(a, CList) and isinstance(b, CList):
            return a.n == b.n and AND(*[equal_val(th, x, y) for x, y in zip(a.items, b.items)])
        n[0] += 1
        i = z3.Const('sev!%d' % n[0], th.isort)
        na, nb = th.lift(a.n), th.lift(b.n)
        # a known length on one side: element by element
        for x, y in ((a, b), (b, a)):
            if isinstance(x, CList):
                return AND(na == nb, *[equal_val(th, x.items[k], lget(th, y, th.ival(k))) for k in range(x.n)])
        return z3.And(na == nb, z3.ForAll([i], z3.Implies(z3.And(i >= th.ival(0), i < na), B(equal_val(th, lget(th, a, i), lget(th, b, i))))))
    if isinstance(a, (CMap, SMap)) or isinstance(b, (CMap, SMap)):
        raise Unsupported('structural equality of dicts')
    return keyeq(th, a, b)


def map_set(th, mv, k, v):
    if isinstance(mv, CMap) and conc_key(k):
        d = dict(mv.d)
        d[k] = v
        return CMap(d)
    m = to_smap(th, mv)
    isnew = NOT(m.dom(k))
    return SMap(ITE(th, isnew, th.lift(m.n) + th.ival(1), th.lift(m.n)),
                lambda q: OR(keyeq(th, q, k), m.dom(q)),
                lambda q: ITE(th, keyeq(th, q, k), v, m.get(q)),
                lambda i: ITE(th, AND(isnew, th.lift(i) == th.lift(m.n)), tuplelift(th, k), m.key(i)),
                lambda q: ITE(th, AND(isnew, keyeq(th, q, k)), th.lift(m.n), m.pos(q)), m.kty, m.vty)


def conc_key(k):
    if isinstance(k, tuple):
        return all(conc_key(x) for x in k)
    return isinstance(k, (int, str, float, bool)) or k is None


# ------------------------------------------------------------------------------ spec-side views
class W:
    """wrapper giving specs convenient access to engine values"""

    def __init__(self, th, v):
        self.__dict__['th'], self.__dict__['v'] = th, v

    @property
    def n(self):
        v = raw(self.v)
        if isinstance(v, (CList, SList)):
            return self.th.lift(v.n)
        if isinstance(v, CMap):
            return self.th.ival(len(v.d))
        if isinstance(v, SMap):
            return self.th.lift(v.n)
        if isinstance(v, (tuple, VTuple)):
            return self.th.lift(vparts(v)[0])
        raise Unsupported('len of %r' % v)

    def __getitem__(self, i):
        v = raw(self.v)
        if isinstance(i, W):
            i = i.v
        if isinstance(v, (CList, SList)):
            return wrap(self.th, lget(self.th, v, i))
        if isinstance(v, tuple):
            return wrap(self.th, v[i])
        if isinstance(v, VTuple):
            return wrap(self.th, v.items[i])
        if isinstance(v, (CMap, SMap)):
            return wrap(self.th, to_smap(self.th, v).get(tuplelift(self.th, i)))
        if isinstance(v, GridVal):
            return wrap(self.th, RowVal(v, i))
        if isinstance(v, RowVal):
            return wrap(self.th, v.g.get(self.th.lift(v.i), self.th.lift(i)))
        raise Unsupported('spec index of %r' % v)

    def has(self, k):
        return B(to_smap(self.th, raw(self.v)).dom(tuplelift(self.th, k)))

    def key(self, i):
        return wrap(self.th, to_smap(self.th, raw(self.v)).key(self.th.lift(i)))

    def pos(self, k):
        return to_smap(self.th, raw(self.v)).pos(tuplelift(self.th, k))

    @property
    def isnone(self):
        if self.v is None:
            return z3.BoolVal(True)
        if isinstance(self.v, OptVal):
            return B(self.v.isnone)
        return z3.BoolVal(False)

    @property
    def value(self):
        if isinstance(self.v, OptVal):
            return wrap(self.th, self.v.val)
        return self

    def __getattr__(self, a):
        v = raw(self.v)
        if isinstance(v, (MObj, ObjVal)):
            at = v.attrs
            if isinstance(v, MObj) and v.parent is not None:
                x = v.parent[3](v.parent[0].val, v.parent[1])
                at = (x.val if isinstance(x, OptVal) else x).attrs
            if a in at:
                return wrap(self.th, at[a])
            raise SpecNameError(a, at.keys())
        if isinstance(v, GridVal) and a in ('r', 'c'):
            return self.th.lift(v.r if a == 'r' else v.c)
        raise AttributeError(a)


def raw(v):
    if isinstance(v, MCont):
        return v.val
    return v


def wrap(th, v):
    if isinstance(v, (bool, int, float, Fraction)):
        return th.lift(v)
    if is_z3(v) or isinstance(v, str):
        return v
    if isinstance(v, BitBytes):
        return W(th, v.bits)
    return W(th, v)


def unwrap(v):
    return v.v if isinstance(v, W) else v


class NS:
    """attribute access over a dict of values, for specs"""

    def __init__(self, th, d, fn=None):
        self.__dict__['_th'], self.__dict__['_d'], self.__dict__['_fn'] = th, d, fn

    def __getattr__(self, a):
        if a not in self._d:
            raise SpecNameError(a, self._d.keys(), self._fn)
        return wrap(self._th, self._d[a])

    def __getitem__(self, a):
        return self.__getattr__(a)

    def has_name(self, a):
        return a in self._d


class Spec:
    """state handed to contract lambdas: S.x (current), S.o.x (on entry), S.r (result)"""

    def __init__(self, th, cur, old, res=UNDEF, eng=None, ghosts=None):
        self._th, self._cur, self.o, self._res, self.eng = th, cur, NS(th, old), res, eng
        self.g = ghosts if ghosts is not None else {}

    @property
    def r(self):
        return wrap(self._th, self._res)

    @property
    def th(self):
        return self._th

    def __getattr__(self, a):
        if a in self._cur:
            return wrap(self._th, self._cur[a])
        raise SpecNameError(a, self._cur.keys())

    def __getitem__(self, a):
        return getattr(self, a)


class LoopState:
    """state handed to loop lambdas: L.x (locals), L.idx (next index), L.it (iterated sequence),
    L.o (function entry), L.pre (loop entry), L.up (enclosing loop)"""

    def __init__(self, th, frame, old, pre, idx, it, up, ghosts, ctx=None):
        self._th, self._frame, self.o, self.pre = th, frame, NS(th, old), NS(th, pre, frame.qual)
        self.idx, self._it, self.up, self.g = idx, it, up, ghosts
        self.rename = frame.rename
        self._ctx = ctx

    @property
    def it(self):
        return wrap(self._th, self._it)

    @property
    def n(self):
        return self._th.lift(self._it_n)

    def name(self, a):
        a = self.rename.get(a, a)
        env = self._frame.env
        while env is not None:
            if a in env:
                v = env[a]
                if isinstance(v, Undef):
                    break
                return wrap(self._th, v)
            env = env.parent
        raise SpecNameError(a, self._frame.env.keys(), self._frame.qual)

    def has(self, a):
        a = self.rename.get(a, a)
        return a in self._frame.env and not isinstance(self._frame.env[a], Undef)

    def __getattr__(self, a):
        if a.startswith('_'):
            raise AttributeError(a)
        return self.name(a)

    def __getitem__(self, a):
        return self.name(a)


# ------------------------------------------------------------------------------ modules
class Env(dict):
    def __init__(self, parent=None, d=None):
        super().__init__(d or {})
        self.parent = parent


class Frame:
    def __init__(self, env, module, fn, qual, rename=None):
        self.env, self.module, self.fn, self.qual = env, module, fn, qual
        self.rename = rename or {}
        self.site = None     # the call that made the frame
        self.catch = []      # stack of lists of caught exception names
        self.old = {}
        self.globals = set()
        self.nonlocals = set()


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.ns = None


class Repo:
    """parsed sources of /repo, read on every run"""

    def __init__(self, root):
        self.root = root
        self.mods = {}

    def path_of(self, name):
        if name == 'pyvc.stubs':
            return os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs.py')
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path_of(name)
        if p is None:
            return None
        with open(p, encoding='utf8') as f:
            src = f.read()
        m = Module(name, p, ast.parse(src, p))
        self.mods[name] = m
        return m


def find_func(module, qualname):
    """'Class.method' or 'func' in a module's AST -> (node, class node or None)"""
    parts = qualname.split('.')
    body, cls = module.tree.body, None
    for i, p in enumerate(parts):
        found = None
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p:
                found = n
        if found is None:
            return None, None
        if i == len(parts) - 1:
            return found, cls
        cls, body = found, found.body
    return None, None
