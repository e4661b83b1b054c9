"""Helpers shared by the contracts."""
import z3
from pyvc.engine import *
from pyvc.vals import *
from pyvc.verify import Const

BITS = 'semantic_codec.architecture.bits:'


def bit(th, w, i):
    """bit i of w: concrete in bit-vector mode, the uninterpreted `bit` in integer mode"""
    if th.bv:
        w, i = th.lift(w), th.lift(i)
        return z3.Extract(0, 0, w >> i) == z3.BitVecVal(1, 1)
    return bitf(th.lift(w), th.lift(i))


_n = [0]


def V(name, th=None):
    _n[0] += 1
    return z3.Const('%s?%d' % (name, _n[0]), th.isort if th is not None else z3.IntSort())


def all_(lo, hi, body, pat=None):
    """forall lo <= i < hi. body(i)"""
    i = V('q')
    b = z3.Implies(z3.And(i >= lo, i < hi), body(i))
    if pat is not None:
        return z3.ForAll([i], b, patterns=[pat(i)])
    return z3.ForAll([i], b)


def ex_(lo, hi, body):
    i = V('e')
    return z3.Exists([i], z3.And(i >= lo, i < hi, body(i)))


def each_bit(th, f, n=32):
    """f(k) for every bit position: unrolled in bit-vector mode, quantified in integer mode"""
    if th.bv:
        return z3.And(*[f(th.ival(k)) for k in range(n)])
    k = V('k')
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), f(k)))


def word(th, w, bits=32):
    return z3.And(w >= th.ival(0), w < th.ival(2 ** bits))


def If(c, a, b):
    return z3.If(c, a, b)


# ------------------------------------------------------------------ attributes of opaque instructions
INST = Opaque('Inst')
_I = opaque_sort('Inst')


def ia(name, x, *extra, sort=None):
    """attribute of an instruction (the uninterpreted function the engine uses for it)"""
    s = sort if sort is not None else {'ignore': z3.BoolSort(), 'is_undefined': z3.BoolSort(), 'is_branch': z3.BoolSort(), 'is_push_pop': z3.BoolSort(),
                 'is_a': z3.BoolSort(), 'score': z3.RealSort()}.get(name, z3.IntSort())
    a = (x,) + extra
    return z3.Function('Inst.' + name, *([t.sort() for t in a] + [s]))(*a)


def ilist_n(name, x):
    return z3.Function('Inst.%s.n' % name, _I, z3.IntSort())(x)


def ilist(name, x, i):
    return z3.Function('Inst.%s.e' % name, _I, z3.IntSort(), z3.IntSort())(x, i)


def IV(name='x'):
    _n[0] += 1
    return z3.Const('%s?%d' % (name, _n[0]), _I)


def SV(S):
    _n[0] += 1
    return z3.Const("s?%d" % _n[0], (S._th if "_th" in S.__dict__ else S.th).sort(Str))


def FA(vs, body, *pats):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    if pats and all(covers(p if isinstance(p, (list, tuple)) else [p], vs) for p in pats):
        return z3.ForAll(list(vs), body, patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats])
    return z3.ForAll(list(vs), body)


_SKIP = (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES)


def covers(ts, vs):
    """usable as a pattern: uninterpreted at the top, no logical operators inside, mentions every variable"""
    seen, bad = set(), []

    def visit(t):
        if any(t.eq(v) for v in vs):
            seen.add(t.get_id())
            return
        if not z3.is_app(t) or t.decl().kind() in _SKIP:
            bad.append(t)
            return
        for c in t.children():
            visit(c)
    for t in ts:
        if not is_z3(t) or not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return False
        visit(t)
    return not bad and len(seen) == len(vs)


def EX(vs, body):
    return z3.Exists(vs if isinstance(vs, (list, tuple)) else [vs], body)


And, Or, Not, Imp = z3.And, z3.Or, z3.Not, z3.Implies


def within(i, lo, hi):
    return z3.And(i >= lo, i < hi)


def sorted_at(r, idx, n, body):
    """exists i in 0..n-1: body(i); when r is the outcome of a sort, i is the place the idx-th element went to"""
    q = getattr(raw(r.v), 'perm_inv', None)
    if q is not None:
        i = q(idx)
        return z3.And(within(i, z3.IntVal(0), n), body(i))
    return ex_(0, n, body)


def isnone(x):
    if x is None:
        return z3.BoolVal(True)
    return x.isnone if isinstance(x, W) else z3.BoolVal(False)


def val(x, dflt):
    """the value of an optional; dflt (a term of its sort) when it is known to be None"""
    if x is None:
        return dflt
    if isinstance(x, W) and isinstance(x.v, OptVal):
        v = x.v.val
        return dflt if isinstance(v, Undef) or v is None else wrap(x.th, v) if not is_z3(v) else v
    return x


def zero_bits(S):
    """the digits of 0"""
    if S.th.bv:
        return []
    S.ctx.eng.use_lemma('bitops:zero')
    b = V('zb')
    return [z3.ForAll([b], z3.Implies(b >= 0, z3.Not(bitf(z3.IntVal(0), b))), patterns=[bitf(z3.IntVal(0), b)])]


class Filter:
    """order-preserving selection of the indices 0..n-1 that satisfy keep: c(i) counts the kept ones below i, at(k) is the k-th kept one"""

    def __init__(self, name, keep, n):
        self.c = z3.Function(name + '_count', z3.IntSort(), z3.IntSort())
        self.at = z3.Function(name + '_at', z3.IntSort(), z3.IntSort())
        self.keep, self.n, self.name = keep, n, name

    def defs(self):
        i = V('i')
        return [self.c(0) == 0, FA([i], Imp(within(i, 0, self.n), And(self.c(i + 1) == self.c(i) + z3.If(self.keep(i), 1, 0),
                                                                     Imp(self.keep(i), self.at(self.c(i)) == i))), self.c(i), self.c(i + 1), *([self.keep(i)] if covers([self.keep(i)], [i]) else []))]

    def lemmas(self):
        c, at = self.c, self.at

        def P(j):
            k = V('k')
            return And(c(j) >= 0, c(j) <= j, FA([k], Imp(within(k, 0, c(j)), And(within(at(k), 0, j), self.keep(at(k)), c(at(k)) == k)), at(k)))
        def mono(j):
            i = V('i')
            return FA([i], Imp(within(i, 0, j + 1), c(i) <= c(j)), c(i))
        return [Ind('the selected indices (%s)' % self.name, 0, self.n, P, pat=c), Ind('counting is monotonic (%s)' % self.name, 0, self.n, mono, pat=c)]


class FilterK:
    """a Filter per key: c(i, k) counts the indices below i kept for k, at(k, m) is the m-th of them"""

    def __init__(self, name, keep, n, ksort=None):
        I, K = z3.IntSort(), ksort or z3.IntSort()
        self.c = z3.Function(name + '_count', I, K, I)
        self.at = z3.Function(name + '_at', K, I, I)
        self.keep, self.n, self.name, self.K = keep, n, name, K

    def kv(self):
        _n[0] += 1
        return z3.Const('k?%d' % _n[0], self.K)

    def defs(self):
        i, k = V('i'), self.kv()
        c, at = self.c, self.at
        n = self.n(k) if callable(self.n) else self.n
        return [FA([k], c(0, k) == 0, c(0, k)), FA([i, k], Imp(within(i, 0, n), And(c(i + 1, k) == c(i, k) + z3.If(self.keep(i, k), 1, 0), Imp(self.keep(i, k), at(k, c(i, k)) == i))),
                                                   c(i, k), c(i + 1, k))]

    def lemmas(self, hi=None):
        c, at = self.c, self.at
        ok = (lambda j, k: j <= self.n(k)) if callable(self.n) else (lambda j, k: z3.BoolVal(True))

        def P(j):
            m, k = V('m'), self.kv()
            return And(FA([k], Imp(ok(j, k), And(c(j, k) >= 0, c(j, k) <= j)), c(j, k)),
                       FA([k, m], Imp(And(ok(j, k), within(m, 0, c(j, k))), And(within(at(k, m), 0, j), self.keep(at(k, m), k), c(at(k, m), k) == m)), [at(k, m), c(j, k)]))

        def mono(j):
            i, k = V('i'), self.kv()
            return FA([i, k], Imp(And(ok(j, k), within(i, 0, j + 1)), c(i, k) <= c(j, k)), [c(i, k), c(j, k)])
        n = hi if hi is not None else self.n
        return [Ind('the selected indices (%s)' % self.name, 0, n, P, pat=None), Ind('counting is monotonic (%s)' % self.name, 0, n, mono, pat=None)]
