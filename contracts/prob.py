"""Contracts of semantic_codec/probability/probabilities.py."""
from .lib import *

M = 'semantic_codec.probability.probabilities:'
PI = z3.Function('prod', z3.IntSort(), z3.RealSort())


def defs(S):
    p = S.probabilities
    k = V('k')
    return [PI(0) == 1, FA([k], Imp(within(k, 0, p.n), PI(k + 1) == PI(k) * p[k]), PI(k + 1))]


INTER = Contract(M + 'indep_intersection', {'probabilities': ListOf(Real)}, Real, name='indep_intersection', defs=defs,
                 pre=lambda S: [all_(0, S.probabilities.n, lambda i: And(S.probabilities[i] >= 0, S.probabilities[i] <= 1))],
                 post=lambda S: [('the product of the probabilities', S.r == PI(S.o.probabilities.n)), ('it is a probability', And(S.r >= 0, S.r <= 1))],
                 loops=[Loop(types={'p': Real}, inv=lambda L: [('p is the product so far', L.p == PI(L.idx)), ('p is a probability', And(L.p >= 0, L.p <= 1))])])

# union: Q(i) is the product of the complements from i on, so U(i) = 1 - Q(i) is the union of the events i..n-1;
# W(i) = 2^(n-i) - 1 counts their non-empty sets.  The stack e enumerates the sets in depth-first order:
# sg[k] is the signed product of the first k elements of the stack, tt[k] what the levels above k still have to add.
Q = z3.Function('prod_compl', z3.IntSort(), z3.RealSort())
W_ = z3.Function('sets', z3.IntSort(), z3.IntSort())
U = lambda i: 1 - Q(i)


def udefs(S):
    p, k = S.probabilities, V('k')
    n = p.n
    return [Q(n) == 1, FA([k], Imp(within(k, 0, n), Q(k) == Q(k + 1) * (1 - p[k])), Q(k)),
            W_(n) == 0, FA([k], Imp(within(k, 0, n), W_(k) == 1 + 2 * W_(k + 1)), W_(k))]


def upd(old, i, v, T):
    return SList(z3.IntVal(0), lambda k: z3.If(k == i, v, old.get(k)), T)


def uinv(L):
    e, p, sg, tt, ww = L.e, L.o.probabilities, L.g['sg'].get, L.g['tt'].get, L.g['ww'].get
    m, n, k = e.n, p.n, V('k')
    last = e[m - 1]
    return [('the stack holds increasing indices of events', And(m >= 0, FA([k], Imp(within(k, 0, m), And(e[k] >= 0, e[k] < n)), e[k]),
                                                                FA([k], Imp(within(k, 0, m - 1), e[k] < e[k + 1]), e[k]))),
            ('signed products of the prefixes', And(sg(z3.IntVal(0)) == 1, FA([k], Imp(within(k, 0, m - 1), sg(k + 1) == -(sg(k) * p[e[k]])), e[k]))),
            ('what is left to the upper levels', And(tt(z3.IntVal(0)) == 0, FA([k], Imp(within(k, 0, m - 1), tt(k + 1) == tt(k) + sg(k) * U(e[k] + 1)), e[k]))),
            ('sets left to the upper levels', And(ww(z3.IntVal(0)) == 0, FA([k], Imp(within(k, 0, m - 1), And(ww(k + 1) == ww(k) + W_(e[k] + 1))), e[k]),
                                                 FA([k], Imp(within(k, 0, m), ww(k) >= 0), e[k]))),
            ('the sets still to visit make up the rest of the union', L.result == U(z3.IntVal(0)) - z3.If(m > 0, sg(m - 1) * U(last) + tt(m - 1), 0)),
            ('the number of sets still to visit', L.g['cnt'] == z3.If(m > 0, ww(m - 1) + W_(last), 0))]


def gl(T):
    return lambda L: SList(z3.IntVal(0), lambda k: z3.If(k == 0, (z3.RealVal if T is Real else z3.IntVal)(1), 0), T)


def mk_next(nm):
    def nx(L, L2):
        e = L.start.e
        m = e.n
        last = e[m - 1]
        sg, tt, ww = (L.g[x].get for x in ('sg', 'tt', 'ww'))
        p = L.o.probabilities
        v = {'sg': -(sg(m - 1) * p[last]), 'tt': tt(m - 1) + sg(m - 1) * U(last + 1), 'ww': ww(m - 1) + W_(last + 1)}[nm]
        return upd(L.g[nm], m, v, Int if nm == 'ww' else Real)
    return nx


GH = {'sg': (ListOf(Real), gl(Real), mk_next('sg')), 'tt': (ListOf(Real), lambda L: SList(z3.IntVal(0), lambda k: z3.RealVal(0), Real), mk_next('tt')),
      'ww': (ListOf(Int), lambda L: SList(z3.IntVal(0), lambda k: z3.IntVal(0), Int), mk_next('ww')),
      'cnt': (Int, lambda L: W_(z3.IntVal(0)), lambda L, L2: L.g['cnt'] - 1)}


def upinv(L):
    u = L.up
    e, p, sg = u.start.e, L.o.probabilities, u.g['sg'].get
    j = L.idx
    return [('the signed product of the elements so far', z3.If(j < e.n, sg(j), -(sg(e.n - 1) * p[e[e.n - 1]])) == z3.If(j % 2 == 0, L.p, -L.p))]


def ulemmas(S):
    n = S.probabilities.n
    return [Ind('the product of complements is a probability', 0, n, lambda k: And(Q(k) >= 0, Q(k) <= 1), down=True, pat=Q),
            Ind('the number of sets is not negative', 0, n, lambda k: W_(k) >= 0, down=True, pat=W_)]


UNION = Contract(M + 'indep_events_union', {'probabilities': ListOf(Real)}, Real, name='indep_events_union', defs=udefs, lemmas=ulemmas,
                 pre=lambda S: [all_(0, S.probabilities.n, lambda i: And(S.probabilities[i] >= 0, S.probabilities[i] <= 1))],
                 raises={'RuntimeError': lambda S: S.o.probabilities.n == 0},
                 post=lambda S: [('one minus the product of the complements', S.r == U(z3.IntVal(0))), ('it is a probability', And(S.r >= 0, S.r <= 1))],
                 loops=[Loop(types={'e': ListOf(Int), 'result': Real}, inv=uinv, ghosts=GH, dec=lambda L: L.g['cnt']),
                        Loop(types={'p': Real}, inv=upinv)])
ALL = [INTER, UNION]
