"""Contract of recover_program.py:remove_bad_candidates_at_addr."""
from .lib import *

score = lambda x: ia('score', x)
ONEB = z3.Function('one_before', z3.IntSort(), z3.BoolSort())
C2 = z3.Function('second_pass_count', z3.IntSort(), z3.IntSort())
LESSB = z3.Function('less_before', z3.IntSort(), z3.BoolSort())


def F(S):
    v = S.v if not hasattr(S, 'o') else S.o.v
    n = v.n
    sc = lambda i: score(v[i])
    k1 = Filter('first', lambda i: Or(sc(i) == 1, And(sc(i) > 0, sc(i) < 1, Not(ONEB(i)))), n)
    keep = Filter('kept', lambda i: And(sc(i) > 0, Or(sc(i) == 1, Not(ONEB(n)))), n)
    return v, n, sc, k1, keep


def defs(S):
    v, n, sc, k1, keep = F(S)
    i, k = V('i'), V('k')
    return [Not(ONEB(0)), Not(LESSB(0)), FA([i], Imp(within(i, 0, n), And(ONEB(i + 1) == Or(ONEB(i), sc(i) == 1), LESSB(i + 1) == Or(LESSB(i), And(sc(i) > 0, sc(i) < 1)))),
                                           ONEB(i)), C2(0) == 0,
            FA([i], Imp(within(i, 0, n), LESSB(i + 1) == Or(LESSB(i), And(sc(i) > 0, sc(i) < 1))), LESSB(i)),
            FA([k], Imp(k >= 0, C2(k + 1) == C2(k) + z3.If(keep.keep(k1.at(k)), 1, 0)), C2(k))] + k1.defs() + keep.defs()


def lemmas(S):
    v, n, sc, k1, keep = F(S)

    def ones(j):
        i = V('i')
        return And(FA([i], Imp(within(i, 0, j), And(Imp(sc(i) == 1, ONEB(j)), Imp(And(sc(i) > 0, sc(i) < 1), LESSB(j)), Imp(ONEB(i), ONEB(j)))), ONEB(i)),
                   Imp(ONEB(j), ex_(0, j, lambda i: sc(i) == 1)))

    def c2(k):
        i = V('i')
        return And(C2(k) >= 0, C2(k) <= k, FA([i], Imp(within(i, 0, k + 1), C2(i) <= C2(k)), C2(i)))
    return [Ind('a score of one seen', 0, n, ones, pat=ONEB)] + k1.lemmas() + keep.lemmas() + [
        Ind('bounds of the second count', 0, n, c2, pat=C2),
        Ind('the two passes keep the same', 0, n, lambda j: keep.c(j) == C2(k1.c(j)), pat=keep.c),
        Ind('without smaller ones nothing is left for the second pass', 0, n, lambda j: Imp(Not(LESSB(n)), And(keep.c(j) == k1.c(j), Imp(j < n, k1.keep(j) == keep.keep(j)))), pat=keep.c)]


def inv1(L):
    v, n, sc, k1, keep = F(L)
    t, w = L.g['t'], L.v
    k = V('k')
    return [('candidates looked at', within(t, 0, n + 1)), ('kept so far', And(L.i == k1.c(t), w.n == n - t + L.i)),
            ('the kept ones are at the front', FA([k], Imp(within(k, 0, L.i), w[k] == v[k1.at(k)]))),
            ('the others follow', FA([k], Imp(within(k, L.i, w.n), w[k] == v[k - L.i + t]))),
            ('ones seen', (L.one_count > 0) == ONEB(t)), ('smaller ones seen', (L.less_than_one_count > 0) == LESSB(t)),
            ('counts', And(L.one_count >= 0, L.less_than_one_count >= 0))]


def inv2(L):
    v, n, sc, k1, keep = F(L)
    p, w = L.g['p'], L.v
    k = V('k')
    m = k1.c(n)
    return [('candidates looked at', within(p, 0, m + 1)), ('kept so far', And(L.i == C2(p), w.n == m - p + L.i)),
            ('the kept ones are at the front', FA([k], Imp(And(within(k, 0, p), keep.keep(k1.at(k))), And(C2(k) < C2(p), w[C2(k)] == v[k1.at(k)])), k1.at(k))),
            ('the others follow', FA([k], Imp(within(k, L.i, w.n), w[k] == v[k1.at(k - L.i + p)])))]


def post(S):
    v, n, sc, k1, keep = F(S)
    w, i = S.v, V('i')
    return [('as many as are not impossible nor dominated', w.n == keep.c(n)),
            ('each of them, in the original order', FA([i], Imp(And(within(i, 0, n), keep.keep(i)), w[keep.c(i)] == v[i]))),
            ('the result is the number removed', S.r == n - w.n)]


def pre(S):
    return [all_(0, S.v.n, lambda i: And(score(S.v[i]) >= 0, score(S.v[i]) <= 1))]


PRUNE = Contract('recover_program:remove_bad_candidates_at_addr', {'v': ListOf(INST)}, Int, name='remove_bad_candidates_at_addr', modifies=('v',),
                 pre=pre, defs=defs, lemmas=lemmas, post=post,
                 loops=[Loop(inv=inv1, ghosts={'t': (Int, lambda L: z3.IntVal(0), lambda L, L2: L.g['t'] + 1)}, dec=lambda L: L.v.n - L.i),
                        Loop(inv=inv2, ghosts={'p': (Int, lambda L: z3.IntVal(0), lambda L, L2: L.g['p'] + 1)}, dec=lambda L: L.v.n - L.i)])
ALL = [PRUNE]
