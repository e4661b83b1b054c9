"""C21 on the real code."""
from fractions import Fraction
from math import isclose
from .util import Near
from semantic_codec.probability.probabilities import indep_intersection, indep_events_union

RULE = ('lists of 0..80 probabilities (mostly at most 10), some very near 0 or 1, as fractions (exact) or floats; a case is one list; non-trivial: at least two probabilities')
LIMIT = 20


def cases(rng, tier, hints):
    yield {'p': [], 'exact': True}
    near = Near(rng, 'semantic_codec/probability/probabilities.py')
    while True:
        n = near.size(rng.choice((1, 1, 2, 3, 4, 5, 6, 8, 10)), 80)
        k = rng.randrange(4)
        d = (12, 12, 10 ** rng.randint(2, 12), 10 ** rng.randint(2, 12))[k]
        if k < 2:
            p = [[rng.choice((0, 1, 5, rng.randint(0, 12))), 12] for _ in range(n)]
        elif k == 2:
            p = [[rng.choice((1, 2, d - 1, d - 2, d // 2, rng.randint(1, d))), d] for _ in range(n)]
        else:
            x = rng.choice(((1, 2, 3), (d - 1, d - 2), (1, d - 1)))
            p = [[rng.choice(x), d] for _ in range(n)]
        yield {'p': p, 'exact': k > 1 or rng.random() < 0.6}


def nontrivial(c):
    return len(c['p']) > 1


def close(got, exp, exact, tol):
    if exact and not isinstance(got, float):
        return got == exp
    return isclose(got, exp, rel_tol=1e-9, abs_tol=max(tol, 1e-300))


def check(c):
    p = [Fraction(min(a, b), b) for a, b in c['p']]
    prod, comp = Fraction(1), Fraction(1)
    for x in p:
        prod *= x
        comp *= 1 - x
    arg = p if c['exact'] else [float(x) for x in p]
    keep = list(arg)
    inter = indep_intersection(arg)
    if not close(inter, prod, c['exact'], 0):
        return 'intersection %r, expected %r' % (inter, prod)
    if not p:
        try:
            indep_events_union(arg)
        except RuntimeError:
            return None
        return 'the union of nothing is accepted'
    if len(p) > 12:             # the union takes time 2 ** n
        return None
    u = indep_events_union(arg)
    if not close(u, 1 - comp, c['exact'], 1e-12 * 2 ** len(p)):
        return 'union %r, expected %r' % (u, 1 - comp)
    if arg != keep:
        return 'the list was changed'
