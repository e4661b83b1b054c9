"""C19 on the real code."""
from math import log2, isclose
from semantic_codec.solution.solution_quality import SolutionQuality
from .util import FI, quiet
from . import sol

RULE = ('candidate programs of 1..100 addresses (mostly at most 10) with up to 12 candidates (sometimes up to 500) and random scores; a case is one program; non-trivial: several addresses with several candidates')
LIMIT = 10


def cases(rng, tier, hints):
    while True:
        p = sol.gen(rng, 10, rng.choice((2, 6, 12)), oign=0.1, total=500)
        if rng.random() < 0.3:
            p[0]['c'][0]['e'] = 0
        for x in p:
            sc = [k / 1024.0 for k in range(len(x['c']))]
            rng.shuffle(sc)
            for d, s in zip(x['c'], sc):
                d['s'] = s
        c = {'prog': p, 'evalfirst': rng.random() < 0.3, 'zero': rng.random() < 0.06}
        yield c


def nontrivial(c):
    return sum(len(x['c']) > 1 for x in c['prog']) > 1


def check(c):
    p, org = sol.build(c['prog'])
    if c['zero']:
        a = max(p) + 4
        org.append(FI({'e': 3, 'a': a}))
        p[a] = []
    q = SolutionQuality(p, org)
    with quiet():
        if c['evalfirst']:
            q.highest_depth
        n, size, bins = q.solution_count, q.solution_size, q.solution_count_bins
        depth = q.highest_depth
    prod, hist, bits = 1, {}, 0.0
    for v in p.values():
        prod *= len(v)
        hist[len(v)] = hist.get(len(v), 0) + 1
        bits += log2(len(v)) if v else 0
    if n != prod:
        return '%r solutions, expected %d' % (n, prod)
    if bins != hist:
        return 'histogram %r, expected %r' % (bins, hist)
    if not c['zero'] and not isclose(size, bits, abs_tol=1e-9):
        return 'size %r, expected %r' % (size, bits)
    exp = 0
    for x in c['prog']:
        o = x['c'][x['o']]
        if o['i']:
            continue
        exp = max(exp, (1 + sum(d['s'] > o['s'] for d in x['c'])) / len(x['c']))
    if not isclose(depth, exp, abs_tol=1e-12):
        return 'highest depth %r, expected %r' % (depth, exp)
