"""Candidate programs for C16..C20."""
from .util import FI, Near, base_addr


FILES = ('semantic_codec/solution/solution_builders.py', 'semantic_codec/solution/solution_quality.py', 'semantic_codec/architecture/bits.py')


def gen(rng, maxa=8, maxc=6, ign=0.1, oign=0.05, total=0):
    """total: when given, sometimes a larger program of about that many candidates at most"""
    n = rng.randint(1, maxa)
    size, many = 0, 0.4
    if total:
        near = Near(rng, *FILES)
        k = rng.random()
        if k < 0.5:
            size = near.size(0, total // n, 0.04)
        else:
            n = near.size(n, 100, 0.04)
        if size:
            many = rng.choice((0.2, 1))
    prog = []
    e = 0
    conds, ops = rng.sample(range(15), rng.randint(1, 4)), rng.sample(range(1, 400), rng.randint(1, 4))
    few = rng.sample(range(20), rng.randint(1, 5))
    def one(a, ig):
        nonlocal e
        e += rng.randint(1, 9)
        r = [x for x in few if rng.random() < 0.4]
        return {'e': e, 'a': a, 'c': rng.choice(conds), 'o': rng.choice(ops), 'u': r, 'us': r + ([16] if rng.random() < 0.3 and 16 not in r else []), 'i': rng.random() < ig}
    base = base_addr(rng, 2 * n, 0x100)
    addrs = rng.sample(range(base, base + 8 * n, 4), n)
    for a in addrs:
        o = one(a, oign)
        k = rng.choice((0, 0, 1, 2, 3, rng.randint(0, maxc)))
        if size and rng.random() < many:
            k = size + rng.choice((-1, 0, 0, 1))
        c = [one(a, ign) for _ in range(k)]
        at = rng.randint(0, len(c))
        prog.append({'a': a, 'c': c[:at] + [o] + c[at:], 'o': at})
    return prog


def build(prog):
    """-> program {address: candidates}, original list (other objects with the same fields, as after a run)"""
    p = {x['a']: [FI(d) for d in x['c']] for x in prog}
    org = [FI(x['c'][x['o']]) for x in prog]
    return p, org
