"""C06 on the real code: permutations."""
from semantic_codec.interleaver.interleaver2d import sucesive_packing, build_2d_interleave_sp
from .util import consts

RULE = 'exponents 0..8 (0..9 thorough) and every packet count 1..1200 (1..5000 thorough), larger counts up to 70000, among them those around powers of 4; non-trivial: more than one packet'


def cases(rng, tier, hints):
    for m in range(0, 10 if tier == 'thorough' else 9):
        yield {'m': m}
    yield {'m': -1}
    for n in list(range(1, 200)) + [255, 256, 257, 1023, 1024, 1025, 767, 768, 4095, 4096, 4097]:
        yield {'n': n, 'float': n % 3 == 0}
    for n in range(200, 1200 if tier == 'quick' else 5000):
        yield {'n': n, 'float': n % 3 == 0}
    new, _ = consts('semantic_codec/interleaver/interleaver2d.py')
    for x in new:
        for d in (-1, 0, 1):
            if 0 < x + d < 70000:
                yield {'n': x + d, 'float': False}
    for n in (16383, 16384, 16385, 20000, 40000, 65535, 65536, 65537):
        yield {'n': n, 'float': False}
    while True:
        yield {'n': rng.randint(1, rng.choice((12000, 12000, 70000))), 'float': rng.random() < 0.5}


def nontrivial(c):
    return c.get('m', 0) > 0 or c.get('n', 0) > 1


def check(c):
    if 'm' in c:
        a = sucesive_packing(c['m'])
        side = 2 ** max(c['m'], 0)
        got = [x for r in a for x in r]
        if len(a) != side or any(len(r) != side for r in a):
            return 'the matrix of exponent %d has the wrong shape' % c['m']
        if sorted(got) != list(range(side * side)):
            return 'the matrix of exponent %d is not a permutation' % c['m']
        return None
    n = c['n']
    arg = float(n) if c['float'] else n
    flat = build_2d_interleave_sp(arg, True)
    if sorted(flat) != list(range(n)):
        return 'the order for %d packets is not a permutation: %r' % (n, list(flat)[:20])
    rows = build_2d_interleave_sp(arg, False)
    if [x for r in rows for x in r] != list(flat):
        return 'the flat order for %d packets differs from its rows' % n
