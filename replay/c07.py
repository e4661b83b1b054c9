"""C07 on the real code: predicted losses against a reference."""
from semantic_codec.corruption.corruption import predict_corruption
from .util import Near

RULE = ('random packet counts 1..200, unit sizes 1..32, data sizes 0..200 words (mostly below 41 and 21), orders and losses (a packet sometimes named twice); a case is one prediction; '
        'non-trivial: at least one lost unit starts inside the data')
LIMIT = 10


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/corruption/corruption.py')
    while True:
        P = rng.choice((1, 2, 3, 4, 5, 8, 16, 17, rng.randint(1, 40)))
        P = near.size(P, 200, 0.02)
        ws = rng.choice((1, 2, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, rng.randint(1, 32)))
        order = list(range(P))
        if rng.random() < 0.8:
            rng.shuffle(order)
        lost = rng.sample(range(P), rng.randint(0, min(P, rng.choice((1, 2, 3, P)))))
        if lost and rng.random() < 0.1:
            lost.append(rng.choice(lost))
        yield {'P': P, 'ws': ws, 'n': near.size(rng.choice((0, 1, 2, 3, 5, rng.randint(0, 20))), 200, 0.02), 'order': order, 'lost': lost, 'fl': rng.random() < 0.2}


def units(c):
    P, ws, total = c['P'], c['ws'], c['n'] * 32
    out = []
    for p in c['lost']:
        x = ws * c['order'].index(p)
        while x < total:
            out.append(x)
            x += ws * P
    return out


def nontrivial(c):
    return bool(units(c))


def expected(c, shifted):
    """the pieces as the code reports them. shifted: the pieces of a unit that reaches the end of its word as the
    test suite pins them (one bit later than the real loss)"""
    ws = c['ws']
    out = set()
    for x in units(c):
        w, b = divmod(x, 32)
        if b + ws > 32 or (shifted and b + ws == 32):
            first = (31 if shifted else 32) - b
            out.add((w, b, first))
            out.add((w + 1, 0, ws - first))
        else:
            out.add((w, b))
    return out


def check(c):
    order = [float(x) for x in c['order']] if c['fl'] else c['order']
    got = predict_corruption(c['P'], c['ws'], c['n'], order, c['lost'])
    g = [tuple(t) for t in got]
    if len(set(g)) != len(g):
        return 'reports a piece twice'
    if set(g) == expected(c, False):
        return None
    if set(g) == expected(c, True):
        return 'last-bit: a unit that reaches the last bit of its word is reported one bit late: %r instead of %r' % (
            sorted(set(g) - expected(c, False))[:3], sorted(expected(c, False) - set(g))[:3])
    return 'reports %r, expected %r' % (sorted(set(g) - expected(c, True))[:4], sorted(expected(c, True) - set(g))[:4])


def known(c, txt):
    return 'last-bit' if txt.startswith('last-bit:') else None
