"""C08 on the real code."""
from semantic_codec.corruption.corruption import corrupt_all_bits, corrupt_all_bits_tuples
from .util import Near

RULE = ('words with disjoint ranges of up to 10 bits in total (single ranges for corrupt_all_bits), and illegal ranges; a case is one call; '
        'non-trivial: at least two bits are corrupted')


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/corruption/corruption.py')
    for lo in range(0, 32):
        for hi in range(lo, min(33, lo + 7)):
            yield {'op': 'one', 'w': rng.getrandbits(32), 'ranges': [[lo, hi]]}
    for lo, hi in ((5, 3), (-1, 4), (30, 32), (0, 33), (31, 30), (40, 41), (32, 32)):
        yield {'op': 'bad', 'w': 5, 'ranges': [[lo, hi]]}
        yield {'op': 'bad', 'w': 5, 'ranges': [[0, 2], [lo, hi]]}
    for h in range(0, 32):
        yield {'op': 'many', 'w': rng.getrandbits(32), 'ranges': [[h, h]]}
        if h:
            yield {'op': 'many', 'w': rng.getrandbits(32), 'ranges': [[h - 1, h]]}
    yield {'op': 'many', 'w': 77, 'ranges': []}
    while True:
        left, at, rs = rng.randint(0, 10 if tier == 'quick' else 13), 0, []
        while left >= 0 and at < 31 and len(rs) < 12:
            at += rng.choice((0, 0, 1, 3, rng.randint(0, 12)))
            n = min(rng.choice((0, 1, 1, 2, 2, 3, left)), left, 31 - at)
            if at > 31 or n < 0:
                break
            rs.append([at, at + n])
            at += n
            left -= n
            if rng.random() < 0.25:
                break
        rng.shuffle(rs)
        yield {'op': 'many', 'w': near.value(rng.choice((0, 0xFFFFFFFF, rng.getrandbits(32)))), 'ranges': rs}


def nontrivial(c):
    return c['op'] != 'bad' and sum(h - l for l, h in c['ranges']) > 1


def subsets(w, bits):
    out = [w]
    for b in bits:
        out += [x ^ (1 << b) for x in out]
    return out


def check(c):
    w, rs = c['w'], c['ranges']
    if c['op'] == 'bad':
        try:
            corrupt_all_bits_tuples([tuple(r) for r in rs], w)
        except RuntimeError:
            return None
        return 'the range %r is accepted' % rs
    exp = subsets(w, [b for l, h in rs for b in range(l, h)])
    got = corrupt_all_bits(rs[0][0], rs[0][1], w) if c['op'] == 'one' else corrupt_all_bits_tuples([tuple(r) for r in rs], w)
    if not got or got[0] != w:
        return 'the original does not come first'
    if len(set(got)) != len(got):
        return 'a word is repeated'
    if set(got) != set(exp):
        return 'missing %r, unexpected %r' % (sorted(set(exp) - set(got))[:3], sorted(set(got) - set(exp))[:3])
