"""C04 on the real code: interleave and deinterleave against a bit-level reference."""
from semantic_codec.interleaver.interleaver2d import interleave, deinterleave
from . import il

RULE = ('random data (0..300 words, mostly fewer than 60), orders (1..300 packets, mostly fewer than 41, shuffled, with float or sparse numbers) and unit sizes 1..32 dividing 32; '
        'a case is one data set; non-trivial: at least one word and two packets')
LIMIT = 10


def cases(rng, tier, hints):
    for ws in (1, 2, 4, 8, 16, 32):
        for n in (0, 1, 2, 3, 5):
            for P in (1, 2, 3, 4, 5, 8, 16, 17):
                o = list(range(P))
                rng.shuffle(o)
                yield {'ws': ws, 'order': o, 'data': [rng.getrandbits(32) for _ in range(n)]}
    while True:
        yield il.gen(rng, rng.random() < 0.3)


def nontrivial(c):
    return len(c['data']) > 0 and len(c['order']) > 1


def check(c):
    data, order, ws = c['data'], c['order'], c['ws']
    d0, o0 = list(data), list(order)
    pk = interleave(data, order, ws)
    if data != d0 or order != o0:
        return 'the data or the order were changed'
    ref = il.packet_bits(data, order, ws)
    if set(pk) != set(ref):
        return 'packets %r, expected %r' % (sorted(pk), sorted(ref))
    for p in ref:
        got = il.bits_of(pk[p].get_bytes())
        if got[:len(ref[p])] != ref[p] or any(got[len(ref[p]):]):
            return 'packet %r does not hold its units' % p
        if pk[p].empty() != (not ref[p]):
            return 'packet %r: empty() is wrong' % p
    out, errors = deinterleave(pk, order, ws)
    if errors:
        return 'reports %r lost with every packet present' % errors[:3]
    if out[:len(data)] != data or any(out[len(data):]):
        return 'returned %r, expected %r and zeros' % (out[:8], data[:8])
    n = len(data) * 32 // ws
    P = len(order)
    units = (n + P - 1) // P * P
    if len(out) * 32 > units * ws + 32 or len(out) * 32 < units * ws:
        return '%d words of output for %d units' % (len(out), units)
