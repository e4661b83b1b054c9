"""Reference interleaver used by C04, C05 and C07: units in stream order, unit u belongs to packet order[u mod P]."""


from .util import Near


def bits_of(words):
    return [(w >> b) & 1 for w in words for b in range(32)]


def words_of(bits):
    return [sum(b << k for k, b in enumerate(bits[i:i + 32])) for i in range(0, len(bits), 32)]


def packet_bits(data, order, ws):
    b = bits_of(data)
    out = {int(p): [] for p in order}
    P = len(order)
    for u in range(len(b) // ws):
        out[int(order[u % P])] += b[u * ws:(u + 1) * ws]
    return out


def gen(rng, big=False):
    near = Near(rng, 'semantic_codec/interleaver/interleaver2d.py', 'semantic_codec/architecture/bits.py')
    ws = rng.choice((1, 2, 4, 8, 16, 32))
    n = near.size(rng.randint(0, 12) if not big else rng.randint(0, 60), 300, 0.02)
    P = near.size(rng.choice((1, 2, 3, 4, 5, 7, 8, 16, 17, 31, 33, rng.randint(1, 40))), 300, 0.02)
    order = list(range(P))
    k = rng.randrange(4)
    if k:
        rng.shuffle(order)
    if k == 2:
        order = [float(x) for x in order]
    if k == 3:
        order = [x * 3 + 5 for x in order]
    data = [near.value(rng.choice((0, 0xFFFFFFFF, 1, 1 << 31, rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32)))) for _ in range(n)]
    return {'ws': ws, 'order': order, 'data': data}
