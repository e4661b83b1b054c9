"""C31 on the real code."""
import struct
from .util import Near
from semantic_codec.compressor.shiftcompressor import ShiftCompressor, SwapCompressor

RULE = ('data of 1..400 words (mostly at most 8) and sets of disjoint groups (1..20 bits) given in any order, some outside the data; a case is one data set; non-trivial: at least two groups')
LIMIT = 10


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/compressor/shiftcompressor.py')
    while True:
        n = near.size(rng.randint(1, 8), 400, 0.03)
        k = near.size(rng.choice((1, 2, 2, 2, 3, 4)), 20, 0.02)
        far = rng.choice((20, 20, 200, 2000)) if n > 10 else 20
        total = 32 * n
        pos, at = [], rng.choice((0, 0, 1, 5, 30))
        while at < total + 40:
            if rng.random() < 0.5:
                pos.append(at)
            at += k + rng.choice((0, 0, 1, 2, 7, far))
        rng.shuffle(pos)
        inside = [x for x in pos if x + k <= total]
        g = [[x // 32, x % 32] + ([1] if rng.random() < 0.1 else []) for x in (pos if rng.random() < 0.4 else inside)]
        yield {'data': [rng.choice((0, 0xFFFFFFFF, rng.getrandbits(32))) for _ in range(n)], 'k': k, 'g': g, 'op': rng.choice(('shift', 'swap'))}


def nontrivial(c):
    return len(c['g']) > 1


def check(c):
    data, k = c['data'], c['k']
    raw = struct.pack('%dI' % len(data), *data)
    bits = [x >> (7 - i) & 1 for x in raw for i in range(8)]
    K = ShiftCompressor if c['op'] == 'shift' else SwapCompressor
    groups = [tuple(g) for g in c['g']]
    q = K(list(groups), list(data), k) if k != 2 else K(list(groups), list(data))
    q.compress()
    if c['op'] == 'shift':
        gone = set(g[0] * 32 + g[1] + i for g in groups for i in range(k))
        exp = [b for i, b in enumerate(bits) if i not in gone]
    else:
        first = set(g[0] * 32 + g[1] for g in groups if len(g) == 2)
        exp = [0 if i in first else b for i, b in enumerate(bits)]
    exp += [0] * (-len(exp) % 8)
    got = [x >> (7 - i) & 1 for x in q.compressed_buffer for i in range(8)]
    if got != exp:
        i = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
        return '%s: %d bits, expected %d, first difference at %d' % (c['op'], len(got), len(exp), i)
