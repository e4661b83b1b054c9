"""C01 on the real code: the bit-field operations against definitions bit by bit."""
from semantic_codec.architecture.bits import Bits
from .util import Near

RULE = ('every (higher, lower) pair in -2..33 and every (source, destination) field of a 32-bit word, each with several words; '
        'a case is one call; non-trivial: the range is legal')


def cases(rng, tier, hints):
    for hi in range(-2, 35):
        for lo in range(-2, 35):
            yield {'op': 'set', 'a': [hi, lo]}
    for v in range(32):
        yield {'op': 'on', 'a': [v]}
    near = Near(rng, 'semantic_codec/architecture/bits.py')
    words = near.new + [0, 1, 0xFFFFFFFF, 0x80000000, 0xA5A5A5A5, 0x12345678]
    for w in words:
        for b in range(32):
            yield {'op': 'is_on', 'a': [w, b]}
    for h in hints:
        h = {str(k).split('!')[0]: v for k, v in h.items() if isinstance(v, int)}
        yield {'op': 'copy_bits', 'a': [abs(h.get('value_from', 5)), abs(h.get('value_to', 9)) & 0xFFFFFFFF, h.get('src_from', 0), h.get('src_to', 3), h.get('dest_from', 1)]}
    rounds = 40 if tier == 'thorough' else 2
    for r in range(rounds):
        for sf in range(-1, 33):
            for st in range(-1, 33):
                for df in range(-1, 33):
                    yield {'op': 'copy_bits', 'a': [near.value(rng.choice((0, 1, 0xFFFFFFFF, 1 << rng.randrange(32), rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(40)))),
                                                     near.value(rng.choice((0, 0xFFFFFFFF, 1 << rng.randrange(32), rng.getrandbits(32), rng.getrandbits(32)))), sf, st, df]}
        for hi in range(-2, 34):
            for lo in range(-2, 34):
                yield {'op': 'are_on', 'a': [rng.choice((0, 1 << max(0, hi), 1 << max(lo - 1, 0), 1 << (hi + 1) if hi >= -1 else 0, rng.getrandbits(32))), hi, lo]}


def nontrivial(c):
    return c['op'] in ('on', 'is_on') or all(0 <= x < 32 for x in c['a'][-2:])


def bad(lo, hi):
    return lo > hi or lo < 0 or hi >= 32


def check(c):
    op, a = c['op'], c['a']
    try:
        got = getattr(Bits, op)(*a)
    except RuntimeError:
        got = 'RuntimeError'
    bitv = lambda v, i: (v >> i) & 1
    if op == 'set':
        hi, lo = a
        exp = 'RuntimeError' if bad(lo, hi) else sum(1 << k for k in range(32) if lo <= k <= hi)
    elif op == 'on':
        exp = 1 << a[0]
    elif op == 'is_on':
        exp = bool(bitv(a[0], a[1]))
    elif op == 'are_on':
        w, hi, lo = a
        exp = 'RuntimeError' if bad(lo, hi) else any(bitv(w, k) for k in range(lo, hi + 1))
    else:
        vf, vt, sf, st, df = a
        dt = df + st - sf
        exp = 'RuntimeError' if bad(sf, st) or bad(df, dt) else sum((bitv(vf, k - df + sf) if df <= k <= dt else bitv(vt, k)) << k for k in range(32))
    if got != exp or isinstance(got, bool) != isinstance(exp, bool):
        return '%s%r = %r, expected %r' % (op, tuple(a), got, exp)
