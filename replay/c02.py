"""C02 on the real code: field replacement against the definition bit by bit."""
from .util import Near, stub_darm

stub_darm()
from semantic_codec.compressor.huffman import InstructionModifier

RULE = ('every modify_* function on words with few or many bits set and new values inside and beyond the field; a case is one call; '
        'non-trivial: the new field differs from the old one')
F = {'cond': (28, 4), 'opcode': (21, 4), 'rn': (16, 4), 'rd': (12, 4), 'rs': (8, 4), 'rm': (0, 4), 'immediate': (0, None)}


def width(op, w):
    at, n = F[op]
    return at, n if n else (12 if w & 0x0E000000 == 0x04000000 else 8)


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/architecture/bits.py', 'semantic_codec/compressor/huffman.py', 'semantic_codec/architecture/instruction_modifier.py')
    words = [x & 0xFFFFFFFF for x in near.new] + [0, 0xFFFFFFFF, 0xA5A5A5A5, 0x5A5A5A5A, 0xE5900000, 0xE3A00001, 0x04000000, 0x06000000, 0x0C000000, 0xF4FFFFFF] + [1 << i for i in range(32)] + \
            [0xFFFFFFFF ^ (1 << i) for i in range(32)]
    vals = near.new + list(range(16)) + [0xFF, 0x100, 0xFFF, 0x1000, 0x1234, 0xFFFFFFFF, 0x80000000, 0xFF0, 0x8000, 1 << 35]
    for op in F:
        for w in words:
            for v in vals:
                yield {'op': op, 'w': w, 'v': v}
    while True:
        w = rng.getrandbits(32)
        yield {'op': rng.choice(list(F)), 'w': w, 'v': rng.getrandbits(rng.choice((4, 8, 12, 13, 32, 40)))}


def nontrivial(c):
    at, n = width(c['op'], c['w'])
    return (c['w'] >> at ^ c['v']) & ((1 << n) - 1) != 0


def check(c):
    op, w, v = c['op'], c['w'], c['v']
    at, n = width(op, w)
    m = (1 << n) - 1
    exp = w & ~(m << at) | (v & m) << at
    got = getattr(InstructionModifier(), 'modify_' + op)(w, v)
    if got != exp:
        return 'modify_%s(%#x, %#x) = %r, expected %#x' % (op, w, v, got, exp)
