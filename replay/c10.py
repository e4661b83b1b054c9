"""C10 on the real code, with the outcomes of the random generator chosen by the case."""
import random
from unittest import mock
from semantic_codec.corruption import corruption
from .util import Near
from semantic_codec.corruption.corruption import corrupt_bits, corrupt_conditional, corrupt_registers, corrupt_opcode

RULE = ('words, ranges, amounts 0..9 (not more than the bits of the range) and chosen outcomes of the random generator, repeated ones included; '
        'a case is one call; non-trivial: at least two bits are flipped')
LIMIT = 10
FN = {'cond': (corrupt_conditional, 28, 31), 'reg': (corrupt_registers, 0, 10), 'op': (corrupt_opcode, 20, 27)}


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/corruption/corruption.py')
    while True:
        k = rng.randrange(5)
        c = {'w': rng.choice((0, 0xFFFFFFFF, rng.getrandbits(32))), 'seed': rng.getrandbits(30)}
        if k < 2:
            a = rng.randint(0, 31)
            b = rng.randint(a, min(31, a + rng.choice((0, 1, 3, 8, 31))))
            c.update(op='bits', lo=a, hi=b)
        else:
            c['op'] = ('cond', 'reg', 'op')[k - 2]
            c['lo'], c['hi'] = FN[c['op']][1:]
        width = c['hi'] - c['lo'] + 1
        c['n'] = min(near.size(rng.randint(0, min(7, width)), 9), width)
        c['lag'] = rng.random()
        if rng.random() < 0.3:          # words that a combination of the selected bits turns into 0
            c['w'] = sum(1 << b for b in rng.sample(range(c['lo'], c['hi'] + 1), rng.randint(0, c['n'])))
            if rng.random() < 0.3:
                c['w'] ^= 0xFFFFFFFF
        yield c


def nontrivial(c):
    return c['n'] > 1


def check(c):
    r = random.Random(c['seed'])
    pool = [r.randint(c['lo'], c['hi']) for _ in range(3)]
    drawn = []

    def randint(a, b):
        lo, hi = min(a, b), max(a, b)
        if len(drawn) > 5000:
            v = lo + len(drawn) % (hi - lo + 1)
        else:
            k = r.random()
            v = r.choice(pool) if k < 0.3 else r.choice(drawn) if k < 0.3 + 0.5 * c.get('lag', 0) and drawn else r.randint(c['lo'], c['hi'])
            v = min(max(v, lo), hi)
        drawn.append(v)
        return v
    random.seed(c['seed'])
    patches = [mock.patch.object(random, 'randint', randint)]
    if hasattr(corruption, 'randint'):
        patches.append(mock.patch.object(corruption, 'randint', randint))
    for p in patches:
        p.start()
    try:
        if c['op'] == 'bits':
            got = corrupt_bits(c['hi'], c['lo'], c['n'], c['w'])
        else:
            got = FN[c['op']][0](c['n'], c['w'])
    finally:
        for p in patches:
            p.stop()
    if got[0] != c['w']:
        return 'the original does not come first'
    if len(set(got)) != len(got):
        return 'a word is repeated'
    if len(got) != 2 ** c['n']:
        return '%d words for %d bits' % (len(got), c['n'])
    flips = set(x ^ c['w'] for x in got)
    allb = 0
    for f in flips:
        allb |= f
    if bin(allb).count('1') != c['n']:
        return 'flips %d bits, %d were asked for' % (bin(allb).count('1'), c['n'])
    if any(allb >> b & 1 and not c['lo'] <= b <= c['hi'] for b in range(max(40, allb.bit_length()))):
        return 'flips bits outside the range: %#x' % allb
