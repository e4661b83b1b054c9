"""C13 on the real code."""
from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector
from .util import FI, Near, base_addr
from .c11 import prog, count

RULE = ('candidate programs of 0..120 addresses (mostly at most 10) with 0..300 candidates each (mostly at most 6) (some undefined), collected once or twice; a case is one program; '
        'non-trivial: an address with several valid candidates')
LIMIT = 10


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/metadata/metadata_collector.py')
    while True:
        w = rng.random() < 0.2
        a = near.size(rng.randint(0, 10), 120, 0.02)
        m = near.size(0, 300, 0.02)
        k = 1500 // max(1, a)
        yield {'prog': [prog(rng, min(k, m) if m and rng.random() < 0.5 else rng.choice((0, 1, 2, 3, 6)), w) for _ in range(a)], 'at': base_addr(rng, a, 0),
               'before': [prog(rng, 2) for _ in range(2)] if rng.random() < 0.5 else None}


def nontrivial(c):
    return any(sum(not d['i'] for d in v) > 1 for v in c['prog'])


def check(c):
    pr = {c['at'] + 4 * i: [FI(d) for d in v] for i, v in enumerate(c['prog'])}
    m = CorruptedProgramMetadataCollector()
    if c['before']:
        m.collect({4 * i: [FI(d) for d in v] for i, v in enumerate(c['before'])})
    m.collect(pr)
    for name, got, f in (('condition', m.address_with_cond, lambda x: [x.conditional_field]), ('opcode', m.address_with_op, lambda x: [x.opcode_field]),
                         ('storage', m.address_with_reg, lambda x: x.storages_used())):
        exp = count(k for v in pr.values() for k in set(k for x in v if not x.ignore for k in f(x)))
        if got != exp:
            return '%s counts %r, expected %r' % (name, got, exp)
