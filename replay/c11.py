"""C11 on the real code."""
from semantic_codec.metadata.metadata_collector import MetadataCollector
from .util import FI, Near, real_word
from semantic_codec.architecture.capstone_instruction import CAPSInstruction

RULE = ('programs of 0..600 instructions (mostly at most 30) with random fields (some undefined, some repeated encodings), a tenth of them real instructions; a case is one program; '
        'non-trivial: a repeated encoding or field value')
LIMIT = 10


def prog(rng, n, wide=False):
    out = []
    encs = [rng.getrandbits(32) for _ in range(max(1, n if wide else n // 2))] + [0]
    conds = range(16) if wide else (14, 14, 0, 1, 3)
    ops = [rng.randrange(500) for _ in range(max(1, n // 2))] if wide else (1, 5, 9, 0, 214)
    for i in range(n):
        r = rng.sample(range(0, 22), rng.randint(0, 4))
        out.append({'e': rng.choice(encs), 'a': 4 * i, 'c': rng.choice(conds), 'o': rng.choice(ops), 'u': r,
                    'r': [x for x in r if rng.random() < 0.6], 'w': [x for x in r if rng.random() < 0.5] + ([rng.randrange(24)] if rng.random() < 0.1 else []),
                    'i': rng.random() < 0.15})
    return out


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/metadata/metadata_collector.py')
    while True:
        n = near.size(rng.choice((0, 1, 2, 3, 5, 8, 12, 30)), 600)
        if rng.random() < 0.1:
            yield {'real': [real_word(rng) for _ in range(min(n, 40))]}
        else:
            yield {'prog': prog(rng, n, n > 30 or rng.random() < 0.2), 'again': [rng.randrange(n) for _ in range(3)] if n and rng.random() < 0.1 else []}


def nontrivial(c):
    return len(c.get('prog', c.get('real'))) > 2


def make(c):
    return [CAPSInstruction(e, 4 * i) for i, e in enumerate(c['real'])] if 'real' in c else [FI(d) for d in c['prog']]


def count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


def check(c):
    p = make(c)
    p += [p[i] for i in c.get('again', ())]         # the same object met again
    if 'real' in c:
        ok = []
        for x in p:
            if not x.ignore:
                try:
                    x.storages_used(), x.storages_read(), x.storages_written()
                except KeyError:
                    continue            # an operand the instruction class has no name for
            ok.append(x)
        p = ok
    m = MetadataCollector()
    m.collect(p)
    v = [x for x in p if not x.ignore]
    for name, got, exp in (('condition', m.condition_count, count(x.conditional_field for x in v)),
                           ('opcode', m.instruction_count, count(x.opcode_field for x in v)),
                           ('storage', m.storage_count, count(s for x in v for s in x.storages_used()))):
        if got != exp:
            return '%s counts %r, expected %r' % (name, got, exp)
    encs = sorted(set(x.encoding for x in v), reverse=True)
    if [x.encoding for x in m.empty_spaces] != encs:
        return 'distinct encodings %r, expected %r' % ([x.encoding for x in m.empty_spaces], encs)
    if any(not any(x is y for y in v) for x in m.empty_spaces):
        return 'an instruction of the list is not one of the program'
