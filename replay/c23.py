"""C23 on the real code."""
from .util import FI, Near, real_word, stub_darm

stub_darm()
from semantic_codec.compressor.huffman import InstructionPartFrequencyCounter
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from .c11 import prog

RULE = ('programs of 0..300 instructions (mostly at most 20) with random fields, fields repeated inside an instruction too, or of up to 8 real words, words repeated; a case is one program; non-trivial: at least three instructions')
LIMIT = 10


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/compressor/huffman.py')
    while True:
        if rng.random() < 0.1:
            pool = [real_word(rng) for _ in range(rng.randint(1, 4))]
            yield {'words': [[rng.choice(pool), rng.choice((4 * i, 4 * i, 0))] for i in range(rng.randint(1, 8))]}
            continue
        n = near.size(rng.choice((0, 1, 2, 3, 5, 8, 20)), 300, 0.02)
        p = prog(rng, n, rng.random() < 0.2)
        for d in p:
            d['i'] = False
            if rng.random() < 0.3 and d['u']:
                d['u'] = d['u'] + [d['u'][0]] * rng.randint(1, 3)
        yield {'prog': p, 'again': [rng.randrange(n) for _ in range(rng.randint(1, 4))] if n and rng.random() < 0.15 else []}


def nontrivial(c):
    return len(c.get('words') or c['prog']) > 2


def check(c):
    if 'words' in c:
        p = [x for x in (CAPSInstruction(w, a) for w, a in c['words']) if not x.is_undefined]
    else:
        p = [FI(d) for d in c['prog']]
    p += [p[i] for i in c.get('again', ())]              # the same object met again
    keep = list(p)
    k = InstructionPartFrequencyCounter()
    k.count(p)
    if len(p) != len(keep) or any(a is not b for a, b in zip(p, keep)) or 'prog' in c and [x.d for x in p[:len(c['prog'])]] != c['prog']:
        return 'counting changes the program'
    for name, fr, wi, f in (('register', k.reg_frequency, k.reg_with, lambda x: x.registers_used()), ('opcode', k.opcode_frequency, k.opcode_with, lambda x: [x.opcode_field]),
                            ('condition', k.cond_frequency, k.cond_with, lambda x: [x.conditional_field])):
        exp, lst = {}, {}
        for x in keep:
            for v in f(x):
                exp[v] = exp.get(v, 0) + 1
                l = lst.setdefault(v, [])
                if not any(x is y for y in l):
                    l.append(x)
        if fr != exp:
            return '%s frequencies %r, expected %r' % (name, fr, exp)
        if set(wi) != set(lst) or any(len(wi[v]) != len(lst[v]) or any(a is not b for a, b in zip(wi[v], lst[v])) for v in lst):
            return 'the instructions listed for a %s are wrong' % name
