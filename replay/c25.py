"""C25 on the real code."""
from semantic_codec.metadata.probabilistic_rules.rules import from_instruction_dict_to_list, from_instruction_list_to_dict, from_functions_to_list_and_addr
from semantic_codec.architecture.functions import ElfFunction
from .util import FI, Near, base_addr

RULE = ('lists of 0..300 (mostly at most 12) instructions with distinct addresses in any order, tables, and 0..5 functions of 0..6 consecutive instructions in any order; a case is one; '
        'non-trivial: at least two entries out of order')


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/metadata/probabilistic_rules/rules.py', 'semantic_codec/architecture/functions.py')
    while True:
        n = near.size(rng.randint(0, 12), 300, 0.02)
        lo = base_addr(rng, n, 0)
        a = rng.sample(range(lo, lo + rng.choice((4 * n + 4, 4 * n + 400, 2 ** 20, 2 ** 32)), rng.choice((4, 4, 2))), n)
        fns, at = [], rng.choice((rng.randrange(4, 100, 4), rng.randrange(4, 2 ** 28, 4), max(4, base_addr(rng, 10, 4))))
        for _ in range(near.size(rng.randint(0, 5), 40, 0.02)):
            k = near.size(rng.randint(0, 6), 60, 0.01)
            fns.append([at + 4 * i for i in range(k)])
            at += 4 * k + rng.choice((0, 0, 8, 8, 0x10000))
        if sum(not f for f in fns) > 1:
            fns = [f for f in fns if f]
        rng.shuffle(fns)
        yield {'a': a, 'fns': fns}


def nontrivial(c):
    return c['a'] != sorted(c['a'])


def same(x, y):
    return len(x) == len(y) and all(a is b for a, b in zip(x, y))


def check(c):
    ins = [FI({'a': a, 'e': 7 * a}) for a in c['a']]
    keep = list(ins)
    t = from_instruction_list_to_dict(ins)
    if sorted(t) != sorted(c['a']) or any(not same(t[i.address], [i]) for i in keep):
        return 'the table is not one entry per instruction'
    extra = {k: v + [FI({'a': k})] for k, v in t.items()}
    l = from_instruction_dict_to_list(extra)
    srt = sorted(keep, key=lambda i: i.address)
    if len(l) != len(srt) or any(x is not extra[i.address] for x, i in zip(l, srt)):
        return 'the list is not the table in ascending order of address'
    if not same([x[0] for x in from_instruction_dict_to_list(t)], srt) or not same(ins, keep):
        return 'the conversion back differs'
    fs, allin, exp = [], [], {}
    for f in c['fns']:
        e = ElfFunction('f')
        e.instructions = [FI({'a': a}) for a in f]
        allin += e.instructions
        fs.append(e)
        exp[f[0] if f else 0] = (f[0], f[-1]) if f else (0, 0)
        if (e.start_addr(), e.final_addr(), e.length_in_bytes()) != exp[f[0] if f else 0] + (4 * len(f),):
            return 'the bounds of a function are wrong'
    l, m = from_functions_to_list_and_addr(fs)
    if not same(l, sorted(allin, key=lambda i: i.address)):
        return 'the flattened list is wrong'
    if m != exp or any(len(e.instructions) != len(f) for e, f in zip(fs, c['fns'])):
        return 'the function addresses are %r, expected %r' % (m, exp)
