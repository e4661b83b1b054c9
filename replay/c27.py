"""C27 on the real code."""
from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
from .util import FI, Near, base_addr

RULE = ('lists of 0..80 (mostly at most 14) instructions with random conditions and branches (backwards, forwards, outside, with link), some undefined; a case is one list; '
        'non-trivial: at least one branch inside the list')
LIMIT = 10


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/static_analysis/cfg.py')
    while True:
        n = near.size(rng.choice((0, 1, 2, 3, 4, 5, 6, 8, 10, 14)), 80, 0.02)
        base = base_addr(rng, n, rng.choice((0x100, 0, 0x8000, 0xFFFFFF00 - 4 * n)))
        at, here = [], base
        gap = rng.random()
        for i in range(n + 1):
            at.append(here)
            here += 4
            if gap < 0.15 and rng.random() < 0.4:
                here += near.value(rng.choice((4, 0x100, 0x1000, 0x10000, 0x100000)) - 4) & ~3
                if here >= 2 ** 32 and gap < 0.15:
                    here = at[-1] + 4
        out = []
        dens = rng.choice((0.3, 0.3, 0.3, 0.1, 0.7))
        few = rng.choice(([14], [14, 0], [14, 0, 1], [0]))
        for i in range(n):
            d = {'e': i, 'a': at[i], 'c': rng.choice(few), 'i': rng.random() < 0.08}
            if rng.random() < dens:
                d['b'] = rng.choice((at[rng.randint(0, i)], at[rng.randint(0, n)], at[rng.randint(0, i)], 4, True))
                d['l'] = rng.random() < 0.3
            out.append(d)
        yield {'prog': out}


def jumps(p):
    return [(i, j) for i, x in enumerate(p) if x.is_branch and not x.is_undefined for j in range(len(p)) if p[j].address == x.jumping_address and not p[j].is_undefined]


def nontrivial(c):
    return bool(jumps([FI(d) for d in c['prog']]))


def check(c):
    p = [FI(d) for d in c['prog']]
    g = ARMControlFlowGraph(p)
    g.build()
    defined = [x for x in p if not x.is_undefined]
    where = {}
    for b in g:
        if b.kind not in (CFGBlock.BLOCK, CFGBlock.ROOT) and b.instructions:
            return 'a node that is no block holds instructions'
        pos = []
        for x in b.instructions:
            k = next((i for i, y in enumerate(defined) if y is x), None)
            if k is None:
                return 'a block holds an undefined instruction'
            if k in where:
                return 'instruction %d is in two places' % x.encoding
            where[k] = b
            pos.append(k)
        if pos != list(range(pos[0], pos[0] + len(pos))) if pos else False:
            return 'a block holds %r' % pos
    if len(where) != len(defined):
        return 'instruction %d is in no block' % next(x.encoding for i, x in enumerate(defined) if i not in where)
    for i, j in jumps(p):
        bi = where[next(k for k, y in enumerate(defined) if y is p[i])]
        bj = where[next(k for k, y in enumerate(defined) if y is p[j])]
        if bj.instructions[0] is not p[j]:
            return 'the target %d of branch %d does not start its block' % (j, i)
        if not g.has_edge((bi, bj)) and not any(n.kind == CFGBlock.COND and g.has_edge((bi, n)) and g.has_edge((n, bj)) for n in g):
            return 'no edge from the block of branch %d to its target %d' % (i, j)
