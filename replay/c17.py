"""C17 on the real code: decode the solution and compare with the original program."""
from semantic_codec.solution.solution_builders import ForwardConstraintSolutionBuilder
from . import sol

RULE = ('candidate programs of 1..100 addresses (mostly at most 10) with up to 40 candidates (sometimes up to 1500) that contain the original; a case is one program; '
        'non-trivial: at least two addresses have several candidates')
LIMIT = 10


def cases(rng, tier, hints):
    while True:
        yield {'prog': sol.gen(rng, 10, rng.choice((3, 6, 17, 40)), total=1500)}


def nontrivial(c):
    return sum(len(x['c']) > 1 for x in c['prog']) > 1


def check(c):
    p, org = sol.build(c['prog'])
    # the order in which the addresses are solved: fewest candidates first, in the order of the table for equal numbers
    order = sorted(c['prog'], key=lambda x: len(x['c']))
    before = {a: list(v) for a, v in p.items()}
    b = ForwardConstraintSolutionBuilder(p, org)
    b.build()
    exp = []
    for x in order:
        n = len(x['c'])
        if n > 1 and not x['c'][x['o']]['i']:
            size = 0
            while 2 ** size < n:
                size += 1
            exp += [x['o'] >> k & 1 for k in range(size)]
    if b.solution_size != len(exp):
        return 'the size is %r, expected %d' % (b.solution_size, len(exp))
    got = [(w >> k) & 1 for w in b.solution.get_bytes() for k in range(32)]
    if got[:len(exp)] != exp or any(got[len(exp):]):
        return 'the recorded bits do not decode to the original: %r, expected %r' % (got[:len(exp)][:40], exp[:40])
    if {a: v for a, v in before.items()} != {a: list(v) for a, v in p.items()}:
        return 'the candidate lists changed'
