"""C15 on the real code."""
from recover_program import remove_bad_candidates_at_addr
from .util import FI, Near

RULE = ('lists of 0..400 candidates (mostly at most 12) with scores 0, 1 and in between; a case is one list; non-trivial: something is removed and something stays')


def cases(rng, tier, hints):
    import itertools
    for n in range(0, 6):
        for t in itertools.product((0, 0.5, 1), repeat=n):
            yield {'s': list(t)}
    near = Near(rng, 'recover_program.py')
    while True:
        n = near.size(rng.randint(0, 12), 400)
        mix = rng.choice(((0, 0.0, 1, 1.0, 0.5, 2, 1e-9, 1 - 1e-9), (0, 0.5, 2), (0.5, 2), (1, 0.5), (0.25, 0.5, 0.5, 0.5, 1)))
        s = [rng.choice(mix) for _ in range(n)]
        s = [rng.random() if x == 2 else x for x in s]
        if n and rng.random() < 0.3:
            s[rng.choice((0, -1, rng.randrange(n)))] = rng.choice((0, 1))
        yield {'s': s}


def keep(s):
    one = any(x == 1 for x in s)
    return [i for i, x in enumerate(s) if x != 0 and not (one and x < 1)]


def nontrivial(c):
    return 0 < len(keep(c['s'])) < len(c['s'])


def check(c):
    v = [FI({'e': i, 's': x}) for i, x in enumerate(c['s'])]
    all_ = list(v)
    r = remove_bad_candidates_at_addr(v)
    exp = [all_[i] for i in keep(c['s'])]
    if len(v) != len(exp) or any(a is not b for a, b in zip(v, exp)):
        return 'scores %r: kept %r, expected %r' % (c['s'], [x.encoding for x in v], [x.encoding for x in exp])
    if r != len(all_) - len(exp):
        return 'scores %r: returned %r, removed %d' % (c['s'], r, len(all_) - len(exp))
