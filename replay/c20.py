"""C20 on the real code: the constraint called directly, and whole problems solved exhaustively."""
import itertools
from constraint import Domain
from semantic_codec.solution.solution_builders import ExactFieldSumConstraint, ProblemBuilder
from semantic_codec.metadata.metadata_collector import MetadataCollector
from .util import FI, Near

RULE = ('1..40 variables (mostly at most 5) with 1..60 candidates (mostly at most 4), totals near the counts of some assignment, every kind of partial assignment, with and without forward checking; '
        'whole problems of at most 200 assignments; non-trivial: a variable with several candidates')
LIMIT = 10


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/solution/solution_builders.py')
    while True:
        n = rng.randint(1, 5)
        big = rng.random()
        if big < 0.04:
            n = near.size(n, 40, 1)
        dmax = near.size(4, 60, 1) if 0.04 <= big < 0.08 else 4
        vals = rng.sample(range(20), rng.randint(1, 4) if rng.random() < 0.8 else rng.randint(5, 12))
        doms = []
        for i in range(n):
            doms.append([{'e': 100 * i + j, 'a': i, 'c': rng.choice((14, 0)), 'o': rng.choice((1, 2)), 'u': [v for v in vals if rng.random() < 0.45],
                          'i': rng.random() < 0.12} for j in range(rng.randint(1, dmax))])
        tot = {}
        pick = [rng.randrange(len(d)) for d in doms]
        for d, k in zip(doms, pick):
            x = d[k]
            if not x['i']:
                for v in x['u']:
                    tot[v] = tot.get(v, 0) + 1
        if rng.random() < 0.4 and tot:
            k = rng.choice(list(tot))
            tot[k] = max(0, tot[k] + rng.choice((-1, 1)))
        if rng.random() < 0.15:
            tot[25] = rng.choice((0, 1))
        asg = [rng.randint(-1, len(d) - 1) if rng.random() < 0.7 else 0 for d in doms]
        if rng.random() < 0.4:                  # (part of) an assignment that has the totals
            h = rng.choice((0, 0.1, 0.5))
            asg = [-1 if rng.random() < h else k for k in pick]
        yield {'doms': doms, 'tot': sorted(tot.items()), 'asg': asg,
               'fwd': rng.random() < 0.6, 'solve': rng.random() < 0.15, 'pick': [rng.randrange(len(d)) for d in doms]}


def nontrivial(c):
    return any(len(d) > 1 for d in c['doms'])


def counts(insts):
    s = {}
    for x in insts:
        if not x.ignore:
            for v in x.storages_used():
                s[v] = s.get(v, 0) + 1
    return s


def check(c):
    tot = dict(c['tot'])
    doms = [[FI(d) for d in v] for v in c['doms']]
    vs = list(range(len(doms)))
    D = {v: Domain(list(doms[v])) for v in vs}
    asg = {v: doms[v][k] for v, k in zip(vs, c['asg']) if k >= 0}
    f = ExactFieldSumConstraint(dict(tot), lambda x: x.storages_used())
    got = f(vs, D, dict(asg), forwardcheck=True) if c['fwd'] else f(vs, D, dict(asg))
    s = counts(asg.values())
    over = any(s[k] > tot.get(k, 0) or k not in tot for k in s)
    full = len(asg) == len(vs)
    if full:
        exp = all(s.get(k, 0) == t for k, t in tot.items()) and not over
        if bool(got) != exp:
            return 'a complete assignment is %s' % ('accepted' if got else 'rejected')
    else:
        if over and got:
            return 'an assignment over a total is accepted'
        fits = lambda x: x.ignore or all(v in tot and s.get(v, 0) + 1 <= tot[v] for v in x.storages_used())
        empty = False
        for v in vs:
            left = list(D[v])
            hidden = [x for x in doms[v] if not any(x is y for y in left)]
            if v in asg or not c['fwd'] or over:
                if hidden:
                    return 'candidates are hidden needlessly'
                continue
            for x in hidden:
                if fits(x):
                    return 'a candidate that fits is hidden'
            if not left:
                empty = True
        if not got and not over and not empty:
            return 'a partial assignment within the totals is rejected'
    if c['solve'] and len(doms) > 1:         # the solver library fails on a constraint over one variable
        import math
        if math.prod(len(d) for d in doms) > 200:
            return None
        m = MetadataCollector()
        m.collect([doms[v][k] for v, k in zip(vs, c['pick'])])
        pb = ProblemBuilder().build({v: doms[v] for v in vs}, m)
        got = sorted([s[v].encoding for v in vs] for s in pb.getSolutions())
        exp = []
        for t in itertools.product(*doms):
            ok = counts(t) == m.storage_count
            for a, b in (('conditional_field', m.condition_count), ('opcode_field', m.instruction_count)):
                d = {}
                for x in t:
                    if not x.ignore:
                        d[getattr(x, a)] = d.get(getattr(x, a), 0) + 1
                ok = ok and d == b
            if ok:
                exp.append([x.encoding for x in t])
        if got != sorted(exp):
            return '%d solutions, expected %d' % (len(got), len(exp))
