"""C14 on the real code: the recovery scores of whole corrupted programs, and the combination of partial scores."""
from semantic_codec.architecture.arm_constants import AReg
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.metadata.metadata_collector import MetadataCollector
from semantic_codec.metadata.recuperator import ProbabilisticRecuperator, probabilistic_rules, probabilistic_rules_remove_step
from .util import FI, Near, quiet, real_word

RULE = ('programs of 1..60 instructions (mostly at most 12) in 1..3 contiguous functions, each with 0..5 further candidates (sometimes up to 200) (stand-in instructions with every '
        'combination of fields, or real words), scored once or twice with the metadata of the original program; and tables of partial scores in [0, 1]; '
        'non-trivial: some address has several candidates')
LIMIT = 15
KEYS = ('pc', 'pr', 'prd', 'po', 'pcfg', 'pupo', 'pbd', 'popu')


def fi(rng, n):
    k = rng.randrange(8)
    regs = lambda m: rng.sample((0, 1, 2, 3, 13, 14, 15, AReg.CPSR), rng.randint(0, m))
    d = {'e': rng.getrandbits(32), 'c': rng.choice((14, 14, 0, 1, 10)), 'o': rng.randint(1, 4), 't': rng.choice(('mov', 'add', 'ldr')),
         'i': rng.random() < 0.15, 'r': regs(3), 'w': regs(2)}
    if k == 0:
        d.update(b=rng.choice((True, 0, 4, 8, 4 * rng.randint(0, 40), 4 * rng.randint(0, n))), t='b')
    elif k in (1, 2):
        d.update(t=rng.choice(('push', 'pop')))
    d['u'] = sorted(set(d['r'] + d['w'])) or [18]
    return d


def cases(rng, tier, hints):
    for _ in range(20):
        yield {'s': {}, 'i': False, 'k': 'n'}
    near = Near(rng, 'semantic_codec/metadata/recuperator.py', 'semantic_codec/metadata/probabilistic_rules/distance_rule.py',
                'semantic_codec/metadata/probabilistic_rules/counting_rules.py', 'semantic_codec/metadata/probabilistic_model.py')
    while True:
        if rng.random() < 0.3:
            yield {'s': {k: rng.choice((0, 1, 1, 1, rng.random(), 1e-3, 0.999)) for k in KEYS if rng.random() < 0.6},
                   'i': rng.random() < 0.1, 'k': rng.choice(('n', 'b', 'p'))}
            continue
        n = near.size(rng.choice((1, 1, 2, 3, 4, 6, 8, 12)), 60, 0.02)
        many = near.size(0, 200 // n + 1, 0.05)
        real = rng.random() < 0.2
        starts = sorted({0} | {rng.randrange(n) for _ in range(rng.randint(0, 2))})
        base = rng.choice((0, 4096))
        pr = []
        for _ in range(n):
            m = rng.choice((0, 0, 1, 1, 2, 5))
            if many and rng.random() < 0.5:
                m = many + rng.choice((-1, 0, 1))
            same = rng.random() < 0.3          # candidates of one kind
            if real:
                w = real_word(rng)
                pr.append([w] + [w ^ (1 << rng.randrange(32)) ^ (1 << rng.randrange(32)) for _ in range(m)])
            else:
                v = [fi(rng, n) for _ in range(m + 1)]
                if same:
                    k = rng.choice(('push', 'pop', 'mov', 'b'))
                    for x in v:
                        x['t'] = k
                        x.pop('b', None)
                        if k == 'b':
                            x['b'] = rng.choice((4 * rng.randint(0, n), 4 * rng.randint(0, n) + 4096, True))
                for x in v[1:]:
                    if rng.random() < 0.5:
                        y = rng.choice(v)
                        f = rng.choice((('c',), ('o',), ('u', 'r', 'w'), ('c', 'o', 'u', 'r', 'w')))
                        for z in f:
                            x[z] = y[z]
                pr.append(v)
        yield {'p': pr, 'st': starts, 'base': base, 'real': real, 'at': [rng.randrange(len(v)) for v in pr],
               'passes': rng.choice((1, 2))}


def nontrivial(c):
    return 's' in c or any(len(v) > 1 for v in c['p'])


def combined(x, lo0):
    for f in (probabilistic_rules, probabilistic_rules_remove_step):
        v = f(x.scores_by_rule, x)
        if not 0 <= v <= 1:
            return '%s of %r is %r' % (f.__name__, x.scores_by_rule, v)
        if v == 0 and lo0 and not x.ignore:
            return '%s of %r is zero although no partial score is' % (f.__name__, x.scores_by_rule)


def check(c):
    if 's' in c:
        x = FI({'i': c['i'], 'b': True if c['k'] == 'b' else None, 't': 'push' if c['k'] == 'p' else 'mov'})
        x.scores_by_rule = dict(c['s'])
        return combined(x, not c['i'] and all(v > 0 for v in c['s'].values()))
    base, orig, prog = c['base'], [], {}
    for i, v in enumerate(c['p']):
        a = base + 4 * i
        l = [CAPSInstruction(w, a) if c['real'] else FI(dict(w, a=a)) for w in v]
        orig.append(l[0])
        l.insert(c['at'][i], l.pop(0))
        prog[a] = l
    fns = {}
    for k, s in enumerate(c['st']):
        e = c['st'][k + 1] if k + 1 < len(c['st']) else len(c['p'])
        fns[base + 4 * s] = (base + 4 * s, base + 4 * (e - 1))
    m = MetadataCollector()
    m.collect(orig)
    with quiet():
        for _ in range(c['passes']):
            ProbabilisticRecuperator(m, prog, functions=fns).recover()
    for a, v in prog.items():
        for x in v:
            for k, s in x.scores_by_rule.items():
                if not 0 <= s <= 1:
                    return 'candidate %s at %d: partial score %s = %r' % (x, a, k, s)
            if not x.ignore:
                for k in ('pc', 'po'):
                    if k not in x.scores_by_rule:
                        return 'candidate %s at %d has no score %s' % (x, a, k)
                if any(x is o for o in orig) and 0 in x.scores_by_rule.values():
                    return 'the original %s at %d has a score of zero: %r' % (x, a, x.scores_by_rule)
                w = combined(x, all(s > 0 for s in x.scores_by_rule.values()))
                if w:
                    return w
                if not 0 <= x.score() <= 1:
                    return 'score of %s at %d is %r' % (x, a, x.score())
