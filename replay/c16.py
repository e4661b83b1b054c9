"""C16 on the real code: pruning against remaining counts, and survival of the originals in whole constructions."""
from semantic_codec.solution.solution_builders import ForwardConstraintSolutionEnumerator, ForwardConstraintSolutionBuilder
from .util import FI
from . import sol

RULE = ('candidate programs of 1..100 addresses (mostly at most 8) with up to 7 candidates (sometimes hundreds); the elimination step with chosen remaining counts, and whole constructions '
        '(at every elimination step the originals of the later addresses must survive); non-trivial: several candidates somewhere')
LIMIT = 10


def cases(rng, tier, hints):
    while True:
        p = sol.gen(rng, total=300)
        c = {'prog': p, 'mode': rng.choice(('step', 'step', 'build'))}
        if c['mode'] == 'step':
            c['zero'] = [[rng.random() < 0.3 for _ in range(30)] for _ in range(3)]
            c['first'] = rng.randrange(len(p))
            c['gone'] = rng.random() < 0.3
        yield c


def nontrivial(c):
    return any(len(x['c']) > 1 for x in c['prog'])


def fits(m, x):
    return (not x.ignore and m.instruction_count.get(x.opcode_field, 0) != 0 and m.condition_count.get(x.conditional_field, 0) != 0
            and all(m.storage_count.get(r, 0) != 0 for r in x.registers_used()))


def pruned(m, v):
    """every candidate but the last one must fit"""
    return [x for i, x in enumerate(v) if i == len(v) - 1 or fits(m, x)]


def check(c):
    p, org = sol.build(c['prog'])
    b = ForwardConstraintSolutionEnumerator(p, org)
    if c['mode'] == 'step':
        for d, z in zip((b._metadata.instruction_count, b._metadata.condition_count, b._metadata.storage_count), c['zero']):
            for i, k in enumerate(sorted(d)):
                if z[i % len(z)]:
                    if c['gone']:
                        del d[k]
                    else:
                        d[k] = 0
        addrs = [x['a'] for x in c['prog']]
        addrs = addrs[c['first']:] + addrs[:c['first']]
        before = {a: list(v) for a, v in p.items()}
        b._remove_invalid_instructions(addrs)
        for a in addrs:
            exp = before[a] if a == addrs[0] else pruned(b._metadata, before[a])
            if len(exp) != len(p[a]) or any(x is not y for x, y in zip(exp, p[a])):
                return 'address %#x: kept %r, expected %r' % (a, p[a], exp)
        for x in before[addrs[0]]:
            got = b._comply_constraints(x)
            if bool(got) != fits(b._metadata, x):
                return 'candidate %s: complies %r' % (x, got)
        inst = before[addrs[0]][0]
        m = b._metadata
        old = [dict(m.instruction_count), dict(m.condition_count), dict(m.storage_count)]
        b._update_constraints(inst)
        if not inst.ignore:
            for d, ks in zip(old, ([inst.opcode_field], [inst.conditional_field], inst.storages_used())):
                for k in ks:
                    if k in d:
                        d[k] -= 1
        if old != [m.instruction_count, m.condition_count, m.storage_count]:
            return 'the remaining counts are wrong after choosing %s' % inst
        return None
    texts = {x['a']: str(FI(x['c'][x['o']])) for x in c['prog']}
    ok = {x['a']: not x['c'][x['o']]['i'] for x in c['prog']}
    real = getattr(b, '_remove_invalid_instructions', None)
    bad = []

    def step(addresses, *rest):
        real(addresses, *rest)
        for a in addresses:
            if ok[a] and texts[a] not in [str(x) for x in p[a]]:
                bad.append(a)
    if real is not None:
        b._remove_invalid_instructions = step
    b.build()
    if bad:
        return 'the original of address %#x was discarded' % bad[0]
    for a, t in texts.items():
        if ok[a] and t not in [str(x) for x in p[a]]:
            return 'the original of address %#x was discarded' % a
    for x in c['prog']:
        enc = [d['e'] for d in x['c']]
        got = [y.encoding for y in p[x['a']]]
        if got != [e for e in enc if e in got]:
            return 'the order of the candidates changed'
