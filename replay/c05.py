"""C05 on the real code: lost packets against a bit-level reference."""
from semantic_codec.interleaver.interleaver2d import interleave, deinterleave
from . import il

RULE = ('random data, orders, unit sizes and lost packets (removed from the table or set to None); a case is one loss; '
        'non-trivial: a packet with data is lost and another one received')
LIMIT = 10


def cases(rng, tier, hints):
    while True:
        c = il.gen(rng, rng.random() < 0.2)
        P = len(c['order'])
        m = rng.randrange(5)
        k = {0: 1, 1: max(1, P - 1), 2: rng.randint(0, P), 3: rng.randint(0, P), 4: P}[m] if rng.random() < 0.9 else P
        c['lost'] = sorted(rng.sample(range(P), min(k, P)))
        if rng.random() < 0.2:
            c['lost'] = sorted(set([0] + c['lost'][:2]))
        c['none'] = rng.random() < 0.4
        yield c


def nontrivial(c):
    return 0 < len(c['lost']) < len(c['order']) and len(c['data']) > 0


def check(c):
    data, order, ws = c['data'], c['order'], c['ws']
    P = len(order)
    pk = interleave(data, order, ws)
    lost = set(c['lost'])
    for j in lost:
        if c['none']:
            pk[int(order[j])] = None
        else:
            del pk[int(order[j])]
    n = len(data) * 32 // ws
    if len(lost) == P:
        try:
            deinterleave(pk, order, ws)
        except RuntimeError:
            return None
        return 'every packet is lost and nothing is reported'
    out, errors = deinterleave(pk, order, ws)
    rounds = max([(n - j + P - 1) // P for j in range(P) if j not in lost and n > j] + [0])
    b = il.bits_of(data)
    exp, err = [], []
    for u in range(rounds * P):
        j = u % P
        if j in lost:
            err.append((u * ws // 32, u * ws % 32))
            exp += [0] * ws
        else:
            exp += (b[u * ws:(u + 1) * ws] + [0] * ws)[:ws]
    got = il.bits_of(out)
    if [tuple(e) for e in errors] != err:
        return 'reported %r, expected %r' % (errors[:6], err[:6])
    if got[:len(exp)] != exp or any(got[len(exp):]):
        return 'the units returned differ from those received'
    if len(got) > len(exp) + 32:
        return 'the output is too long'
