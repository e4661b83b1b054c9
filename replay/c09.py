"""C09 on the real code: simulated losses against every combination of the predicted bits."""
import os
from semantic_codec.corruption.corruption import predict_corruption, load_corrupted_program_from_json
from semantic_codec.corruption.corruptors import PacketCorruptor
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
from .util import Near, base_addr, quiet, real_word

RULE = ('programs of 1..60 instructions (mostly at most 12) (addresses in any order), 2..40 packets, unit sizes 1..8, one to three lost packets, at most 2^7 candidates an address; '
        'a case is one simulated loss; non-trivial: some address gets more than one candidate')
LIMIT = 20


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/corruption/corruption.py', 'semantic_codec/corruption/corruptors.py')
    while True:
        n = near.size(rng.randint(1, 12), 60, 0.02)
        ws = rng.choice((1, 2, 2, 2, 3, 4, 8))
        P = rng.choice((2, 3, 4, 8, 16, 17, 24, 32, rng.randint(2, 40)))
        if P * ws < 16:
            continue
        base = base_addr(rng, n, rng.randrange(0x8000, 0x20000, 4))
        addrs = [base + 4 * i for i in range(n)]
        if rng.random() < 0.4:
            addrs = rng.sample([base + 4 * i for i in range(2 * n)], n)
        order = None
        if rng.random() < 0.7:
            order = list(range(P))
            rng.shuffle(order)
        k = rng.choice((1, 1, 1, 2, 3))
        if order and rng.random() < 0.3:
            i = rng.randrange(P)
            lost = sorted(set([order[i], order[(i + 1) % P]]))       # neighbours in the stream
        else:
            lost = rng.sample(range(P), min(k, P - 1))
        c = {'prog': [[a, real_word(rng)] for a in addrs], 'ws': ws, 'P': P, 'order': order, 'lost': lost,
             'size': rng.choice((n, n, n, n + 3, max(0, n - 1))), 'save': rng.random() < 0.05}
        if max([len(b) for b in lostbits(c).values()] + [0]) <= 7:
            yield c


def lostbits(c):
    order = c['order'] or build_2d_interleave_sp(c['P'], True)
    out = {}
    for t in predict_corruption(c['P'], c['ws'], c['size'], order, list(c['lost'])):
        s = out.setdefault(t[0], set())
        s.update(range(t[1], t[1] + (t[2] if len(t) > 2 else c['ws'])))
    return out


def nontrivial(c):
    b = lostbits(c)
    return any(b.get(i) for i in range(len(c['prog'])))


def check(c):
    bits = lostbits(c)
    prog = {a: [CAPSInstruction(e, a)] for a, e in c['prog']}
    path = 'saved.json' if c['save'] else None
    with quiet():
        k = PacketCorruptor(c['P'], c['size'], interleave=c['order'], packets_lost=list(c['lost']), bits_per_interleave=c['ws'], save_corrupted_path=path)
        out = k.corrupt(prog)
    addrs = sorted(a for a, e in c['prog'])
    if sorted(out.keys()) != addrs:
        return 'the addresses changed'
    org = dict((a, e) for a, e in c['prog'])
    for i, a in enumerate(addrs):
        exp = [org[a]]
        for b in sorted(bits.get(i, ())):
            exp += [x ^ (1 << b) for x in exp]
        got = [x.encoding for x in out[a]]
        if got != sorted(exp):
            return 'address %#x: %d candidates %s, expected %d %s' % (a, len(got), [hex(x) for x in got[:6]], len(exp), [hex(x) for x in sorted(exp)[:6]])
        if any(x.address != a for x in out[a]):
            return 'a candidate of %#x has another address' % a
    if path:
        l = load_corrupted_program_from_json(path)
        os.remove(path)
        if sorted(l) != addrs or any([x.encoding for x in l[a]] != [x.encoding for x in out[a]] for a in addrs):
            return 'the saved program differs'
