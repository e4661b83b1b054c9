"""C03 on the real code: histories of queue operations against a list of bits."""
from semantic_codec.architecture.bits import BitQueue
from .util import Near

RULE = ('histories of at most 600 enqueue/dequeue calls for every unit size 1..32 (and no dequeue when less than a unit is queued); '
        'a case is one history; non-trivial: it dequeues at least one unit')
LIMIT = 20


def cases(rng, tier, hints):
    for ws in range(1, 33):
        for n in (1, 2, 3, 5, 33, 40):
            yield {'ws': ws, 'ops': [['e', rng.getrandbits(32), rng.randint(0, 32 - ws)] for _ in range(n)] +
                   [['d', rng.getrandbits(32), rng.randint(0, 32 - ws)] for _ in range(n)]}
    near = Near(rng, 'semantic_codec/architecture/bits.py')
    while True:
        ws = rng.choice((1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 31, 32, rng.randint(1, 32)))
        ops = []
        bias = rng.choice((0.5, 0.6, 0.75))
        for _ in range(near.size(rng.randint(1, 60), 600, 0.02)):
            ops.append(['e' if rng.random() < bias else 'd', near.value(rng.choice((0, 0xFFFFFFFF, rng.getrandbits(32)))), rng.randint(0, 32 - ws)])
        yield {'ws': ws, 'ops': ops}


def nontrivial(c):
    return any(o[0] == 'd' for o in c['ops'])


def stream(q, nbits, off):
    b = q.get_bytes()
    return [(b[(off + i) // 32] >> ((off + i) % 32)) & 1 for i in range(nbits)]


def check(c):
    ws = c['ws']
    q = BitQueue(ws)
    m = []
    removed = 0
    if not q.empty():
        return 'a new queue is not empty'
    for k, (op, v, at) in enumerate(c['ops']):
        if op == 'e':
            q.enqueue(v, at)
            m += [(v >> (at + i)) & 1 for i in range(ws)]
        else:
            if len(m) < ws:
                continue
            r = q.dequeue(v, at)
            exp = v & ~(((1 << ws) - 1) << at) | sum(b << (at + i) for i, b in enumerate(m[:ws]))
            if r != exp:
                return 'operation %d: dequeue(%#x, %d) with unit %d = %#x, expected %#x' % (k, v, at, ws, r, exp)
            m = m[ws:]
            removed += ws
        if q.empty() != (not m):
            return 'operation %d: empty() = %r with %d queued bits' % (k, q.empty(), len(m))
        got = stream(q, len(m), removed % 32)
        if got != m:
            return 'operation %d: the stored words do not hold the queued bits' % k
