"""C22 on the real code: codes against prefix-freeness and the optimal cost (merging the two least weights)."""
import heapq
import itertools
from .util import Near, stub_darm

stub_darm()
from semantic_codec.compressor.huffman import encode, huffman_size

RULE = ('tables of 2..400 symbols (mostly at most 40) with positive weights (equal ones included); the cost is compared with the cost of merging the two least weights and, for at most '
        '5 symbols, with every prefix-free code; a case is one table; non-trivial: at least three symbols')
LIMIT = 10


def cases(rng, tier, hints):
    for n in range(2, 6):
        for t in itertools.product((1, 2, 3, 7), repeat=n):
            yield {'w': list(t), 'k': 'int'}
    near = Near(rng, 'semantic_codec/compressor/huffman.py')
    while True:
        n = max(2, near.size(rng.choice((2, 3, 4, 6, 9, 17, 40)), 400, 0.02))
        m = near.value(rng.choice((1, 2, 5, 100, 10 ** 6, 10 ** 12))) or 1
        w = [rng.randint(1, m) for _ in range(n)]
        if rng.random() < 0.15:
            w = [1, 1]
            while len(w) < n:
                w.append(w[-1] + w[-2])
            rng.shuffle(w)
        yield {'w': w, 'k': rng.choice(('int', 'str'))}


def nontrivial(c):
    return len(c['w']) > 2


def best(w):
    """least total weighted length over every sequence of codeword lengths that satisfies Kraft's equation"""
    if len(w) == 1:
        return 0
    n = len(w)
    r = None
    for ls in itertools.product(range(1, n), repeat=n):
        if sum(2 ** (n - l) for l in ls) <= 2 ** n:
            c = sum(a * b for a, b in zip(ls, w))
            r = c if r is None or c < r else r
    return r


def cost(w):
    h = list(w)
    heapq.heapify(h)
    t = 0
    while len(h) > 1:
        a = heapq.heappop(h) + heapq.heappop(h)
        t += a
        heapq.heappush(h, a)
    return t


def check(c):
    tab = {(i if c['k'] == 'int' else 's%02d' % i): w for i, w in enumerate(c['w'])}
    t0 = dict(tab)
    code = encode(tab)
    if tab != t0:
        return 'the table was changed'
    d = {p[0]: p[1] for p in code}
    if len(code) != len(tab) or set(d) != set(tab):
        return 'codewords for %r' % sorted(d)
    ws = list(d.values())
    if any(not x or set(x) - set('01') for x in ws):
        return 'codewords %r' % ws
    s = sorted(ws)
    if any(b.startswith(a) for a, b in zip(s, s[1:])):
        return 'not prefix free: %r' % s
    total = sum(tab[k] * len(x) for k, x in d.items())
    if total != cost(c['w']) or (len(tab) <= 5 and total != best(c['w'])):
        return 'total length %d, the least is %d' % (total, cost(c['w']))
    if huffman_size(tab) != total or huffman_size(tab, code) != total:
        return 'the reported size is %r, expected %r' % (huffman_size(tab), total)
