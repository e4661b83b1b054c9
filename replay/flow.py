"""Flow graphs for C28..C30: nodes 0..n-1, node 0 the root."""
from pygraph.classes.digraph import digraph
from semantic_codec.static_analysis.cfg import CFGBlock
from .util import FI, Near


class G(digraph):
    has_computed_dominators = property(lambda s: s._has_computed_dominators)
    has_computed_dominance_frontier = property(lambda s: s._has_computed_dominance_frontier)

    def __init__(self):
        digraph.__init__(self)
        self._has_computed_dominators = False
        self._has_computed_dominance_frontier = False


def build(c):
    g = G()
    ns = []
    for i in range(c['n']):
        d = c.get('code', {}).get(str(i), [])
        kind = CFGBlock.ROOT if i == 0 else CFGBlock.END if i == c.get('end') else CFGBlock.BLOCK
        ins = [FI(dict(x)) for x in d]
        if kind == CFGBlock.BLOCK and not ins:
            ins = [FI({'t': 'nop'})]
        b = CFGBlock(ins, kind=kind, index=i)
        ns.append(b)
    for i in c.get('ids', range(c['n'])):
        g.add_node(ns[i])
    for a, b in c['edges']:
        g.add_edge((ns[a], ns[b]))
    return g, ns


def reach(c, without=None):
    succ = {}
    for a, b in c['edges']:
        succ.setdefault(a, []).append(b)
    seen, todo = set(), [0] if without != 0 else []
    while todo:
        x = todo.pop()
        if x in seen or x == without:
            continue
        seen.add(x)
        todo += succ.get(x, [])
    return seen


def doms(c):
    """dom[v] = every node on all the paths from the root to v"""
    r = reach(c)
    dom = {v: {v} for v in r}
    for d in r:
        left = reach(c, d)
        for v in r:
            if v not in left:
                dom[v].add(d)
    return dom


def idoms(c, dom=None):
    dom = dom or doms(c)
    out = {}
    for v in dom:
        if v == 0:
            continue
        s = dom[v] - {v}
        out[v] = next(d for d in s if all(e in dom[d] for e in s))
    return out


def gen(rng, n=None, code=False, end=False):
    near = Near(rng, 'semantic_codec/static_analysis/dominators.py', 'semantic_codec/static_analysis/ssa.py')
    n = near.size(n or rng.choice((1, 2, 3, 4, 5, 6, 8, 12)), 40, 0.01)
    k = rng.random()
    edges = set()
    if k < 0.6:
        for v in range(1, n):
            if rng.random() < 0.92:
                edges.add((rng.randrange(0, v), v))
    m = rng.randint(0, 2 * n)
    for _ in range(m):
        edges.add((rng.randrange(n), rng.randrange(n)))
    if k > 0.9:
        for v in range(n - 1):
            edges.add((v, v + 1))
            if rng.random() < 0.5:
                edges.add((v + 1, rng.randrange(v + 1)))
    edges = list(edges)
    rng.shuffle(edges)
    ids = list(range(n))
    if rng.random() < 0.5:
        rng.shuffle(ids)
    c = {'n': n, 'edges': [list(e) for e in edges], 'ids': ids}
    if end and n > 1 and rng.random() < 0.5:
        c['end'] = n - 1
        c['edges'] = [e for e in c['edges'] if e[0] != n - 1]
    if code:
        vs = rng.sample(range(20), rng.choice((1, 2, 3, 3, 8, 20)))
        most = near.size(rng.choice((3, 3, 3, 12)), 40, 0.01)
        pr = rng.choice((0.4, 0.4, 0.1))
        pw = rng.choice((0.35, 0.35, 0.1))
        c['code'] = {}
        for i in range(n):
            if i == c.get('end') or (i == 0 and rng.random() < 0.7):
                continue
            c['code'][str(i)] = [{'r': [v for v in vs if rng.random() < pr], 'w': [v for v in vs if rng.random() < pw], 'e': j} for j in range(rng.choice((1, 1, 2, most)))]
    return c


def small():
    """every graph of up to 3 nodes and every graph of 4 nodes without self loops and edges into the root"""
    for n in (1, 2, 3):
        es = [(a, b) for a in range(n) for b in range(n)]
        for m in range(1 << len(es)):
            yield {'n': n, 'edges': [list(e) for i, e in enumerate(es) if m >> i & 1]}
    es = [(a, b) for a in range(4) for b in range(1, 4) if a != b]
    for m in range(1 << len(es)):
        yield {'n': 4, 'edges': [list(e) for i, e in enumerate(es) if m >> i & 1]}
