"""C28 on the real code: dominators against their definition (removing a node)."""
from semantic_codec.static_analysis.dominators import build_dominator_tree
from . import flow

RULE = ('every graph of at most 3 nodes, every graph of 4 nodes without self loops and edges into the root, then random graphs of up to 40 nodes (mostly at most 14); '
        'a case is one graph; non-trivial: at least three reachable nodes')
LIMIT = 10


def cases(rng, tier, hints):
    for c in flow.small():
        yield c
    while True:
        yield flow.gen(rng, rng.choice((5, 6, 7, 8, 10, 12, 14 if tier == 'quick' else 30)))


def nontrivial(c):
    return len(flow.reach(c)) > 2


def check(c):
    g, ns = flow.build(c)
    t = build_dominator_tree(g, ns[0])
    exp = flow.idoms(c)
    for i, b in enumerate(ns):
        got = None if b.idom is None else ns.index(b.idom)
        if got != exp.get(i):
            return 'immediate dominator of node %d is %r, expected %r' % (i, got, exp.get(i))
        if sorted(ns.index(x) for x in b.dom_successors) != sorted(v for v in exp if exp[v] == i):
            return 'children of node %d in the tree are wrong' % i
    if set(t.nodes()) != set(ns) or sorted((ns.index(a), ns.index(b)) for a, b in t.edges()) != sorted((exp[v], v) for v in exp):
        return 'the edges of the dominator tree are wrong'
