"""C30 on the real code: names after renaming against reaching definitions."""
from semantic_codec.static_analysis.dominators import build_dominator_tree
from semantic_codec.static_analysis.ssa import build_dominance_frontier, place_phi_nodes, SSAFormBuilder
from . import flow, c29

RULE = ('random graphs of up to 40 nodes (mostly at most 12) with random reads and writes; a case is one graph; non-trivial: some phi function is placed')
LIMIT = 10


def cases(rng, tier, hints):
    for c in flow.small():
        if rng.random() < 0.1:
            vs = rng.sample(range(20), 2)
            c['code'] = {str(i): [{'r': [v for v in vs if rng.random() < 0.5], 'w': [v for v in vs if rng.random() < 0.5], 'e': 0}] for i in range(c['n'])}
            yield c
    while True:
        yield flow.gen(rng, code=True, end=True)


def nontrivial(c):
    return any(c29.phis(c, c29.frontiers(c))[0].values())


def check(c):
    g, ns = flow.build(c)
    build_dominator_tree(g, ns[0])
    build_dominance_frontier(g)
    gv = place_phi_nodes(g)
    want = {i: set(x for x, _ in b.phi_functions) for i, b in enumerate(ns)}
    b = SSAFormBuilder([i for b in ns for i in b.instructions], g, ns[0])
    whole = not hasattr(b, '_rename_vars')
    if whole:       # the step is not accessible alone: the whole construction, which also drops phi functions nobody reads
        g, ns = flow.build(c)
        SSAFormBuilder([i for b in ns for i in b.instructions], g, ns[0]).build()
    else:
        b._rename_vars(gv)
    reach = flow.reach(c)
    idom = flow.idoms(c)
    names = set()
    exit_ = {}

    def order():
        todo = [0]
        while todo:
            v = todo.pop(0)
            yield v
            todo += [w for w in idom if idom[w] == v]
    for v in order():
        cur = dict(exit_[idom[v]]) if v else {x: (x, 0) for x in range(20)}
        b = ns[v]
        if not set(x for x, _ in b.phi_functions) <= want[v] if whole else set(x for x, _ in b.phi_functions) != want[v] or len(b.phi_functions) != len(want[v]):
            return 'the phi functions of node %d changed' % v
        for p in b.phi_functions:
            if p in names or p[1] <= 0:
                return 'the name %r is given twice' % (p,)
            names.add(p)
            cur[p[0]] = p
        for i in b.instructions:
            exp = []
            for r in i.storages_read():
                if cur[r] not in exp:
                    exp.append(cur[r])
            if [tuple(x) for x in i.ssa_read] != exp:
                return 'node %d: reads %r, expected %r' % (v, i.ssa_read, exp)
            w = [tuple(x) for x in i.ssa_written]
            if [x[0] for x in w] != i.storages_written():
                return 'node %d: writes %r' % (v, w)
            for x in w:
                if x in names or x[1] <= 0:
                    return 'the name %r is given twice' % (x,)
                names.add(x)
                cur[x[0]] = x
        exit_[v] = cur
    for v in reach:
        preds = [a for a, b in c['edges'] if b == v and a in reach]
        for p, val in ns[v].phi_functions.items():
            exp = sorted(exit_[a][p[0]] for a in preds)
            if sorted(tuple(x) for x in val) != exp:
                return 'phi %r of node %d has the parameters %r, expected %r' % (p, v, val, exp)
