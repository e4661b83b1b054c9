"""C29 on the real code: frontiers and phi functions against their definitions."""
from semantic_codec.static_analysis.dominators import build_dominator_tree
from semantic_codec.static_analysis.ssa import build_dominance_frontier, place_phi_nodes
from . import flow

RULE = ('every graph of at most 3 nodes, every graph of 4 nodes without self loops and edges into the root, then random graphs of up to 40 nodes (mostly at most 12) with random reads and '
        'writes; a case is one graph; non-trivial: some frontier is not empty')
LIMIT = 10


def cases(rng, tier, hints):
    k = 0
    for c in flow.small():
        k += 1
        if k % 3 == 0:
            yield c
    while True:
        yield flow.gen(rng, code=True, end=True)


def frontiers(c):
    dom = flow.doms(c)
    df = {v: set() for v in range(c['n'])}
    for a, b in c['edges']:
        if a in dom:
            for d in dom[a]:
                if not (d in dom[b] and d != b):
                    df[d].add(b)
    return df


def nontrivial(c):
    return any(frontiers(c).values())


def phis(c, df):
    gl, blocks = set(), {}
    for v in range(c['n']):
        kill = set()
        for i in c.get('code', {}).get(str(v), []):
            gl |= set(i['r']) - kill
            kill |= set(i['w'])
            for w in i['w']:
                blocks.setdefault(w, set()).add(v)
    out = {v: set() for v in range(c['n'])}
    for x in gl:
        done, todo = set(), list(blocks.get(x, ()))
        while todo:
            for d in df[todo.pop()]:
                if d != c.get('end') and d not in done:
                    done.add(d)
                    todo.append(d)
        for d in done:
            out[d].add(x)
    return out, gl


def check(c):
    g, ns = flow.build(c)
    build_dominator_tree(g, ns[0])
    build_dominance_frontier(g)
    df = frontiers(c)
    for i, b in enumerate(ns):
        got = [ns.index(x) for x in b.dom_frontier]
        if sorted(got) != sorted(df[i]):
            return 'frontier of node %d is %r, expected %r' % (i, sorted(got), sorted(df[i]))
    gv = place_phi_nodes(g)
    exp, gl = phis(c, df)
    if set(gv) != gl:
        return 'global variables %r, expected %r' % (sorted(gv), sorted(gl))
    for i, b in enumerate(ns):
        if sorted(b.phi_functions) != sorted((x, 0) for x in exp[i]):
            return 'phi functions of node %d are for %r, expected %r' % (i, sorted(b.phi_functions), sorted(exp[i]))
