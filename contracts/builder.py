"""Contracts of the forward elimination in semantic_codec/solution/solution_builders.py."""
from .lib import *
from . import meta
from .meta import CNTS, OC, cond, op, valid
from . import bitqueue as bq
from .rules import L2D, addr, distinct_addr

M = 'semantic_codec.solution.solution_builders:'
MC = 'semantic_codec.metadata.metadata_collector:MetadataCollector'
I, BO = z3.IntSort(), z3.BoolSort()
PROG = MapOf(Int, ListOf(INST))
META = ObjOf(MC, _storage_count=CNTS, _condition_count=CNTS, _instruction_count=CNTS)
BUILDER = dict(_program=PROG, _metadata=META, _original=PROG, _solution=Int, _solution_size=Real, _from_max_to_min=Bool, _forward_update=Bool)
BASE = ObjOf(M + 'AbstractForwardConstraintSolutionBuilder', **BUILDER)
nru = lambda x: ilist_n('registers_used', x)
ru = lambda x, j: ilist('registers_used', x, j)
nsu = lambda x: ilist_n('storages_used', x)
su = lambda x, j: ilist('storages_used', x, j)
text = lambda x: ia('__str__', x, sort=opaque_sort('Str'))
TABLES = ('_condition_count', '_instruction_count', '_storage_count')
USES = (lambda x, k: z3.If(cond(x) == k, 1, 0), lambda x, k: z3.If(op(x) == k, 1, 0), lambda x, k: OC(x, nsu(x), k))


def ocdefs(S=None):
    x, j, k = IV(), V('j'), V('k')
    return [FA([x], nsu(x) >= 0, nsu(x)), FA([x, k], OC(x, 0, k) == 0, OC(x, 0, k)), FA([x, j, k], Imp(j >= 0, And(OC(x, j, k) >= 0, OC(x, j + 1, k) == OC(x, j, k) + z3.If(su(x, j) == k, 1, 0))), OC(x, j + 1, k)), FA([x, k], OC(x, nsu(x), k) >= 0, OC(x, nsu(x), k))]


def left(d, k):
    return And(d.has(k), d[k] != 0)


def fits(m, x):
    return And(valid(x), left(m._instruction_count, op(x)), left(m._condition_count, cond(x)), all_(0, nru(x), lambda j: left(m._storage_count, ru(x, j))))


COMPLY = Contract(M + 'AbstractForwardConstraintSolutionBuilder._comply_constraints', {'self': BASE, 'inst': INST}, Bool, name='_comply_constraints',
                  post=lambda S: [('exactly the candidates that are valid and whose condition, opcode and registers are all available', S.r == fits(S.o.self._metadata, S.inst))],
                  loops=[Loop(inv=lambda L: [('available so far', all_(0, L.idx, lambda j: left(L.self._metadata._storage_count, ru(L.inst, j))))])])


def updated(d, o, x, use):
    k = V('k')
    return FA([k], And(d.has(k) == o.has(k), Imp(o.has(k), d[k] == o[k] - z3.If(valid(x), use(x, k), 0))), d.has(k), d[k])


def used(L):
    d, o, k = L.self._metadata._storage_count, L.o.self._metadata._storage_count, V('k')
    return [('storages so far', FA([k], And(d.has(k) == o.has(k), Imp(o.has(k), d[k] == o[k] - OC(L.inst, L.idx, k))), d.has(k), d[k]))]


UPDATE = Contract(M + 'AbstractForwardConstraintSolutionBuilder._update_constraints', {'self': BASE, 'inst': INST}, NoneT, name='_update_constraints',
                  modifies=tuple('self._metadata.' + t for t in TABLES), defs=ocdefs, defs_ok=True,
                  post=lambda S: [('what the instruction uses is taken off: ' + t, updated(getattr(S.self._metadata, t), getattr(S.o.self._metadata, t), S.inst, u)) for t, u in zip(TABLES, USES)],
                  loops=[Loop(inv=used, types={'self._metadata._storage_count': CNTS})])

# ------------------------------------------------------------------ elimination
LATER = z3.Function('later_address', I, I, BO)      # LATER(i, a): a is one of addresses[1..i-1]


def fil(S):
    p, m = S.self._program, S.self._metadata
    return FilterK('fitting', lambda j, a: Or(fits(m, p[a][j]), j == p[a].n - 1), lambda a: p[a].n)


def rdefs(S):
    i, a, ad = V('i'), V('a'), S.addresses
    return [FA([a], Not(LATER(1, a)), LATER(1, a)), FA([i, a], Imp(within(i, 1, ad.n), LATER(i + 1, a) == Or(LATER(i, a), ad[i] == a)), LATER(i, a), LATER(i + 1, a))] + fil(S).defs()


def rlemmas(S):
    S = S.o if hasattr(S, 'o') else S
    ad = S.addresses

    def later(i):
        a, j = V('a'), V('j')
        return And(FA([a], Imp(LATER(i, a), ex_(1, i, lambda j: ad[j] == a)), LATER(i, a)), FA([j], Imp(within(j, 1, i), LATER(i, ad[j])), ad[j]))
    return [Ind('later addresses', 1, ad.n, later, pat=None)] + fil(S).lemmas(z3.Int('most candidates'))


def distinct(ad):
    i, j = V('i'), V('j')
    return FA([i, j], Imp(And(within(i, 0, ad.n), within(j, 0, ad.n), ad[i] == ad[j]), i == j))


def rpre(S):
    ad, p, i, a = S.addresses, S.self._program, V('i'), V('a')
    return [('addresses are distinct', distinct(ad)), ('addresses belong to the program', FA([i], Imp(within(i, 0, ad.n), p.has(ad[i])), ad[i])),
            ('at least one address', ad.n >= 1)]


def rbound(S):
    p, a = S.self._program, V('a')
    return [FA([a], Imp(p.has(a), p[a].n <= z3.Int('most candidates')), p[a].n)]


def same(new, old):
    k = V('k')
    return And(new.n == old.n, FA([k], Imp(within(k, 0, old.n), new[k] == old[k]), new[k]))


def eliminated(S, new, old, a):
    f, k = fil(S), V('k')
    return And(new.n == f.c(old.n, a), FA([k], Imp(within(k, 0, new.n), new[k] == old[f.at(a, k)]), new[k], f.at(a, k)))


def reached(L, i, skip=None):
    o, a = L.o, V('a')
    p, op_ = L.self._program, o.self._program
    but = (lambda a: a != skip) if skip is not None else (lambda a: z3.BoolVal(True))
    return [('the same addresses', FA([a], p.has(a) == op_.has(a), p.has(a))),
            ('addresses reached', FA([a], Imp(And(but(a), op_.has(a), LATER(i, a)), eliminated(o, p[a], op_[a], a)), LATER(i, a), op_.has(a))),
            ('the others are as they were', FA([a], Imp(And(but(a), op_.has(a), Not(LATER(i, a))), same(p[a], op_[a])), LATER(i, a), op_.has(a)))]


def addr_inv(L):
    return reached(L, 1 + L.idx)


def addr_pre(L):
    o, i = L.o, 1 + L.idx
    a = o.addresses[i]
    return [('not reached before', And(Not(LATER(i, a)), o.self._program.has(a))), ('untouched', same(L.self._program[a], o.self._program[a]))]


def one_inv(L):
    o, i, t, k, u = L.o, 1 + L.up.idx, L.g['t'], V('k'), V('u')
    a = o.addresses[i]
    d, od, f = L.self._program[a], o.self._program[a], fil(o)
    c = f.c(t, a)
    n = od.n
    return [('position', And(t >= 0, L.i == c + 1, Or(t < n, And(t == 0, n == 0)))),
            ('kept so far', And(d.n == c + n - t, FA([k], Imp(within(k, 0, c), d[k] == od[f.at(a, k)]), f.at(a, k), d[k]))),
            ('to come', FA([u], Imp(within(u, t, n), d[u - t + c] == od[u]), od[u]))] + reached(L, i, a)


def one_pre(L):
    o, i, t, k = L.o, 1 + L.up.idx, L.g['t'], V('k')
    a = o.addresses[i]
    d, od, f = L.self._program[a], o.self._program[a], fil(o)
    c = f.c(t, a)
    return [('selection', And(c >= 0, c <= t, od.n <= z3.Int('most candidates'), f.c(t + 1, a) >= 0)), ('the candidate', And(t + 1 < od.n, d[c] == od[t])),
            ('kept if it fits', f.c(t + 1, a) == c + z3.If(fits(o.self._metadata, od[t]), 1, 0))]


def one_after(L):
    o, i, t = L.o, 1 + L.up.idx, L.g['t']
    a = o.addresses[i]
    f, od = fil(o), o.self._program[a]
    return [('the last one stays', And(od.n <= z3.Int('most candidates'), Imp(od.n > 0, And(t == od.n - 1, f.c(od.n, a) == f.c(t, a) + 1))))]


def rpost(S):
    o, a = S.o, V('a')
    p, op_ = S.self._program, o.self._program
    later = lambda a: ex_(1, o.addresses.n, lambda j: o.addresses[j] == a)
    return [('the same addresses', FA([a], p.has(a) == op_.has(a), p.has(a))),
            ('every candidate of a later address that does not fit is removed, but for the last one', FA([a], Imp(And(op_.has(a), later(a)), eliminated(o, p[a], op_[a], a)), op_.has(a))),
            ('the first and all other addresses are as they were', FA([a], Imp(And(op_.has(a), Not(later(a))), same(p[a], op_[a])), op_.has(a)))]


def rcall(S):
    """what a caller may use: no candidate that fits is lost"""
    o, a, q = S.o, V('a'), V('q')
    p, op_, ad = S.self._program, o.self._program, o.addresses
    return [('keys', FA([a], p.has(a) == op_.has(a), p.has(a))),
            ('others', FA([a], Imp(And(op_.has(a), Not(ex_(1, ad.n, lambda j: ad[j] == a))), same(p[a], op_[a])), op_.has(a))),
            ('what fits stays', FA([a, q], Imp(And(op_.has(a), within(q, 0, op_[a].n), fits(o.self._metadata, op_[a][q])), ex_(0, p[a].n, lambda r: p[a][r] == op_[a][q])), op_[a][q])),
            ('nothing comes in', FA([a, q], Imp(And(op_.has(a), within(q, 0, p[a].n)), ex_(0, op_[a].n, lambda r: op_[a][r] == p[a][q])), p[a][q]))]


def rhints(S):
    o, a, q = S.o, V('a'), V('q')
    p, op_, ad, f = S.self._program, o.self._program, o.addresses, fil(o)
    later = lambda a: ex_(1, ad.n, lambda j: ad[j] == a)
    return [('a candidate that fits is found where it went', FA([a, q], Imp(And(op_.has(a), later(a), within(q, 0, op_[a].n), fits(o.self._metadata, op_[a][q])),
                                                                             And(within(f.c(q, a), 0, p[a].n), p[a][f.c(q, a)] == op_[a][q])), op_[a][q])),
            ('a candidate of another address is where it was', FA([a, q], Imp(And(op_.has(a), Not(later(a)), within(q, 0, op_[a].n)), And(p[a].n == op_[a].n, p[a][q] == op_[a][q])), op_[a][q])),
            ('whatever is left was there', FA([a, q], Imp(And(op_.has(a), later(a), within(q, 0, p[a].n)), And(within(f.at(a, q), 0, op_[a].n), p[a][q] == op_[a][f.at(a, q)])), p[a][q]))]


PT = {'self._program': PROG}
REMOVE = Contract(M + 'AbstractForwardConstraintSolutionBuilder._remove_invalid_instructions', {'self': BASE, 'addresses': ListOf(Int)}, NoneT, name='_remove_invalid_instructions',
                  modifies=('self._program',), pre=rpre, defs=lambda S: rdefs(S) + rbound(S), lemmas=rlemmas, post=rpost, hints=rhints, callpost=rcall,
                  loops=[Loop(inv=addr_inv, types=PT, pre=addr_pre),
                         Loop(inv=one_inv, types=PT, pre=one_pre, after=one_after, ghosts={'t': (Int, lambda L: z3.IntVal(0), lambda L, L2: L.g['t'] + 1)})])

# ------------------------------------------------------------------ the whole construction
FIND = Contract(M + 'AbstractForwardConstraintSolutionBuilder._find_address_correct_index', {'self': BASE, 'pa': ListOf(INST), 'ori': INST, 'ln': Int}, Int, name='_find_address_correct_index',
                pre=lambda S: [('ln is the number of candidates', S.ln == S.pa.n)], raises={'RuntimeError': lambda S: all_(0, S.o.pa.n, lambda j: text(S.o.pa[j]) != text(S.o.ori))},
                post=lambda S: [('the first candidate with the text of the original', And(within(S.r, 0, S.pa.n), text(S.pa[S.r]) == text(S.ori), all_(0, S.r, lambda j: text(S.pa[j]) != text(S.ori))))],
                loops=[Loop(inv=lambda L: [('others before', And(within(L.index, 0, L.ln + 1), all_(0, L.index, lambda j: text(L.pa[j]) != text(L.ori))))], dec=lambda L: L.ln - L.index)])

U = z3.ArraySort(I, BO)
RS = [z3.Function('remaining' + t, U, I, I, I) for t in TABLES]      # RS(u, i, k): uses of k by the first i originals whose address is in u
ALLU = z3.K(I, z3.BoolVal(True))


def orig(o, i):
    return o[o.key(i)][0]


def bdefs(S):
    o = S.self._original
    i, k = V('i'), V('k')
    u = z3.Const('u?', U)
    out = list(ocdefs())
    for N, use in zip(RS, USES):
        out += [FA([u, k], N(u, 0, k) == 0, N(u, 0, k)),
                FA([u, i, k], Imp(within(i, 0, o.n), N(u, i + 1, k) == N(u, i, k) + z3.If(And(z3.Select(u, o.key(i)), valid(orig(o, i))), use(orig(o, i), k), 0)), N(u, i + 1, k))]
    return out


def blemmas(S):
    o = (S.o if hasattr(S, 'o') else S).self._original
    out = []
    for N, use, nm in zip(RS, USES, TABLES):
        def pos(i, N=N):
            u, k = z3.Const('u?', U), V('k')
            return FA([u, k], N(u, i, k) >= 0, N(u, i, k))

        def store(i, N=N, use=use):
            u, k, a = z3.Const('u?', U), V('k'), V('a')
            w = z3.Store(u, a, z3.BoolVal(False))
            x = o[a][0]
            return FA([u, a, k], N(w, i, k) == N(u, i, k) - z3.If(And(z3.Select(u, a), o.has(a), o.pos(a) < i, valid(x)), use(x, k), 0), N(w, i, k))

        def part(i, N=N, use=use):
            u, k, a = z3.Const('u?', U), V('k'), V('a')
            x = o[a][0]
            return FA([u, a, k], Imp(And(z3.Select(u, a), o.has(a), o.pos(a) < i, valid(x)), N(u, i, k) >= use(x, k)), z3.MultiPattern(N(u, i, k), o.pos(a))) if False else z3.ForAll(
                [u, a, k], Imp(And(z3.Select(u, a), o.has(a), o.pos(a) < i, valid(x)), N(u, i, k) >= use(x, k)), patterns=[z3.MultiPattern(N(u, i, k), o.pos(a))])
        out += [Ind('remaining uses are not negative (%s)' % nm, 0, o.n, pos, pat=None), Ind('one address less (%s)' % nm, 0, o.n, store, pat=None), Ind('every remaining original is covered (%s)' % nm, 0, o.n, part, pat=None)]
    return out


def alike(x, y):
    """the same text, hence the same fields"""
    k = V('k')
    return And(ia('ignore', x) == ia('ignore', y), cond(x) == cond(y), op(x) == op(y), FA([k], OC(x, nsu(x), k) == OC(y, nsu(y), k)))


def present(p, o, a):
    return ex_(0, p[a].n, lambda q: text(p[a][q]) == text(o[a][0]))


def bpre(S):
    s = S.self
    p, o, m = s._program, s._original, s._metadata
    a, q, k, x, j = V('a'), V('q'), V('k'), IV(), V('j')
    out = [s._forward_update, s._solution >= 1,
           ('the addresses of the program are those of the originals, each with one instruction', FA([a], And(p.has(a) == o.has(a), Imp(o.has(a), o[a].n >= 1)), p.has(a), o.has(a))),
           ('every address has its original', FA([a], Imp(And(p.has(a), valid(o[a][0])), present(p, o, a)), p.has(a))),
           ('instructions with the text of the original have its fields', FA([a, q], Imp(And(p.has(a), within(q, 0, p[a].n), text(p[a][q]) == text(o[a][0])), alike(p[a][q], o[a][0])), p[a][q])),
           ('registers are storages', FA([x, j], Imp(within(j, 0, nru(x)), OC(x, nsu(x), ru(x, j)) >= 1), ru(x, j)))]
    for t, N in zip(TABLES, RS):
        d = getattr(m, t)
        out.append(('counts of the original program: ' + t, FA([k], And(d.has(k) == (N(ALLU, o.n, k) > 0), Imp(d.has(k), d[k] == N(ALLU, o.n, k))), d.has(k), d[k])))
    return out


def binv(L):
    s, o0 = L.self, L.o.self
    p, o, m, ad, u = s._program, o0._original, s._metadata, L.addresses, L.g['u']
    a, q, k, i = V('a'), V('q'), V('k'), V('i')
    out = [('addresses left are distinct', distinct(ad)), ('addresses left belong to the program', FA([i], Imp(within(i, 0, ad.n), p.has(ad[i])), ad[i])),
           ('addresses left are counted', FA([i], Imp(within(i, 0, ad.n), z3.Select(u, ad[i])), ad[i])),
           ('the same addresses', FA([a], p.has(a) == o.has(a), p.has(a))),
           ('every original is still there', FA([a], Imp(And(o.has(a), valid(o[a][0])), present(p, o, a)), o.has(a))),
           ('instructions with the text of the original have its fields', FA([a, q], Imp(And(p.has(a), within(q, 0, p[a].n), text(p[a][q]) == text(o[a][0])), alike(p[a][q], o[a][0])), p[a][q])),
           ('solution', s._solution >= 1)]
    for t, N in zip(TABLES, RS):
        d = getattr(m, t)
        out.append(('counts of the addresses left: ' + t, FA([k], And(d.has(k) == (N(ALLU, o.n, k) > 0), Imp(d.has(k), d[k] == N(u, o.n, k))), d.has(k), d[k])))
    return out


def bnext(L, L2):
    o = L.o.self._original
    a = L.start.addresses[0]
    return z3.If(Or(L.start.self._program[a].n <= 0, ia('ignore', o[a][0])), L.g['u'], z3.Store(L.g['u'], a, z3.BoolVal(False)))


def bend(L):
    st, o, u0, u = L.start, L.o.self._original, L.prev.g['u'], L.g['u']
    ad, p, s = st.addresses, st.self._program, L.self
    a0, a, q, k, j = ad[0], V('a'), V('q'), V('k'), V('j')
    go = Not(Or(p[a0].n <= 0, ia('ignore', o[a0][0])))
    out = [('the first address is done', And(o.has(a0), z3.Select(u0, a0), o.pos(a0) < o.n, Imp(go, valid(o[a0][0])), Imp(go, u == z3.Store(u0, a0, z3.BoolVal(False))))),
           ('the others stay counted', Imp(go, FA([j], Imp(within(j, 1, ad.n), And(z3.Select(u, ad[j]), ad[j] != a0)), ad[j])))]
    for t, N, use in zip(TABLES, RS, USES):
        d, d0 = getattr(s._metadata, t), getattr(st.self._metadata, t)
        w = z3.Store(u0, a0, z3.BoolVal(False))
        out += [('one less: ' + t, FA([k], N(w, o.n, k) == N(u0, o.n, k) - z3.If(And(z3.Select(u0, a0), o.has(a0), o.pos(a0) < o.n, valid(o[a0][0])), use(o[a0][0], k), 0), N(w, o.n, k)), Only('one address less (%s)' % t)),
                ('uses left: ' + t, Imp(go, FA([k], N(u, o.n, k) == N(u0, o.n, k) - use(o[a0][0], k), N(u, o.n, k))), Only('the first address is done', 'one less: ' + t)),
                ('updated: ' + t, Imp(go, FA([k], And(d.has(k) == d0.has(k), Imp(d0.has(k), d[k] == d0[k] - use(o[a0][0], k))), d.has(k), d[k]))),
                ('exact: ' + t, FA([k], And(d.has(k) == (N(ALLU, o.n, k) > 0), Imp(d.has(k), d[k] == N(u, o.n, k))), d.has(k), d[k])),
                ('covered: ' + t, FA([a, k], Imp(And(o.has(a), z3.Select(u, a), valid(o[a][0])), And(N(u, o.n, k) >= use(o[a][0], k), N(ALLU, o.n, k) >= use(o[a][0], k))), use(o[a][0], k)) if t == '_storage_count' else
                 FA([a], Imp(And(o.has(a), z3.Select(u, a), valid(o[a][0])), z3.substitute(And(N(u, o.n, k) >= 1, N(ALLU, o.n, k) >= 1), (k, (cond if t == '_condition_count' else op)(o[a][0])))), z3.Select(u, a), o.has(a)))]
    m = s._metadata
    left1 = lambda a: And(left(m._instruction_count, op(o[a][0])), left(m._condition_count, cond(o[a][0])))
    out += [('the originals left fit', FA([a], Imp(And(o.has(a), z3.Select(u, a), valid(o[a][0])), left1(a)), z3.Select(u, a), o.has(a))),
            ('registers of the originals left', FA([a, k], Imp(And(o.has(a), z3.Select(u, a), valid(o[a][0]), OC(o[a][0], nsu(o[a][0]), k) >= 1), left(m._storage_count, k)), OC(o[a][0], nsu(o[a][0]), k))),
            ('their copies fit', FA([a, q], Imp(And(o.has(a), z3.Select(u, a), valid(o[a][0]), within(q, 0, p[a].n), text(p[a][q]) == text(o[a][0])), fits(m, p[a][q])), p[a][q])),
            ('their copies stay', FA([a, q], Imp(And(o.has(a), valid(o[a][0]), within(q, 0, p[a].n), text(p[a][q]) == text(o[a][0])), ex_(0, s._program[a].n, lambda r: s._program[a][r] == p[a][q])), p[a][q]),
             Only('their copies fit', 'the others stay counted', 'the same addresses', *['_remove_invalid_instructions: ' + x for x in ('keys', 'others', 'what fits stays')])),
            ('presence', FA([a], Imp(And(o.has(a), valid(o[a][0]), present(p, o, a)), present(s._program, o, a)), o.has(a)))]
    return out


def bpost(S):
    p, o, a = S.self._program, S.o.self._original, V('a')
    return [('every original is still there', FA([a], Imp(And(o.has(a), valid(o[a][0])), present(p, o, a)), o.has(a)))]


ENUM = ObjOf(M + 'ForwardConstraintSolutionEnumerator', **BUILDER)
BUILD = Contract(M + 'ForwardConstraintSolutionEnumerator.build', {'self': ENUM}, NoneT, name='build (elimination)',
                 modifies=('self._program', 'self._solution', 'self._solution_size') + tuple('self._metadata.' + t for t in TABLES), pre=bpre, defs=bdefs, lemmas=blemmas, post=bpost,
                 loops=[Loop(inv=binv, types=dict({'self._program': PROG, 'addresses': ListOf(Int), 'self._solution': Int, 'self._solution_size': Real}, **{'self._metadata.' + t: CNTS for t in TABLES}),
                             ghosts={'u': (Raw(U), lambda L: ALLU, bnext)}, end=bend, dec=lambda L: L.addresses.n)])


def ipost(S):
    s, p, i, k = S.self, S.o.original_program, V('i'), V('k')
    m, o = s._metadata, s._original
    return [('counts of the original: ' + t, FA([k], And(d.has(k) == (N(p.n, k) > 0), Imp(d.has(k), d[k] == N(p.n, k))), d.has(k), d[k])) for t, d, N in
            (('_condition_count', m._condition_count, meta.CC), ('_instruction_count', m._instruction_count, meta.CO), ('_storage_count', m._storage_count, meta.CS))] + [
        ('the originals by address', And(o.n == p.n, FA([i], Imp(within(i, 0, p.n), And(o.key(i) == addr(p[i]), o.has(addr(p[i])), o[addr(p[i])].n == 1, o[addr(p[i])][0] == p[i])), p[i])))]


def fresh(S):
    s = S.self
    return [('nothing is recorded yet', And(And(*[e for _, e in bq.qinv(s._solution)]), bq.qE(s._solution) == 0, s._solution_size == 0, Not(s._from_max_to_min), Not(s._forward_update)))]


def ipre(S):
    x, q = IV(), V('q')
    return distinct_addr(S.original_program) + [FA([x, q], Imp(within(q, 0, ilist_n('storages_written', x)), within(ilist('storages_written', x, q), 0, meta.N_ST)), ilist('storages_written', x, q))]


INIT = Contract(M + 'AbstractForwardConstraintSolutionBuilder.__init__', {'self': ObjOf(M + 'AbstractForwardConstraintSolutionBuilder'), 'program': PROG, 'original_program': ListOf(INST)},
                NoneT, name='builder.__init__', modifies=('self',), pre=ipre, post=lambda S: ipost(S) + fresh(S))
INIT.inline = True
INITE = Contract(M + 'ForwardConstraintSolutionEnumerator.__init__', {'self': ObjOf(M + 'ForwardConstraintSolutionEnumerator'), 'program': PROG, 'original_program': ListOf(INST)},
                 NoneT, name='enumerator.__init__', modifies=('self',), pre=ipre, post=lambda S: ipost(S) + [('elimination is on, the count starts at one', And(S.self._forward_update, S.self._solution == 1))])
ELIM = [meta.INC, meta.COLL, L2D, INIT, INITE, COMPLY, UPDATE, REMOVE, FIND, BUILD]

# ------------------------------------------------------------------ the recorded solution
AR = z3.ArraySort(I, I)
BL = z3.Function('bit_length', I, I)
P2 = z3.Function('pow2', I, I)
RECB = ObjOf(M + 'ForwardConstraintSolutionBuilder', **dict(BUILDER, _solution=bq.QT, _solution_size=Int))
sel = z3.Select


def sbit(q, u):
    """bit u of the stream of the queue"""
    return bitf(q._bytes[u / 32], u % 32)


def several(p, o, a):
    return And(p[a].n > 1, Not(ia('ignore', o[a][0])))


def size(p, o, a):
    return z3.If(several(p, o, a), BL(p[a].n - 1), 0)


def pre17(S):
    s = S.self
    p, o, a, q = s._program, s._original, V('a'), s._solution
    return [Not(s._forward_update), Not(s._from_max_to_min), s._solution_size == 0, ('the solution is empty', And(bq.qE(q) == 0, q._eq_word >= 0))] + bq.qinv(q) + [
        ('every address has its original', FA([a], Imp(p.has(a), And(o.has(a), o[a].n >= 1, Imp(several(p, o, a), present(p, o, a)))), p.has(a))),
        ('at most 2^32 candidates', FA([a], Imp(And(p.has(a), p[a].n > 1), BL(p[a].n - 1) <= 32), p[a].n)),
        ('lengths in bits', FA([a], Imp(And(p.has(a), p[a].n > 1), And(BL(p[a].n - 1) >= 1, P2(BL(p[a].n - 1) - 1) < p[a].n, p[a].n <= P2(BL(p[a].n - 1)))), p[a].n))]


def order(A, p):
    i, j, a = V('i'), V('j'), V('a')
    return [('every address is solved once', And(A.n == p.n, FA([i], Imp(within(i, 0, A.n), p.has(A[i])), A[i]), FA([i, j], Imp(And(within(i, 0, A.n), within(j, 0, A.n), A[i] == A[j]), i == j), [A[i], A[j]]))),
            ('fewest candidates first, in the order of the table for equal numbers', FA([i, j], Imp(And(i >= 0, i < j, j < A.n), And(p[A[i]].n <= p[A[j]].n, Imp(p[A[i]].n == p[A[j]].n, p.pos(A[i]) < p.pos(A[j])))), [A[i], A[j]]))]


def recorded(s, p, o, A, F, X, t):
    j, k = V('j'), V('k')
    q = s._solution
    done = lambda j: within(j, 0, t)
    return [('where the bits of each address start', And(sel(F, 0) == 0, FA([j], Imp(done(j), And(sel(F, j + 1) == sel(F, j) + size(p, o, A[j]), sel(F, j + 1) >= sel(F, j), sel(F, j + 1) <= sel(F, t), sel(F, j) >= 0)), A[j]))),
            ('the size is the number of bits', And(s._solution_size == sel(F, t), bq.qE(q) == sel(F, t), sel(F, t) >= 0)),
            ('the index is that of the original', FA([j], Imp(And(done(j), several(p, o, A[j])), isfirst(p[A[j]], sel(X, j), o[A[j]][0])), A[j])),
            ('the bits are those of the index', FA([j, k], Imp(And(done(j), several(p, o, A[j]), within(k, 0, size(p, o, A[j]))), sbit(q, sel(F, j) + k) == bitf(sel(X, j), k)), [A[j], bitf(sel(X, j), k)], sbit(q, sel(F, j) + k)))]


def isfirst(v, i, x):
    return And(within(i, 0, v.n), text(v[i]) == text(x), all_(0, i, lambda j: text(v[j]) != text(x)))


def inv17(L):
    s, o0 = L.self, L.o.self
    p, o, ad, A, t, j = s._program, o0._original, L.addresses, L.g['A'], L.g['t'], V('j')
    A = wrap(L._th, A)
    return [('addresses left', And(t >= 0, ad.n == A.n - t, A.n >= t, FA([j], Imp(within(j, 0, ad.n), ad[j] == A[t + j]), ad[j]))), ('the queue', And(s._solution._eq_word >= 0, s._solution._dq_bit == o0._solution._dq_bit))] + \
        order(A, o0._program) + recorded(s, o0._program, o, A, L.g['F'], L.g['X'], t) + bq.qinv(s._solution)


def unw(x):
    return x.v if isinstance(x, W) else x


def start17(L):
    return raw(unw(L.addresses))


def nextF(L, L2):
    t = L.g['t']
    a = L.start.addresses[0]
    return z3.Store(L.g['F'], t + 1, sel(L.g['F'], t) + size(L.o.self._program, L.o.self._original, a))


def nextX(L, L2):
    return z3.Store(L.g['X'], L.g['t'], L2.index) if L2.has('index') else L.g['X']


def post17(S):
    g = S.ctx.ghosts
    o, A = S.o.self, wrap(S.th, g['A'])
    return order(A, o._program) + recorded(S.self, o._program, o._original, A, g['F'], g['X'], A.n) + bq.qinv(S.self._solution)


RECORD = Contract(M + 'ForwardConstraintSolutionBuilder.build', {'self': RECB}, NoneT, name='build (recorded solution)', modifies=('self._solution', 'self._solution_size'), pre=pre17, post=post17,
                  loops=[Loop(inv=inv17, types={'addresses': ListOf(Int), 'self._solution_size': Int}, dec=lambda L: L.addresses.n,
                              ghosts={'t': (Int, lambda L: z3.IntVal(0), lambda L, L2: L.g['t'] + 1), 'A': (ListOf(Int), start17, lambda L, L2: L.g['A']),
                                      'F': (Raw(AR), lambda L: z3.K(I, z3.IntVal(0)), nextF), 'X': (Raw(AR), lambda L: z3.K(I, z3.IntVal(0)), nextX)})])
REC = [bq.ENQ, INIT, FIND, RECORD]
ALL = ELIM + REC
