"""Contract of the exact-sum constraint in semantic_codec/solution/solution_builders.py."""
from .lib import *

M = 'semantic_codec.solution.solution_builders:ExactFieldSumConstraint'
I, BO = z3.IntSort(), z3.BoolSort()
X = opaque_sort('Inst')
VN = z3.Function('field.n', X, I)                    # number of values of the field of an instruction
VE = z3.Function('field.e', X, I, I)                 # its values
OC = z3.Function('field_occurrences', X, I, I, I)    # OC(x, j, k): occurrences of k among the first j values of x
T = z3.Function('total', I, I, I)                    # T(i, k): occurrences of k over the chosen valid instructions of the first i variables
SEEN = z3.Function('variable_met', I, I, BO)         # SEEN(i, v): v is one of the first i variables and has no instruction yet
valid = lambda x: Not(ia('ignore', x))


def bad(S, x):
    """adding candidate x would use a value that is not allowed or exceed a total"""
    ex, n = S.self._exactsum, S.variables.n
    return And(valid(x), ex_(0, VN(x), lambda j: Or(Not(ex.has(VE(x, j))), T(n, VE(x, j)) + 1 > ex[VE(x, j)])))


def filt(S):
    return FilterK('kept', lambda j, v: Not(bad(S, S.domains[v][j])), lambda v: S.domains[v].n)


def kept(S):
    """longest domain bound: the lemmas about the filter are needed up to any length"""
    return filt(S)


def defs(S):
    vs, a = S.variables, S.assignments
    x, i, j, k, v = IV(), V('i'), V('j'), V('k'), V('v')
    inst = a[vs[i]]
    return [FA([x], VN(x) >= 0, VN(x)), FA([x, k], OC(x, 0, k) == 0, OC(x, 0, k)), FA([x, j, k], Imp(j >= 0, And(OC(x, j, k) >= 0, OC(x, j + 1, k) == OC(x, j, k) + z3.If(VE(x, j) == k, 1, 0))), OC(x, j, k), OC(x, j + 1, k)),
            FA([k], T(0, k) == 0, T(0, k)),
            FA([i, k], Imp(within(i, 0, vs.n), T(i + 1, k) == T(i, k) + z3.If(And(a.has(vs[i]), valid(inst)), OC(inst, VN(inst), k), 0)), T(i, k), T(i + 1, k)),
            FA([v], Not(SEEN(0, v)), SEEN(0, v)), FA([i, v], Imp(within(i, 0, vs.n), SEEN(i + 1, v) == Or(SEEN(i, v), And(vs[i] == v, Not(a.has(v))))), SEEN(i, v), SEEN(i + 1, v))] + filt(S).defs()


def lemmas(S):
    S = S.o if hasattr(S, 'o') else S
    vs, f = S.variables, filt(S)

    def pos(i):
        k = V('k')
        return FA([k], T(i, k) >= 0, T(i, k))

    def met(i):
        v = V('v')
        return FA([v], Imp(SEEN(i, v), And(Not(S.assignments.has(v)), ex_(0, i, lambda j: vs[j] == v))), SEEN(i, v))
    L = z3.Int('longest domain')
    return [Ind('totals are not negative', 0, vs.n, pos, pat=None), Ind('variables met', 0, vs.n, met, pat=None)] + f.lemmas(L)


def pre(S):
    vs, d = S.variables, S.domains
    i, j, v = V('i'), V('j'), V('v')
    L = z3.Int('longest domain')
    return [FA([i, j], Imp(And(within(i, 0, vs.n), within(j, 0, vs.n), vs[i] == vs[j]), i == j)), FA([i], Imp(within(i, 0, vs.n), d.has(vs[i])), vs[i]),
            FA([v, i, j], Imp(And(d.has(v), within(i, 0, d[v].n), within(j, 0, d[v].n), d[v][i] == d[v][j]), i == j)), FA([v], Imp(d.has(v), d[v].n <= L), d[v].n)]


def full(S, i=None):
    vs, a = S.variables, S.assignments
    return all_(0, vs.n if i is None else i, lambda i: a.has(vs[i]))


def over(S):
    ex, n, k = S.self._exactsum, S.variables.n, V('k')
    return EX([k], z3.If(ex.has(k), T(n, k) > ex[k], T(n, k) > 0))


def same(new, old):
    k = V('k')
    return And(new.n == old.n, FA([k], Imp(within(k, 0, old.n), new[k] == old[k]), new[k]))


def filtered(S, new, old, v):
    f, k = filt(S), V('k')
    return And(new.n == f.c(old.n, v), FA([k], Imp(within(k, 0, new.n), new[k] == old[f.at(v, k)]), new[k], f.at(v, k)))


def post(S):
    o, r, k, v = S.o, S.r, V('k'), V('v')
    ex, n, d, od = o.self._exactsum, o.variables.n, S.domains, o.domains
    exact = FA([k], z3.If(ex.has(k), T(n, k) == ex[k], T(n, k) == 0), T(n, k))
    emptied = ex_(0, n, lambda i: And(Not(o.assignments.has(o.variables[i])), d[o.variables[i]].n == 0))
    return [('a complete assignment is accepted exactly when the totals are exact', Imp(full(o), r == exact)),
            ('a partial assignment is rejected only when it exceeds a total, uses a foreign value or leaves nothing to choose', Imp(And(Not(full(o)), Not(r)), Or(over(o), And(o.forwardcheck, emptied)))),
            ('an excess is rejected', Imp(over(o), Not(r))),
            ('the same variables have domains', FA([v], d.has(v) == od.has(v), d.has(v))),
            ('only candidates that do not fit are hidden', FA([v], Imp(od.has(v), Or(same(d[v], od[v]), And(Not(o.assignments.has(v)), filtered(o, d[v], od[v], v)))), od.has(v)))]


def sums(L, i, extra=None):
    """the table of sums after i variables (and extra(k) more of each value)"""
    k, s, ex = V('k'), L.sum, L.o.self._exactsum
    t = lambda k: T(i, k) + (extra(k) if extra else 0)
    return ('sums', FA([k], And(t(k) >= 0, s.has(k) == Or(ex.has(k), t(k) > 0), Imp(s.has(k), s[k] == t(k))), s.has(k), s[k], T(i, k)))


def init(L):
    k, s, ex = V('k'), L.sum, L.o.self._exactsum
    return [('zeros', FA([k], And(s.has(k) == And(ex.has(k), ex.pos(k) < L.idx), Imp(s.has(k), s[k] == 0)), s.has(k), s[k]))]


def count(L):
    return [sums(L, L.idx), ('missing', L.missing == Not(full(L.o, L.idx)))]


def counting(L):
    x = L.inst
    return [sums(L, L.up.idx, lambda k: OC(x, L.idx, k))]


def check(L):
    k, s, ex = V('k'), L.sum, L.o.self._exactsum
    return [('no excess yet', FA([k], Imp(And(s.has(k), s.pos(k) < L.idx), And(ex.has(k), s[k] <= ex[k])), s.pos(k)))]


def domains(L, i):
    o, v = L.o, V('v')
    d, od = L.domains, o.domains
    return [('variables have domains', FA([v], d.has(v) == od.has(v), d.has(v))),
            ('domains of the variables met are filtered', FA([v], Imp(And(od.has(v), SEEN(i, v)), filtered(o, d[v], od[v], v)), SEEN(i, v), od.has(v))),
            ('the other domains are as they were', FA([v], Imp(And(od.has(v), Not(SEEN(i, v))), same(d[v], od[v])), SEEN(i, v), od.has(v)))]


def outer(L):
    return domains(L, L.idx)


def partly(L, i, done):
    """the domain of the i-th variable after `done` of its candidates"""
    o, k, v = L.o, V('k'), V('w')
    x = o.variables[i]
    d, od, f = L.domains, o.domains, filt(o)
    c = f.c(done, x)
    n = od[x].n
    u = V('u')
    return [('candidates kept so far', And(d[x].n == c + n - done, FA([k], Imp(within(k, 0, c), d[x][k] == od[x][f.at(x, k)]), f.at(x, k), d[x][k]))),
            ('candidates to come', FA([u], Imp(within(u, done, n), d[x][u - done + c] == od[x][u]), od[x][u])),
            ('variables have domains', FA([v], d.has(v) == od.has(v), d.has(v))),
            ('domains of the variables met are filtered', FA([v], Imp(And(od.has(v), v != x, SEEN(i, v)), filtered(o, d[v], od[v], v)), SEEN(i, v), od.has(v))),
            ('the other domains are as they were', FA([v], Imp(And(od.has(v), v != x, Not(SEEN(i, v))), same(d[v], od[v])), SEEN(i, v), od.has(v)))]


def enter(L):
    o, i = L.o, L.idx
    x = o.variables[i]
    return [('not met before', And(Not(SEEN(i, x)), o.domains.has(x))), ('untouched', same(L.domains[x], o.domains[x]))]


def one(L):
    o, i, t, k = L.o, L.up.idx, L.idx, V('k')
    x, f = o.variables[i], filt(o)
    d, od = L.domains[x], o.domains[x]
    c = f.c(t, x)
    return [('selection', And(c >= 0, c <= t, od.n <= z3.Int('longest domain'), f.c(t + 1, x) >= 0)),
            ('the candidate', And(t < od.n, L.value == od[t], c < d.n, d[c] == od[t])),
            ('kept if it fits', f.c(t + 1, x) == c + z3.If(bad(o, od[t]), 0, 1)),
            ('only once before', FA([k], Imp(within(k, 0, c), d[k] != od[t]), d[k], f.at(x, k))),
            ('candidates after it', FA([k], Imp(within(k, c, d.n), d[k] == od[k - c + t]), d[k])),
            ('only once after', FA([k], Imp(within(k, c + 1, d.n), d[k] != od[t]), d[k]))]


def each(L):
    return partly(L, L.up.idx, L.idx)


def values(L):
    o, x = L.o, L.value
    ex, n = o.self._exactsum, o.variables.n
    return partly(L, L.up.up.idx, L.up.idx) + [('no value that does not fit yet', all_(0, L.idx, lambda j: And(ex.has(VE(x, j)), T(n, VE(x, j)) + 1 <= ex[VE(x, j)])))]


def partial(L):
    k, s, ex = V('k'), L.sum, L.o.self._exactsum
    return [('no excess yet', FA([k], Imp(And(s.has(k), s.pos(k) < L.idx), s[k] <= ex[k]), s.pos(k)))]


def complete(L):
    k, s, ex = V('k'), L.sum, L.o.self._exactsum
    return [('exact so far', FA([k], Imp(And(s.has(k), s.pos(k) < L.idx), s[k] == ex[k]), s.pos(k)))]


TY = {'sum': MapOf(Int, Int), 'missing': Bool, 'domains': MapOf(Int, ListOf(INST))}
CALL = Contract(M + '.__call__', {'self': ObjOf(M, _exactsum=MapOf(Int, Int), _field_fn=PureFn('field', ListOf(Int)), _report=Bool), 'variables': ListOf(Int),
                                  'domains': MapOf(Int, ListOf(INST)), 'assignments': MapOf(Int, INST), 'forwardcheck': Bool}, Bool, name='ExactFieldSumConstraint.__call__',
                modifies=('domains',), pre=pre, defs=defs, lemmas=lemmas, post=post,
                loops=[Loop(inv=init, types=TY), Loop(inv=count, types=TY), Loop(inv=counting, types=TY), Loop(inv=check, types=TY), Loop(inv=outer, types=TY, pre=enter), Loop(inv=each, types=TY, pre=one),
                       Loop(inv=values, types=TY), Loop(inv=partial, types=TY), Loop(inv=complete, types=TY)])
ALL = [CALL]
