"""Contracts of semantic_codec/solution/solution_quality.py."""
from .lib import *

M = 'semantic_codec.solution.solution_quality:'
I, R, BO = z3.IntSort(), z3.RealSort(), z3.BoolSort()
PROG = MapOf(Int, ListOf(INST))
HIST = MapOf(Int, Int)
AR = z3.ArraySort(I, I)
H = z3.Function('addresses_with', I, I, I)            # H(i, k): how many of the first i addresses have k candidates
PR = z3.Function('product', I, I)                     # PR(i): product of the numbers of candidates of the first i addresses
LS = z3.Function('bits', I, R)                        # LS(i): sum of their logarithms
PW = z3.Function('ipow', I, I, I)                     # the power of the language
LG = z3.Function('log_2', R, R)                       # the logarithm of the library
PK = z3.Function('product_by_size', AR, I, I, I)      # PK(K, i, j): product over the sizes K[0..j-1] of the size to the number of the first i addresses of that size
TK = z3.Function('times_log', I, I, R)
LK = z3.Function('bits_by_size', AR, I, I, R)
SQ = ObjOf(M + 'SolutionQuality', _program=PROG, _solution_count=Int, _solution_count_bins=Opt(HIST), _solution_size=Opt(Real))


def kv():
    return z3.Const(str(V('K')), AR)


def ln(p, i):
    return p[p.key(i)].n


def bits(k):
    return LG(z3.ToReal(k))


def defs(S):
    p = S.program
    i, j, k, h, K = V('i'), V('j'), V('k'), V('h'), kv()
    sel = z3.Select
    return [FA([k], H(0, k) == 0, H(0, k)), FA([i, k], Imp(within(i, 0, p.n), H(i + 1, k) == H(i, k) + z3.If(ln(p, i) == k, 1, 0)), H(i + 1, k)),
            PR(0) == 1, FA([i], Imp(within(i, 0, p.n), PR(i + 1) == PR(i) * ln(p, i)), PR(i + 1)),
            LS(0) == 0, FA([i], Imp(within(i, 0, p.n), LS(i + 1) == LS(i) + z3.If(ln(p, i) > 1, bits(ln(p, i)), 0)), LS(i + 1)),
            FA([k], PW(k, 0) == 1, PW(k, 0)), FA([k, h], Imp(h >= 0, PW(k, h + 1) == k * PW(k, h)), PW(k, h + 1)),
            FA([K, i], PK(K, i, 0) == 1, PK(K, i, 0)), FA([K, i, j], Imp(j >= 0, PK(K, i, j + 1) == PK(K, i, j) * PW(sel(K, j), H(i, sel(K, j)))), PK(K, i, j + 1)),
            FA([k], TK(k, 0) == 0, TK(k, 0)), FA([k, h], Imp(h >= 0, TK(k, h + 1) == TK(k, h) + bits(k)), TK(k, h + 1)),
            FA([K, i], LK(K, i, 0) == 0, LK(K, i, 0)), FA([K, i, j], Imp(j >= 0, LK(K, i, j + 1) == LK(K, i, j) + z3.If(sel(K, j) > 1, TK(sel(K, j), H(i, sel(K, j))), 0)), LK(K, i, j + 1))]


def lemmas(S):
    p = (S.o if hasattr(S, 'o') else S).program
    sel = z3.Select

    def hpos(i):
        k = V('k')
        return FA([k], And(H(i, k) >= 0, H(i, k) <= i), H(i, k))

    def none(K, i, j):
        return all_(0, j, lambda a: sel(K, a) != ln(p, i))

    def start(j):
        K = kv()
        return FA([K], And(PK(K, 0, j) == 1, LK(K, 0, j) == 0), PK(K, 0, j), LK(K, 0, j))

    def other(j):
        K, i = kv(), V('i')
        return FA([K, i], Imp(And(within(i, 0, p.n), none(K, i, j)), And(PK(K, i + 1, j) == PK(K, i, j), LK(K, i + 1, j) == LK(K, i, j))), PK(K, i + 1, j), LK(K, i + 1, j))

    def one(F):
        def P(j):
            K, i, t = kv(), V('i'), V('t')
            alone = all_(0, j, lambda a: Imp(a != t, sel(K, a) != ln(p, i)))
            new = PK(K, i + 1, j) == PK(K, i, j) * ln(p, i) if F is PK else LK(K, i + 1, j) == LK(K, i, j) + z3.If(ln(p, i) > 1, bits(ln(p, i)), 0)
            return FA([K, i, t], Imp(And(within(i, 0, p.n), within(t, 0, j), sel(K, t) == ln(p, i), alone), new), [F(K, i + 1, j), sel(K, t)])
        return P

    def power(i):
        k = V('k')
        h = H(i, k)
        return FA([k], Imp(i < p.n, And(PW(k, h + 1) == k * PW(k, h), PW(k, H(i + 1, k)) == z3.If(ln(p, i) == k, k * PW(k, h), PW(k, h)),
                           TK(k, h + 1) == TK(k, h) + bits(k), TK(k, H(i + 1, k)) == z3.If(ln(p, i) == k, TK(k, h) + bits(k), TK(k, h)))), PW(k, H(i + 1, k)), TK(k, H(i + 1, k)))

    def counted(i):
        a = V('a')
        return FA([a], Imp(within(a, 0, i), H(i, ln(p, a)) >= 1), H(i, ln(p, a)))

    def total(i):
        K, B = kv(), V('B')
        a, b = V('a'), V('b')
        inj = FA([a, b], Imp(And(within(a, 0, B), within(b, 0, B), sel(K, a) == sel(K, b)), a == b))
        cover = all_(0, i, lambda a: ex_(0, B, lambda b: sel(K, b) == ln(p, a)))
        return FA([K, B], Imp(And(within(B, 0, p.n + 1), inj, cover), And(PK(K, i, B) == PR(i), LK(K, i, B) == LS(i))), PK(K, i, B), LK(K, i, B))

    def times(h):
        k = V('k')
        return FA([k], TK(k, h) == bits(k) * z3.ToReal(h), TK(k, h))
    return [Ind('numbers of addresses', 0, p.n, hpos), Ind('one address more', 0, p.n, power, down=True), Ind('nothing yet', 0, p.n, start), Ind('another size', 0, p.n, other), Ind('the size of the address (product)', 0, p.n, one(PK)), Ind('the size of the address (bits)', 0, p.n, one(LK)), Ind('every address counts', 0, p.n, counted),
            Ind('by address or by size', 0, p.n, total), Ind('repeated sums', 0, p.n, times)]


def hist(L, bins, i):
    k, j = V('k'), V('j')
    K = L.g['K']
    return [('histogram', FA([k], And(bins.has(k) == (H(i, k) > 0), Imp(bins.has(k), bins[k] == H(i, k))), bins.has(k), bins[k], H(i, k))),
            ('sizes', And(bins.n >= 0, bins.n <= i, FA([j], Imp(within(j, 0, bins.n), z3.Select(K, j) == bins.key(j)), bins.key(j), z3.Select(K, j))))]


def knext(L, L2):
    b = L2.bins
    return z3.If(b.n == L.start.bins.n, L.g['K'], z3.Store(L.g['K'], b.n - 1, b.key(b.n - 1)))


def kof(L):
    return (L._ctx if hasattr(L, '_ctx') else L.ctx).ghosts['K']


def post(S):
    s, n = S.self, (S.o.program if 'program' in S.o._d else S.o.self._program).n
    return [('the number of solutions is the product', s._solution_count == PR(n)),
            ('the histogram', And(Not(isnone(s._solution_count_bins)), hist1(s._solution_count_bins.value, n))),
            ('the size is the sum of the logarithms', And(Not(isnone(s._solution_size)), val(s._solution_size, z3.RealVal(-1)) == LS(n)))]


def hist1(bins, n):
    k = V('k')
    return FA([k], And(bins.has(k) == (H(n, k) > 0), Imp(bins.has(k), bins[k] == H(n, k))), H(n, k))


def hints(S):
    K, p, b = S.ctx.ghosts['K'], S.o.program, S.self._solution_count_bins.value
    a, c = V('a'), V('c')
    sel = z3.Select
    return [('few sizes', And(b.n >= 0, b.n <= p.n)), ('sizes differ', FA([a, c], Imp(And(within(a, 0, b.n), within(c, 0, b.n), sel(K, a) == sel(K, c)), a == c), [sel(K, a), sel(K, c)])),
            ('every size is there', FA([a], Imp(within(a, 0, p.n), And(within(b.pos(ln(p, a)), 0, b.n), sel(K, b.pos(ln(p, a))) == ln(p, a))), ln(p, a))),
            ('all in all', And(PK(K, p.n, b.n) == PR(p.n), LK(K, p.n, b.n) == LS(p.n)), Only('few sizes', 'sizes differ', 'every size is there', 'by address or by size'))]


COUNTQ = Contract(M + 'SolutionQuality._count_solutions', {'self': SQ, 'program': PROG}, NoneT, name='_count_solutions', modifies=('self._solution_count', 'self._solution_count_bins', 'self._solution_size'), defs_ok='once',
                  defs=defs, lemmas=lemmas, post=post, hints=hints, loops=[
                      Loop(types={'bins': HIST, 'max_v': Int}, inv=lambda L: hist(L, L.bins, L.idx), ghosts={'K': (Raw(AR), lambda L: z3.K(I, z3.IntVal(0)), knext)}),
                      Loop(types={'amount': Int}, inv=lambda L: [('the product so far', L.amount == PK(kof(L), L.o.program.n, L.idx))]),
                      Loop(types={'self._solution_size': Real}, pre=lambda L: [('its number', And(L.bins.has(L.k), L.o.program.n >= 0)), ('the summand', TK(L.k, H(L.o.program.n, L.k)) == bits(L.k) * z3.ToReal(L.bins[L.k]), Only('numbers of addresses', 'repeated sums', 'histogram'))], inv=lambda L: [('the sum so far', L.self._solution_size == LK(kof(L), L.o.program.n, L.idx))])])

def getter(name, ret, fresh, now, stored):
    """counts on the first use, the stored value later"""
    def post(S):
        o, n = S.o.self, S.o.self._program.n
        return [('counted on the first use', Imp(fresh(o), now(S.r, n))), ('stored after that', Imp(Not(fresh(o)), stored(S.r, o)))]
    return Contract(M + 'SolutionQuality.' + name, {'self': SQ}, ret, name=name, modifies=('self._solution_count', 'self._solution_count_bins', 'self._solution_size'), post=post,
                    pre=lambda S: [('never less than -1; the size is known once counted', And(S.self._solution_count >= -1, Imp(S.self._solution_count >= 0, Not(isnone(S.self._solution_size)))))])


RZ = z3.RealVal(0)
GET = [getter('solution_count', Int, lambda o: o._solution_count == -1, lambda r, n: r == PR(n), lambda r, o: r == o._solution_count),
       getter('solution_size', Real, lambda o: o._solution_count == -1, lambda r, n: And(Not(isnone(r)), val(r, RZ) == z3.If(PR(n) == 0, RZ, LS(n))), lambda r, o: And(Not(isnone(r)), val(r, RZ) == z3.If(o._solution_count == 0, RZ, val(o._solution_size, RZ)))),
       getter('solution_count_bins', Opt(HIST), lambda o: isnone(o._solution_count_bins), lambda r, n: And(Not(isnone(r)), hist1(r.value, n)), lambda r, o: z3.BoolVal(True))]

# ------------------------------------------------------------------ the depth
text = lambda x: ia('__str__', x, sort=opaque_sort('Str'))
addr = lambda x: ia('address', x)
enc = lambda x: ia('encoding', x)
score = lambda x: ia('score', x)
valid = lambda x: Not(ia('ignore', x))
SE = ObjOf(M + 'SolutionQuality', _program=PROG, _original_program=ListOf(INST), _solution_count=Int, _solution_count_bins=Opt(HIST), _solution_size=Opt(Real),
           _highest_depth=Opt(Real), _highest_depth_bin=MapOf(Int, Real))
BIL = 1000000000


def first(v, i, x):
    return And(within(i, 0, v.n + 1), all_(0, i, lambda j: text(v[j]) != text(x)), Or(i == v.n, text(v[i]) == text(x)))


def rel(i, v):
    return z3.ToReal(i + 1) / z3.ToReal(v.n)


def same(v, w):
    k = V('k')
    return And(v.n == w.n, FA([k], Imp(within(k, 0, v.n), v[k] == w[k]), v[k]))


def ordered(v):
    i, j = V('i'), V('j')
    return FA([i, j], Imp(And(i >= 0, i < j, j < v.n), score(v[i]) * BIL + 1 >= score(v[j]) * BIL), [v[i], v[j]])


def shuffled(v, w):
    i = V('i')
    return And(v.n == w.n, FA([i], Imp(within(i, 0, v.n), ex_(0, w.n, lambda j: w[j] == v[i])), v[i]), FA([i], Imp(within(i, 0, w.n), ex_(0, v.n, lambda j: v[j] == w[i])), w[i]))


def depth_parts(s, o, og, n, D):
    p, op_ = s._program, o._program
    k, a = V('k'), V('a')
    d = val(s._highest_depth, RZ)
    at = lambda k: p[addr(og[k])]
    pos = lambda k: z3.Select(D, k)
    done = lambda k: And(within(k, 0, n), valid(og[k]))
    return [('the same addresses', FA([a], p.has(a) == op_.has(a), p.has(a))),
            ('candidates of the addresses reached are only reordered', FA([k], Imp(done(k), shuffled(at(k), op_[addr(og[k])])), og[k])),
            ('in descending order of score (up to a billionth)', FA([k], Imp(done(k), ordered(at(k))), og[k])),
            ('where the original is', FA([k], Imp(And(done(k), at(k).n > 0), first(at(k), pos(k), og[k])), og[k])),
            ('no original lies deeper', FA([k], Imp(And(done(k), at(k).n > 0), And(d >= 0, rel(pos(k), at(k)) <= d)), og[k])), ('a depth is not negative', d >= 0),
            ('the depth is that of an original', Or(d == 0, ex_(0, n, lambda k: And(valid(og[k]), at(k).n > 0, rel(pos(k), at(k)) == d))))]


def dpre(S):
    s = S.self
    og, p, i, j, x = s._original_program, s._program, V('i'), V('j'), IV()
    return [('addresses are distinct', FA([i, j], Imp(And(i >= 0, i < j, j < og.n), addr(og[i]) != addr(og[j])), [og[i], og[j]])),
            ('every original has its candidates', FA([i], Imp(within(i, 0, og.n), p.has(addr(og[i]))), og[i])), ('encodings are not negative', FA([x], enc(x) >= 0, enc(x)))]


def dinv(L):
    s, o = L.self, L.o.self
    p, op_, k = s._program, o._program, V('k')
    og = o._original_program
    return depth_parts(s, o, og, L.idx, L.g['D']) + [('a depth', Not(isnone(s._highest_depth))), ('the others are untouched', FA([k], Imp(within(k, L.idx, og.n), same(p[addr(og[k])], op_[addr(og[k])])), og[k]))]


def dnext(L, L2):
    return z3.Store(L.g['D'], L.idx, L2.i) if L2.has('i') and L2.has('v') else L.g['D']


def dend(L):
    og, k = L.o.self._original_program, L.idx0
    a = addr(og[k])
    v, w = L.self._program[a], L.start.self._program[a]
    D, D0, d, d0 = L.g['D'], L.prev.g['D'], val(L.self._highest_depth, RZ), val(L.start.self._highest_depth, RZ)
    p, p0, op_, t = L.self._program, L.start.self._program, L.o.self._program, V('t')
    at, at0, ato = (lambda t: p[addr(og[t])]), (lambda t: p0[addr(og[t])]), lambda t: op_[addr(og[t])]
    before = lambda t: And(within(t, 0, k), valid(og[t]))
    return [('another address', FA([t], Imp(And(within(t, 0, og.n), t != k), And(addr(og[t]) != a, p.has(addr(og[t])), at(t).n == at0(t).n)), og[t])),
            ('reordered', Imp(valid(og[k]), shuffled(v, w))), ('ordered', Imp(valid(og[k]), ordered(v))),
            ('reordered before', FA([t], Imp(before(t), shuffled(at(t), ato(t))), og[t]), Only('another address', 'candidates of the addresses reached are only reordered')),
            ('as it was', same(w, op_[a])),
            ('reordered now', Imp(valid(og[k]), shuffled(v, op_[a])), Only('as it was', 'reordered', ground=not L.has('i'))),
            ('all reordered', FA([t], Imp(And(within(t, 0, k + 1), valid(og[t])), shuffled(at(t), ato(t))), og[t]), Only('reordered before', 'reordered now')),
            ('ordered before', FA([t], Imp(before(t), ordered(at(t))), og[t]), Only('another address', 'in descending order of score (up to a billionth)')),
            ('found before', FA([t], Imp(And(before(t), at(t).n > 0), And(z3.Select(D, t) == z3.Select(D0, t), first(at(t), z3.Select(D, t), og[t]))), og[t]), Only('another address', 'where the original is')),
            ('where they were', FA([t], Imp(And(before(t), at(t).n > 0), And(at0(t).n > 0, rel(z3.Select(D, t), at(t)) == rel(z3.Select(D0, t), at0(t)))), og[t]), Only('another address', 'found before')),
            ('no deeper before', FA([t], Imp(And(before(t), at(t).n > 0), rel(z3.Select(D, t), at(t)) <= d0), og[t]), Only('where they were', 'no original lies deeper')),
            ('found now', Imp(And(valid(og[k]), v.n > 0), And(first(v, z3.Select(D, k), og[k]), rel(z3.Select(D, k), v) <= d))), ('no shallower', And(d >= d0, d >= 0)),
            ('depths', FA([t], Imp(And(within(t, 0, k + 1), valid(og[t]), at(t).n > 0), And(d >= 0, rel(z3.Select(D, t), at(t)) <= d)), og[t]), Only('no deeper before', 'found now', 'no shallower'))]


def minv(L):
    v = L.v
    return [('no smaller encoding so far', And(L.min_encoding >= 0, all_(0, L.idx, lambda j: L.min_encoding <= enc(v[j]))))]


def winv(L):
    x = L.up.o.self._original_program[L.up.idx] if L.up is not None else None
    v = L.v
    return [('not among the first', And(within(L.i, 0, L.ln + 1), L.ln == v.n, all_(0, L.i, lambda j: text(v[j]) != text(x))))]


DT = {'self._program': PROG, 'self._highest_depth': Real, 'self._highest_depth_bin': MapOf(Int, Real), 'max_addr_bin': MapOf(Int, Int), 'max_addr': Int}
EVAL = Contract(M + 'SolutionQuality.evaluate', {'self': SE}, NoneT, name='evaluate', modifies=('self',), pre=dpre,
                post=lambda S: depth_parts(S.self, S.o.self, S.o.self._original_program, S.o.self._original_program.n, S.ctx.ghosts['D']) + post(S),
                loops=[Loop(inv=dinv, types=DT, ghosts={'D': (Raw(AR), lambda L: z3.K(I, z3.IntVal(0)), dnext)}, end=dend), Loop(inv=minv, types={'min_encoding': Int}), Loop(inv=winv, types={'i': Int}, dec=lambda L: L.ln - L.i)])
ALL = [COUNTQ] + GET + [EVAL]
