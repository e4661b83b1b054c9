"""Contracts of semantic_codec/compressor/shiftcompressor.py (C31).

D(p) is the p-th bit of the data as it lies in memory (little-endian words, the most significant bit of a byte first);
POS(g) is the first bit of the group g, GONE(p) says that some group holds the bit p, KEPT(p) counts the others before p.
"""
from .lib import *

M = 'semantic_codec.compressor.shiftcompressor:'
I, BO = z3.IntSort(), z3.BoolSort()
D, POS, KEPT, GRP = (z3.Function('sc_' + n, I, I) for n in ('D', 'POS', 'KEPT', 'GRP'))
GONE = z3.Function('sc_GONE', I, BO)
GROUP = TupleUpTo(2, Int, Int, Int)


def obj(c):
    return ObjOf(M + c, _shift_count=Int, _remove_bits=ListOf(GROUP), _data=ListOf(Int), compressed_buffer=NoneT)


def size(S):
    return 32 * S.self._data.n


def pos(r, g):
    return 32 * r[g][0] + r[g][1]


def defs(S):
    r, d, k = S.self._remove_bits, S.self._data, S.self._shift_count
    p, g = V('p'), V('g')
    w, b = p / 32, (p % 32) / 8
    return [('first bits', FA([g], Imp(within(g, 0, r.n), POS(g) == pos(r, g)), POS(g))), ('behind the last group', POS(r.n) == z3.If(r.n > 0, z3.If(POS(r.n - 1) + k > size(S), POS(r.n - 1) + k, size(S)), size(S))),
            ('bits', FA([p], Imp(within(p, 0, size(S)), D(p) == z3.If(bitf(d[w], 8 * b + 7 - p % 8), z3.IntVal(1), z3.IntVal(0))), D(p))),
            ('gone', FA([p, g], Imp(And(within(g, 0, r.n), POS(g) <= p, p < POS(g) + k), GONE(p)), [GONE(p), POS(g)])),
            ('not gone', FA([p], Imp(GONE(p), And(within(GRP(p), 0, r.n), POS(GRP(p)) <= p, p < POS(GRP(p)) + k)), GONE(p))),
            ('kept', And(KEPT(0) == 0, FA([p], Imp(p >= 0, KEPT(p + 1) == KEPT(p) + z3.If(GONE(p), z3.IntVal(0), z3.IntVal(1))), KEPT(p))))]


def pre(S):
    r, d, k = S.self._remove_bits, S.self._data, S.self._shift_count
    i, j = V('i'), V('j')
    return [('groups are not empty', k >= 1), ('places', FA([i], Imp(within(i, 0, r.n), And(r[i][0] >= 0, r[i][1] >= 0, r[i][1] < 32)))),
            ('groups are disjoint and in order', FA([i, j], Imp(And(0 <= i, i < j, j < r.n), pos(r, i) + k <= pos(r, j)))),
            ('words', FA([i], Imp(within(i, 0, d.n), And(d[i] >= 0, d[i] < 2 ** 32)), d[i]))]


def order(S):
    r, k = S.self._remove_bits, S.self._shift_count
    i, j = V('i'), V('j')
    return [('in order', FA([i, j], Imp(And(0 <= i, i < j, j <= r.n), POS(i) + k <= POS(j)), [POS(i), POS(j)]))]


def lemmas(S):
    r, k = S.self._remove_bits, S.self._shift_count
    T = size(S)

    def inside(q):
        g = V('g')
        return FA([g], Imp(And(within(g, 0, r.n), POS(g) <= q, q <= POS(g) + k), KEPT(q) == KEPT(POS(g))), POS(g))

    def between(q):
        g = V('g')
        return And(Imp(Or(r.n == 0, q <= POS(0)), KEPT(q) == q), FA([g], Imp(And(within(g, 0, r.n), POS(g) + k <= q, q <= POS(g + 1)), KEPT(q) == KEPT(POS(g) + k) + q - POS(g) - k), POS(g)))
    def kept(q):
        p = V('p')
        return And(KEPT(q) >= 0, KEPT(q) <= q, FA([p], Imp(within(p, 0, q), And(KEPT(p) <= KEPT(q), Imp(Not(GONE(p)), KEPT(p) < KEPT(q)))), KEPT(p), GONE(p)))
    return [Ind('nothing is kept inside a group', 0, None, inside, pat=KEPT), Ind('everything between two groups is kept', 0, T, between, pat=KEPT),
            Ind('kept bits are counted', 0, None, kept, pat=KEPT)]


def shift_post(S):
    b, p, T = S.self.compressed_buffer, V('p'), size(S)
    return [('padded to whole bytes', And(b.n % 8 == 0, b.n >= KEPT(T), b.n < KEPT(T) + 8)),
            ('the kept bits in order', FA([p], Imp(And(within(p, 0, T), Not(GONE(p))), b[KEPT(p)] == D(p)), GONE(p), D(p))),
            ('zeros behind them', FA([p], Imp(within(p, KEPT(T), b.n), b[p] == 0)))]


def shift_hints(S):
    r, p, T = S.self._remove_bits, V('p'), size(S)
    s = z3.If(POS(0) < T, POS(0), T)
    return order(S) + [('everything is kept before the first group', And(s >= 0, KEPT(s) == s, FA([p], Imp(within(p, 0, s), KEPT(p) == p), KEPT(p))))]


def cut(L):
    """where the part not yet looked at ends"""
    r = L.self._remove_bits
    q = POS(r.n - L.idx)
    return z3.If(q < size(L), q, size(L))


def shift_inv(L):
    a, s, T, p = L.a, cut(L), size(L), V('p')
    return [('length', a.n == s + KEPT(T) - KEPT(s)), ('bits before', FA([p], Imp(within(p, 0, s), a[p] == D(p)), D(p), a[p])),
            ('bits behind', FA([p], Imp(And(s <= p, p < T, Not(GONE(p))), a[s + KEPT(p) - KEPT(s)] == D(p)), GONE(p), D(p)))]


def shift_step(L):
    r, k, T, q = L.self._remove_bits, L.self._shift_count, size(L), V('q')
    g = r.n - 1 - L.idx
    s = cut(L)
    s2 = z3.If(POS(g) < T, POS(g), T)
    e = z3.If(POS(g) + k < T, POS(g) + k, T)
    return order(L) + [('this group', And(within(g, 0, r.n), POS(g) == pos(r, g), POS(g) >= 0, s2 <= e, e <= s, s <= T)),
                       ('nothing is kept of it', And(KEPT(e) == KEPT(s2), FA([q], Imp(within(q, s2, e), GONE(q)), GONE(q)))),
                       ('everything between is kept', FA([q], Imp(And(e <= q, q <= s), KEPT(q) == KEPT(e) + q - e), KEPT(q)))]


SHIFT = Contract(M + 'ShiftCompressor.compress', {'self': obj('ShiftCompressor')}, NoneT, name='ShiftCompressor.compress', modifies=('self.compressed_buffer',),
                 pre=pre, defs=defs, lemmas=lemmas, hints=shift_hints, post=shift_post, loops=[Loop(inv=shift_inv, pre=shift_step)])


def first(L, p, lo):
    """the first bit of a group given by its word and bit, with number lo or more"""
    r = L.self._remove_bits
    return And(GONE(p), POS(GRP(p)) == p, GRP(p) >= lo, r[GRP(p)].n == 2)


def swap_inv(L):
    r, a, p = L.self._remove_bits, L.a, V('p')
    return [('length', a.n == size(L)), ('bits', FA([p], Imp(within(p, 0, size(L)), a[p] == z3.If(first(L, p, r.n - L.idx), z3.IntVal(0), D(p))), D(p), a[p]))]


def swap_step(L):
    r, k = L.self._remove_bits, L.self._shift_count
    g = r.n - 1 - L.idx
    return order(L) + [('this group', And(within(g, 0, r.n), POS(g) == pos(r, g), POS(g) >= 0, GONE(POS(g)), GRP(POS(g)) == g))]


def swap_in(L):
    r, a, p = L.self._remove_bits, L.a, V('p')
    g = r.n - 1 - L.up.idx
    return [('length', a.n == size(L)), ('bits', FA([p], Imp(within(p, 0, size(L)), a[p] == z3.If(Or(first(L, p, g + 1), And(L.idx > 0, p == POS(g))), z3.IntVal(0), D(p))), D(p), a[p]))]


def swap_post(S):
    b, p, T = S.self.compressed_buffer, V('p'), size(S)
    return [('as many bits', b.n == T), ('every bit at its place', FA([p], Imp(within(p, 0, T), b[p] == z3.If(first(S, p, 0), z3.IntVal(0), D(p))), D(p)))]


SWAP = Contract(M + 'SwapCompressor.compress', {'self': obj('SwapCompressor')}, NoneT, name='SwapCompressor.compress', modifies=('self.compressed_buffer',),
                pre=pre, defs=defs, post=swap_post, loops=[Loop(inv=swap_inv, pre=swap_step), Loop(inv=swap_in)])


# ------------------------------------------------------------------------------------------ construction
def same(a, b):
    return And(a.n == b.n, a[0] == b[0], a[1] == b[1], Imp(a.n > 2, a[2] == b[2]))


def init_post(S):
    g, r, i, j = S.o.remove_bits, S.self._remove_bits, V('i'), V('j')
    k = S.o.default_shift_count
    apart = lambda a, b: Or(pos(g, a) + k <= pos(g, b), pos(g, b) + k <= pos(g, a))
    ok = And(k >= 1, FA([i], Imp(within(i, 0, g.n), And(g[i][0] >= 0, g[i][1] >= 0, g[i][1] < 32))), FA([i, j], Imp(And(within(i, 0, g.n), within(j, 0, g.n), i != j), apart(i, j))))
    return [('the data are kept', And(S.self._data.n == S.o.data.n, FA([i], Imp(within(i, 0, S.o.data.n), S.self._data[i] == S.o.data[i])))), ('the length of a group is kept', S.self._shift_count == k),
            ('as many groups', r.n == g.n), ('every group is one of those given', FA([i], Imp(within(i, 0, r.n), ex_(0, g.n, lambda j: same(r[i], g[j]))))),
            ('every group given is there', FA([j], Imp(within(j, 0, g.n), ex_(0, r.n, lambda i: same(r[i], g[j]))))),
            ('the groups are in order and apart when those given are', Imp(ok, And(FA([i], Imp(within(i, 0, r.n), And(r[i][0] >= 0, r[i][1] >= 0, r[i][1] < 32))), FA([i, j], Imp(And(0 <= i, i < j, j < r.n), pos(r, i) + k <= pos(r, j))))))]


def init(c):
    return Contract(M + c + '.__init__', {'self': ObjOf(M + c), 'remove_bits': ListOf(GROUP), 'data': ListOf(Int), 'default_shift_count': Int}, NoneT, name=c + ' (construction)',
                    modifies=('self',), post=init_post)


ALL = [SHIFT, SWAP, init('ShiftCompressor'), init('SwapCompressor')]
