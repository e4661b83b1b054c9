"""Contract of predict_corruption in semantic_codec/corruption/corruption.py (C07).

The t-th unit of the i-th lost packet starts at bit FIRST(i) + RND(t) of the data.  A unit that does not reach the end of
its word is reported as (word, bit); one that does is reported as two pieces (word, bit, length) as the existing tests pin them.
"""
from .lib import *

M = 'semantic_codec.corruption.corruption:'
I1 = z3.IntSort()
PIECE = TupleUpTo(2, Int, Int, Int)
IDX, FIRST, RND = (z3.Function('pc_' + n, I1, I1) for n in ('IDX', 'FIRST', 'RND'))


def defs(S):
    i, t, j = V('i'), V('t'), V('j')
    o, l = S.interleave, S.packets_lost
    w, P = S.bits_per_interleave, S.packet_count
    return [('first units', FA([i], Imp(within(i, 0, l.n), FIRST(i) == w * IDX(i)), FIRST(i))),
            ('rounds', FA([t], Imp(t >= 0, RND(t + 1) == RND(t) + w * P), RND(t))), RND(0) == 0,
            ('places', FA([i], Imp(within(i, 0, l.n), And(within(IDX(i), 0, o.n), o[IDX(i)] == l[i], FA([j], Imp(within(j, 0, IDX(i)), o[j] != l[i]), o[j]))), l[i], IDX(i)))]


def pre(S):
    o, l = S.interleave, S.packets_lost
    return [('every lost packet is in the order', all_(0, l.n, lambda i: ex_(0, o.n, lambda j: o[j] == l[i]), pat=lambda i: l[i])), And(S.bits_per_interleave >= 1, S.bits_per_interleave <= 32, S.packet_count >= 1, S.data_size >= 0)]


def word(x):
    return x / 32


def b_(x):
    return x % 32


def third(e):
    return z3.IntVal(0) if isinstance(e.v, tuple) and len(e.v) == 2 else e[2]


def same(e, a, b, c=None):
    return And(e[0] == a, e[1] == b, e.n == 2 if c is None else And(e.n == 3, third(e) == c))


def first_piece(e, x, w):
    W, b = word(x), b_(x)
    return z3.If(b + w >= 32, same(e, W, b, 31 - b), same(e, W, b))


def second_piece(e, x, w):
    return And(b_(x) + w >= 32, same(e, word(x) + 1, 0, w - 31 + b_(x)))


def reported(er, x, w):
    return And(ex_(0, er.n, lambda k: first_piece(er[k], x, w)), Imp(b_(x) + w >= 32, ex_(0, er.n, lambda k: second_piece(er[k], x, w))))


def lemmas(S):
    def grow(t):
        u = V('u')
        return FA([u], Imp(within(u, 0, t + 1), And(RND(u) <= RND(t), RND(u) >= 0)), RND(u))
    return [Ind('later rounds stand further', 0, None, grow, pat=RND), ]


def eq3(a, b):
    return And(a[0] == b[0], a[1] == b[1], a.n == b.n, Or(a.n <= 2, third(a) == third(b)))


def content(S, er, total, w, done, gi, gt):
    i, t, k, k2 = V('i'), V('t'), V('k'), V('k2')
    x = FIRST(i) + RND(t)
    ox = FIRST(gi(k)) + RND(gt(k))
    return [('every unit so far is reported', FA([i, t], Imp(And(done(i, t), x < total), reported(er, x, w)), [FIRST(i), RND(t)])),
            ('whatever is reported is a unit', FA([k], Imp(within(k, 0, er.n), And(within(gi(k), 0, S.packets_lost.n), gt(k) >= 0, ox < total, Or(first_piece(er[k], ox, w), second_piece(er[k], ox, w)))), er[k])),
            ('nothing is reported twice', FA([k, k2], Imp(And(within(k, 0, er.n), within(k2, 0, er.n), eq3(er[k], er[k2])), k == k2), [er[k], er[k2]]))]


def outer(L):
    t, l = L.g['t'], L.packets_lost
    k = V('k')
    total = L.total_bits
    return [('rounds are counted', t >= 0), ('every packet stands at its unit', And(L.b.n == l.n, FA([k], Imp(within(k, 0, l.n), L.b[k] == FIRST(k) + RND(t)), L.b[k], FIRST(k))))] + \
        content(L, L.errors, total, L.bits_per_interleave, lambda i, u: And(within(i, 0, l.n), u >= 0, u < t), L.g['gi'].get, L.g['gt'].get)


def inner(L):
    t, l = L.up.g['t'], L.packets_lost
    k = V('k')
    total = L.total_bits
    return [('every packet stands at its unit', And(L.b.n == l.n, FA([k], Imp(within(k, 0, l.n), L.b[k] == FIRST(k) + RND(z3.If(k < L.idx, t + 1, t))), L.b[k])))] + \
        content(L, L.errors, total, L.bits_per_interleave, lambda i, u: And(within(i, 0, l.n), u >= 0, Or(u < t, And(u == t, i < L.idx))), L.g['hi'].get, L.g['ht'].get)


def iend(L):
    t, i, l, w, total = L.up.g['t'], L.idx0, L.packets_lost, L.bits_per_interleave, L.total_bits
    new, old = L.errors, L.start.errors
    k, j, u = V('k'), V('j'), V('u')
    x = FIRST(i) + RND(t)
    y = FIRST(j) + RND(u)
    before = And(within(j, 0, l.n), u >= 0, Or(u < t, And(u == t, j < i)), y < total)
    return [('the pieces before are kept', And(new.n >= old.n, FA([k], Imp(within(k, 0, old.n), eq3(new[k], old[k])), old[k]))),
            ('the packet stands at its unit', L.start.b[i] == x),
            *([('where the unit starts', And(L.bte == word(x), L.bit == b_(x)))] if L.has('bte') and L.has('bit') else []),
            *[('%s is there' % n, Imp(And(x < total, need), Or(And(new.n >= 1, p(new[new.n - 1], x, w)), And(new.n >= 2, p(new[new.n - 2], x, w)), ex_(0, old.n, lambda k: p(old[k], x, w)))))
              for n, p, need in (('the first piece', first_piece, True), ('the second piece', second_piece, b_(x) + w >= 32))],
            ('the unit of this packet is reported', Imp(x < total, reported(new, x, w)), Only('the first piece is there', 'the second piece is there', 'the pieces before are kept')),
            ('the units before are still reported', FA([j, u], Imp(before, reported(new, y, w)), [FIRST(j), RND(u)]), Only('the pieces before are kept', 'every unit so far is reported')),
            ('every unit so far is reported', FA([j, u], Imp(And(within(j, 0, l.n), u >= 0, Or(u < t, And(u == t, j < i + 1)), y < total), reported(new, y, w)), [FIRST(j), RND(u)]),
             Only('the units before are still reported', 'the unit of this packet is reported'))]


def after(L):
    i = V('i')
    return [('every packet is behind the data', FA([i], Imp(within(i, 0, L.packets_lost.n), FIRST(i) + RND(L.g['t']) >= L.total_bits), FIRST(i)))]


def upd(nm, val_):
    def nx(L, L2):
        n0 = L.start.errors.n
        old = L.g[nm]
        return SList(z3.IntVal(0), lambda k: z3.If(k >= n0, val_(L), old.get(k)), Int)
    return nx


def zero(L):
    return SList(z3.IntVal(0), lambda k: z3.IntVal(0), Int)


def post(S):
    g = S.ctx.ghosts
    l = S.o.packets_lost
    return content(S.o, S.r, S.o.data_size * 32, S.o.bits_per_interleave, lambda i, t: And(within(i, 0, l.n), t >= 0), g['gi'].get, g['gt'].get)


PRED = Contract(M + 'predict_corruption', {'packet_count': Int, 'bits_per_interleave': Int, 'data_size': Int, 'interleave': ListOf(Int), 'packets_lost': ListOf(Int)},
                ListOf(PIECE), name='predict_corruption', pre=pre, defs=defs, lemmas=lemmas, post=post,
                loops=[Loop(inv=outer, after=after, dec=lambda L: L.total_bits - RND(L.g['t']), types={'errors': ListOf(PIECE)},
                            ghosts={'t': (Int, lambda L: z3.IntVal(0), lambda L, L2: L.g['t'] + 1), 'gi': (ListOf(Int), zero, lambda L, L2: L2._ctx.ghosts['hi']), 'gt': (ListOf(Int), zero, lambda L, L2: L2._ctx.ghosts['ht'])}),
                       Loop(inv=inner, end=iend, types={'errors': ListOf(PIECE)},
                            ghosts={'hi': (ListOf(Int), lambda L: L.up.g['gi'], upd('hi', lambda L: L.idx)), 'ht': (ListOf(Int), lambda L: L.up.g['gt'], upd('ht', lambda L: L.up.g['t']))})])
ALL = [PRED]
