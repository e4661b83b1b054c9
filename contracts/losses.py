"""Contracts behind the simulated packet losses (C09): corrupt_all_bits_tuples for ranges that may overlap, PacketCorruptor."""
from .lib import *
from .corrupt import C, OFS, SUB, PL, BT, WANT, PICK, TUP, pow2, bad, allgood, digit_defs, digit_lemmas

I1 = z3.IntSort()
FLIP = z3.Function('flipped', I1, I1, I1, z3.BoolSort())     # FLIP(m, j, b): the first m digits of j flip bit b
MK = z3.Function('digits', I1, z3.BoolSort())
RQ = z3.Function('range_of_digit', I1, I1)
TRY = z3.Function('try', I1, z3.BoolSort())


def covered(T, b):
    return ex_(0, T.n, lambda t: And(T[t][0] <= b, b < T[t][1]))


def wanted(x):
    return lambda q: And(PL(BT(q)) == q, z3.Xor(bitf(WANT, BT(q)), bitf(x, BT(q))))


def gdefs(S):
    T, x = S.tuples, S.instruction
    t, b, q, m, n, j = V('t'), V('b'), V('q'), V('m'), V('n'), V('j')
    here = And(within(t, 0, T.n), q >= OFS(t), q < OFS(t) + T[t][1] - T[t][0])
    ok = allgood(S, T, T.n)
    size = OFS(T.n)
    return [OFS(0) == 0, FA([t], Imp(within(t, 0, T.n), OFS(t + 1) == OFS(t) + T[t][1] - T[t][0]), OFS(t)),
            ('bits of the digits', FA([t, q], Imp(And(ok, here), And(BT(q) == q - OFS(t) + T[t][0], RQ(q) == t)), [OFS(t), BT(q)], [OFS(t), RQ(q)])),
            ('first digits', FA([b], Or(And(PL(b) == -1, FA([q], Imp(within(q, 0, size), BT(q) != b), BT(q))), And(within(PL(b), 0, size), BT(PL(b)) == b)), PL(b))),
            ('no flips', FA([j, b], Not(FLIP(0, j, b)), FLIP(0, j, b))),
            ('one more digit', FA([m, n, j, b], Imp(And(m >= 0, n == m + 1), FLIP(n, j, b) == z3.Xor(FLIP(m, j, b), And(SUB(j, m), BT(m) == b))), [MK(m), FLIP(n, j, b)])),
            FA([m], MK(m), MK(m)),
            PICK(0) == 0, FA([q], Imp(q >= 0, PICK(q + 1) == PICK(q) + z3.If(wanted(x)(q), pow2(q), 0)), PICK(q))] + digit_defs()


def glemmas(S):
    o = S.o if hasattr(S, 'o') else S
    T, x = o.tuples, o.instruction
    size = OFS(T.n)
    ok = allgood(S, T, T.n)
    t, q, b, j, m = V('t'), V('q'), V('b'), V('j'), V('m')

    def mono(k):
        return Imp(ok, FA([t], Imp(within(t, 0, k + 1), And(OFS(t) <= OFS(k), OFS(t) >= 0)), OFS(t)))

    def owner(k):
        r = RQ(q)
        return Imp(ok, FA([q], Imp(within(q, 0, OFS(k)), And(within(r, 0, k), OFS(r) <= q, q < OFS(r) + T[r][1] - T[r][0])), BT(q), RQ(q)))

    def low(u):
        return And(MK(u), FA([m, j, b], Imp(And(m >= u, j >= 0, j < pow2(m)), FLIP(u, pow2(m) + j, b) == FLIP(u, j, b)), [pow2(m), FLIP(u, j, b)]))

    def never(u):
        return And(MK(u), Imp(u <= size, FA([j, b], Imp(PL(b) == -1, Not(FLIP(u, j, b))), FLIP(u, j, b))))

    def picked(u):
        n = z3.If(size >= 0, size, 0)
        return And(MK(u), FA([b], FLIP(u, PICK(n), b) == And(PL(b) >= 0, PL(b) < u, wanted(x)(PL(b))), FLIP(u, PICK(n), b)))
    n = z3.If(size >= 0, size, 0)
    return [Ind('offsets grow', 0, T.n, mono, pat=OFS), Ind('every digit has its range', 0, T.n, owner, pat=OFS)] + digit_lemmas(n, wanted(x)) + [
        Ind('flips need only their digits', 0, None, low, pat=MK), Ind('a bit of no range is never flipped', 0, None, never, pat=MK), Ind('the wanted number flips the wanted bits', 0, n, picked, pat=MK)]


def gpost(S):
    T, x, r = S.o.tuples, S.o.instruction, S.r
    j, b = V('j'), V('b')
    size = OFS(T.n)
    return [('two to the number of bits results', r.n == pow2(size)), ('there are results', r.n >= 1), ('the original comes first', r[0] == x),
            ('only bits of the ranges are changed', FA([j, b], Imp(And(within(j, 0, r.n), within(b, 0, 32), Not(covered(T, b))), bitf(r[j], b) == bitf(x, b)), bitf(r[j], b))),
            ('every combination appears', Imp(compatible(T, x), And(within(PICK(size), 0, r.n), FA([b], Imp(within(b, 0, 32), bitf(r[PICK(size)], b) == bitf(WANT, b))))))]


def ghints(S):
    T, x, r = S.o.tuples, S.o.instruction, S.r
    b, t = V('b'), V('t')
    size = OFS(T.n)
    return [('the number of digits', And(size >= 0, MK(size))),
            ('a bit with a digit is in a range', FA([b], Imp(PL(b) >= 0, And(within(RQ(PL(b)), 0, T.n), T[RQ(PL(b))][0] <= b, b < T[RQ(PL(b))][1])), PL(b))),
            ('a bit in a range has a digit', FA([t, b], Imp(And(within(t, 0, T.n), T[t][0] <= b, b < T[t][1]), And(BT(OFS(t) + b - T[t][0]) == b, OFS(t) + b - T[t][0] >= 0, OFS(t) + b - T[t][0] < size, OFS(t + 1) <= size, PL(b) >= 0)), [OFS(t), PL(b)])),
            ('a covered bit has a digit', FA([b], Imp(covered(T, b), PL(b) >= 0), PL(b)), Only('a bit in a range has a digit')),
            ('the wanted number', And(within(PICK(size), 0, r.n), FA([b], Imp(within(b, 0, 32), bitf(r[PICK(size)], b) == z3.Xor(bitf(x, b), And(PL(b) >= 0, wanted(x)(PL(b))))), PL(b)))),
            ('it is the wanted word', Imp(compatible(T, x), FA([b], Imp(within(b, 0, 32), bitf(r[PICK(size)], b) == bitf(WANT, b)), PL(b))), Only('the wanted number', 'a covered bit has a digit', 'first digits')),
            ('every combination appears', Imp(compatible(T, x), And(within(PICK(size), 0, r.n), FA([b], Imp(within(b, 0, 32), bitf(r[PICK(size)], b) == bitf(WANT, b)), bitf(WANT, b)))), Only('it is the wanted word', 'the wanted number'))]


def gcall(S):
    """WANT stands for any word"""
    T, x, r = S.o.tuples, S.o.instruction, S.r
    j, b = V('j'), V('b')
    return [('the original comes first', And(r.n >= 1, r[0] == x)),
            ('only bits of the ranges are changed', FA([j, b], Imp(And(within(j, 0, r.n), within(b, 0, 32), Not(covered(T, b))), bitf(r[j], b) == bitf(x, b)), bitf(r[j], b))),
            ('every combination appears', Imp(compatible(T, x), ex_(0, r.n, lambda j: FA([b], Imp(within(b, 0, 32), bitf(r[j], b) == bitf(WANT, b))))))]


def compatible(T, x):
    b = V('b')
    return FA([b], Imp(within(b, 0, 32), Or(T(b) if callable(T) else covered(T, b), bitf(WANT, b) == bitf(x, b))))


def filled(x, r, n, m):
    j, b = V('j'), V('b')
    return [('the original is first', r[0] == x), ('digits', And(m >= 0, MK(m))),
            ('each filled place has the flips of its number', FA([j, b], Imp(And(within(j, 0, n), within(b, 0, 32)), bitf(r[j], b) == z3.Xor(bitf(x, b), FLIP(m, j, b))), bitf(r[j], b)))]


def inv0(L):
    T = L.o.tuples
    return [('bits so far', L.size == OFS(L.idx)), ('the ranges so far are legal', allgood(L, T, L.idx)), ('not negative', L.size >= 0)]


def outer(L):
    T, r = L.o.tuples, L.result
    return [('places filled', L.kk == pow2(OFS(L.idx))), ('places', r.n == pow2(OFS(T.n)))] + filled(L.o.instruction, r, L.kk, OFS(L.idx))


def mid(L):
    T, r = L.o.tuples, L.result
    m = OFS(L.up.idx) + L.idx
    return [('places filled', L.kk == pow2(m)), ('places', r.n == pow2(OFS(T.n)))] + filled(L.o.instruction, r, L.kk, m)


def inner(L):
    T, r = L.o.tuples, L.result
    return [('places', r.n == pow2(OFS(T.n)))] + filled(L.o.instruction, r, L.kk + L.idx, OFS(L.up.up.idx) + L.up.idx + 1)


def mpre(L):
    m = OFS(L.up.idx) + L.idx
    i = L.idx + L.o.tuples[L.up.idx][0]
    j, b = V('j'), V('b')
    return [('the digit of this bit', And(BT(m) == i, m >= 0, MK(m), m < OFS(L.up.idx + 1), OFS(L.up.idx + 1) <= OFS(L.o.tuples.n))),
            ('smaller numbers do not have this digit', FA([j, b], Imp(within(j, 0, pow2(m)), FLIP(m + 1, j, b) == FLIP(m, j, b)), FLIP(m + 1, j, b)))]


def istep(L):
    q, b = V('q'), V('b')
    m = OFS(L.up.up.idx) + L.up.idx
    k = L.kk + L.idx
    return [('the place gets the number with one more digit', FA([q], SUB(k, q) == Or(q == m, SUB(L.idx, q)), SUB(k, q))),
            ('it flips this bit, too', FA([b], And(FLIP(m, k, b) == FLIP(m, L.idx, b), FLIP(m + 1, L.idx, b) == FLIP(m, L.idx, b), FLIP(m + 1, k, b) == z3.Xor(FLIP(m, L.idx, b), BT(m) == b)), FLIP(m + 1, k, b)))]


def iend(L):
    b = V('b')
    k = L.kk + L.idx0
    return [('the place just filled', FA([b], Imp(within(b, 0, 32), bitf(L.result[k], b) == z3.Xor(bitf(L.o.instruction, b), FLIP(OFS(L.up.up.idx) + L.up.idx + 1, k, b)))))]


GEN = Contract(C + 'corrupt_all_bits_tuples', {'tuples': TUP, 'instruction': Int}, ListOf(Int), name='corrupt_all_bits_tuples (any ranges)',
               defs=gdefs, lemmas=glemmas, post=gpost, hints=ghints, callpost=gcall, anyof=(WANT, TRY),
               raises={'RuntimeError': lambda S: ex_(0, S.o.tuples.n, lambda t: bad(S, S.o.tuples, t))},
               loops=[Loop(inv=inv0), Loop(inv=outer), Loop(inv=mid, pre=mpre), Loop(inv=inner, pre=istep, end=iend)])
from .bits import BV, INT
TL = BV + INT + [GEN]
GL = [GEN]

# ------------------------------------------------------------------------------------------ one word of the program
K = 'semantic_codec.corruption.corruptors:'
enc, addr = (lambda x: ia('encoding', x)), (lambda x: ia('address', x))
PROG = MapOf(Int, ListOf(INST))
AR = z3.ArraySort(I1, I1)
sel, st = z3.Select, z3.Store
PC = ObjOf(K + 'PacketCorruptor')


def kinds(v, T, x, a):
    """the list v has exactly the candidates of word x at address a; T: the ranges or a predicate of the bits"""
    b, j, k = V('b'), V('j'), V('k')
    if not callable(T):
        return kinds(v, (lambda b: covered(T, b)), x, a)
    return [('at the same address', FA([j], Imp(within(j, 0, v.n), addr(v[j]) == a), v[j])),
            ('only bits of the ranges are changed', FA([j, b], Imp(And(within(j, 0, v.n), within(b, 0, 32), Not(T(b))), bitf(enc(v[j]), b) == bitf(x, b)), bitf(enc(v[j]), b))),
            ('no encoding appears twice', FA([j, k], Imp(And(within(j, 0, v.n), within(k, 0, v.n), enc(v[j]) == enc(v[k])), j == k), [v[j], v[k]])),
            ('the original is a candidate', ex_(0, v.n, lambda j: enc(v[j]) == x)),
            ('every combination is a candidate', Imp(compatible(T, x), ex_(0, v.n, lambda j: FA([b], Imp(within(b, 0, 32), bitf(enc(v[j]), b) == bitf(WANT, b))))))]


def others(S, p, q, a):
    k, i = V('k'), V('i')
    return [('the addresses stay', And(q.n == p.n, FA([i], Imp(within(i, 0, p.n), q.key(i) == p.key(i)), q.key(i)), FA([k], q.has(k) == p.has(k), q.has(k)))),
            ('the others are as long', FA([k], Imp(And(p.has(k), k != a), q[k].n == p[k].n), q[k].n)), ('the others are kept', FA([k, i], Imp(And(p.has(k), k != a, within(i, 0, p[k].n)), q[k][i] == p[k][i]), q[k][i]))]


def apre(S):
    p, a = S.program, S.address
    return [('an address of the program', p.has(a)), ('with its original', And(p[a].n == 1, addr(p[a][0]) == a)), ('ranges of a word', allgood(S, S.tuples, S.tuples.n))]


def apost(S):
    p = S.o.program
    return others(S, p, S.program, S.o.address) + kinds(S.program[S.o.address], S.o.tuples, enc(p[S.o.address][0]), S.o.address)


def table(L, at, r, n):
    """corrupted, encodings: the results r[0..n) so far, each encoding once; at: the position of an encoding"""
    c, e = L.corrupted, L.encodings
    j, x, q = V('j'), V('x'), V('q')
    return [('encodings of the candidates', FA([j], Imp(within(j, 0, c.n), And(e.has(enc(c[j])), sel(at, enc(c[j])) == j, addr(c[j]) == L.address)), c[j])),
            ('candidates of the encodings', FA([x], Imp(e.has(x), And(within(sel(at, x), 0, c.n), enc(c[sel(at, x)]) == x)), e.has(x), sel(at, x)))]


def ainv(L):
    T, x, a = L.tuples, enc(L.it[0]), L.address
    g = L.g['at']
    return table(L, g, None, 0) + [('nothing before the first', Imp(L.idx == 0, And(L.corrupted.n == 0)))] + [(n, Imp(L.idx >= 1, e)) for n, e in kinds(L.corrupted, T, x, a)]


def cinv(L):
    r, T = L.it, L.tuples
    g, b, j, q = L.g['bt'], V('b'), V('j'), V('q')
    c = L.corrupted
    x = enc(L.inst)
    return table(L, g, r, L.idx) + [
        ('results so far', FA([q], Imp(within(q, 0, L.idx), And(L.encodings.has(r[q]), within(sel(g, r[q]), 0, c.n), enc(c[sel(g, r[q])]) == r[q])), r[q])),
        ('only bits of the ranges are changed', FA([j, b], Imp(And(within(j, 0, c.n), within(b, 0, 32), Not(covered(T, b))), bitf(enc(c[j]), b) == bitf(x, b)), bitf(enc(c[j]), b)))]


def cnext(L, L2):
    return z3.If(L2.corrupted.n > L.start.corrupted.n, st(L.g['bt'], L.it[L.idx], L.start.corrupted.n), L.g['bt'])


ADR = Contract(K + 'PacketCorruptor._corrupt_address', {'self': PC, 'tuples': TUP, 'address': Int, 'program': PROG}, NoneT, name='_corrupt_address', modifies=('program',),
               pre=apre, post=apost, anyof=(WANT, TRY), callpost=apost,
               loops=[Loop(inv=ainv, types={'corrupted': ListOf(INST), 'encodings': SetOf(Int)}, ghosts={'at': (Raw(AR), lambda L: z3.K(I1, z3.IntVal(0)), lambda L, L2: L2._ctx.ghosts['bt'])}),
                      Loop(inv=cinv, types={'corrupted': ListOf(INST), 'encodings': SetOf(Int)}, ghosts={'bt': (Raw(AR), lambda L: L.up.g['at'], cnext)})])
AL = BV + INT + [GEN, ADR]


# ------------------------------------------------------------------------------------------ the whole program
from .predict import PRED as PRED0, PIECE, IDX, FIRST, RND, third, reported, first_piece, second_piece, defs as pdefs, lemmas as plemmas, pre as ppre
LOST = z3.Function('lost', I1, I1, z3.BoolSort())      # LOST(i, b): bit b of word i is predicted lost
LL, LT = z3.Function('lost_packet', I1, I1, I1), z3.Function('lost_round', I1, I1, I1)
WORD = z3.Int('word_looked_at')                        # any word
FIELDS = {'packet_count': Int, 'data_size': Int, 'packet_lost': ListOf(Int), 'bits_per_interleave': Int, 'save_corrupted_program': Bool}


def pcall(S):
    """the reported pieces are the units of the lost packets"""
    i, t, k = V('i'), V('t'), V('k')
    er, w, total, l = S.r, S.o.bits_per_interleave, S.o.data_size * 32, S.o.packets_lost
    x = FIRST(i) + RND(t)
    return [('every unit is reported', FA([i, t], Imp(And(within(i, 0, l.n), t >= 0, x < total), reported(er, x, w)), [FIRST(i), RND(t)])),
            ('whatever is reported is a unit', FA([k], Imp(within(k, 0, er.n), z3.Exists([i, t], And(within(i, 0, l.n), t >= 0, x < total, Or(first_piece(er[k], x, w), second_piece(er[k], x, w))))), er[k])),
            ('a piece lies in a word', FA([k], Imp(within(k, 0, er.n), piece_ok(er[k], w)), er[k]))]


def length(e, w):
    return z3.If(e.n == 2, w, third(e))


def piece_ok(e, w):
    return And(e[0] >= 0, e[1] >= 0, Or(e.n == 2, e.n == 3), length(e, w) >= 0, e[1] + length(e, w) <= 31)


import copy
PRED = copy.copy(PRED0)
PRED.callpost = pcall


def words(S):
    w = S.bits_per_interleave
    return plemmas(S) + [Ind('rounds of whole words', 0, None, lambda t: Imp(w == 32, And(RND(t) % 32 == 0, RND(t) >= 0)), pat=RND)]


def phints(S):
    g, o, er = S.ctx.ghosts, S.o, S.r
    k = V('k')
    i, t = g['gi'].get(k), g['gt'].get(k)
    w = o.bits_per_interleave
    x = FIRST(i) + RND(t)
    e = er[k]
    here = within(k, 0, er.n)
    _, reported_, ok = pcall(S)
    return [('units stand inside the data', FA([k], Imp(here, And(x >= 0, within(i, 0, o.packets_lost.n), t >= 0, Imp(w == 32, x % 32 == 0))), e), Only('whatever is reported is a unit', 'first units', 'places', 'later rounds stand further', 'rounds of whole words')),
            ('two parts or three', FA([k], Imp(here, And(e.n >= 2, e.n <= 3)), e)),
            ('pieces of the units', FA([k], Imp(here, Or(first_piece(e, x, w), second_piece(e, x, w))), e), Only('whatever is reported is a unit')),
            ok + (Only('units stand inside the data', 'pieces of the units', 'two parts or three'),), reported_ + (Only('whatever is reported is a unit'),)]


PRED.hints, PRED.lemmas = phints, words


class Args:
    """the arguments of predict_corruption in the corruptor"""

    def __init__(self, S, order):
        s = S.self
        self.interleave, self.packets_lost, self.bits_per_interleave, self.packet_count, self.data_size = order(S), s.packet_lost, s.bits_per_interleave, s.packet_count, s.data_size


def hit(x, w, i, b):
    """the pieces of the unit at bit x have bit b of word i"""
    W, c = x / 32, x % 32
    return z3.If(c + w >= 32, Or(And(i == W, c <= b, b < 31), And(i == W + 1, b >= 0, b < w - 31 + c)), And(i == W, c <= b, b < c + w))


def kdefs(order):
    def f(S):
        a = Args(S, order)
        i, b, l, t = V('i'), V('b'), V('l'), V('t')
        x, y = FIRST(LL(i, b)) + RND(LT(i, b)), FIRST(l) + RND(t)
        total, w = a.data_size * 32, a.bits_per_interleave
        return pdefs(a) + [('lost bits', FA([i, b], Imp(LOST(i, b), And(within(LL(i, b), 0, a.packets_lost.n), LT(i, b) >= 0, x < total, hit(x, w, i, b))), LOST(i, b))),
                           ('bits of lost units', FA([i, b, l, t], Imp(And(within(l, 0, a.packets_lost.n), t >= 0, y < total, hit(y, w, i, b)), LOST(i, b)), [LOST(i, b), FIRST(l), RND(t)])),
                           ('places of the lost packets', FA([i], TRY(WHERE(a.packet_count, a.packets_lost[i])), a.packets_lost[i])),
                           ('words to try', FA([b], TRY(b), TRY(b)))]
    return f


def kpre(order):
    def f(S):
        p, m, k = S.program, V('m'), V('k')
        return ppre(Args(S, order))[0 if order is given else 1:] + [('something is lost', S.self.packet_lost.n >= 1), ('nothing is saved', Not(S.self.save_corrupted_program)), ('any word', within(WORD, 0, p.n)),
                                       ('an uncorrupted program', FA([k], Imp(p.has(k), And(p[k].n == 1, addr(p[k][0]) == k)), p.has(k)))]
    return f


def klemmas(order):
    return lambda S: plemmas(Args(S, order))


def sorted_addresses(A, p):
    i, j, k = V('i'), V('j'), V('k')
    return [('as many addresses', A.n == p.n), ('addresses of the program', FA([i], Imp(within(i, 0, A.n), p.has(A[i])), A[i])),
            ('in ascending order', FA([i, j], Imp(And(0 <= i, i < j, j < A.n), A[i] < A[j]), [A[i], A[j]]))]


def kinv(L):
    E, n, k, cur, T, A, w = L.errors, L.errors.n, L.k, L.current, L.tuples, L.addresses, L.self.bits_per_interleave
    p, o = L.program, L.o.program
    i, j, b, t = V('i'), V('j'), V('b'), V('t')
    s = k - T.n
    fin = k == n + 1
    a = A[WORD]
    live = And(n >= 1, k <= n, cur < A.n)
    untouched = FA([i], Imp(And(within(i, 0, A.n), Not(fin), n >= 1, i >= cur), And(p[A[i]].n == 1, p[A[i]][0] == o[A[i]][0])), A[i])
    return sorted_addresses(A, o) + [
        ('the addresses', And(L.g['ad'].n == A.n, FA([i], L.g['ad'].get(i) == A[i], A[i], L.g['ad'].get(i)))),
        ('pieces lie in a word', FA([j], Imp(within(j, 0, n), piece_ok(E[j], w)), E[j])),
        ('word by word', FA([i, j], Imp(And(0 <= i, i <= j, j < n), E[i][0] <= E[j][0]), [E[i], E[j]])),
        ('the bits of the pieces are lost', FA([j, b], Imp(And(within(j, 0, n), E[j][1] <= b, b < E[j][1] + length(E[j], w)), LOST(E[j][0], b)), [E[j], LOST(E[j][0], b)])),
        ('lost bits are in the pieces', FA([i, b], Imp(LOST(i, b), EX([j], And(within(j, 0, n), E[j][0] == i, E[j][1] <= b, b < E[j][1] + length(E[j], w)))), LOST(i, b))),
        ('the next piece', Imp(n >= 1, And(k >= 0, k <= n + 1, cur >= 0, Imp(k < n, And(L.e[0] == E[k][0], L.e[1] == E[k][1], L.e.n == E[k].n, third(L.e) == third(E[k]))),
                                            Imp(And(k >= 1, k <= n), cur == E[k - 1][0]), Imp(k == 0, And(cur == E[0][0], T.n == 0)), Imp(And(k >= 1, k <= n), L.e[0] >= cur)))),
        ('pieces waiting', Imp(live, And(T.n <= k, Imp(k >= 1, T.n >= 1)))),
        ('they are of this word', FA([t], Imp(And(live, within(t, 0, T.n)), And(E[s + t][0] == cur, T[t][0] == E[s + t][1], T[t][1] == E[s + t][1] + length(E[s + t], w))), T[t])),
        ('those before are of words before', FA([j], Imp(And(live, within(j, 0, s)), E[j][0] < cur), E[j])),
        ('the addresses stay', And(p.n == o.n, FA([i], Imp(within(i, 0, o.n), p.key(i) == o.key(i)), p.key(i)), FA([i], p.has(i) == o.has(i), p.has(i)))),
        ('the words to come are as they were', untouched), ('or all', Imp(n == 0, And(p[a].n == 1, p[a][0] == o[a][0]))), ('no piece before the first', Imp(And(n >= 1, k == 0, WORD < cur), fresh(p, o, a)))] + [
        (nm, Imp(And(n >= 1, Or(fin, WORD < cur)), Or(fresh(p, o, a), ex))) for nm, ex in kinds(p[a], lostw, enc(o[a][0]), a)]


def lostw(b):
    return LOST(WORD, b)


def fresh(p, o, a):
    b = V('b')
    return And(p[a].n == 1, p[a][0] == o[a][0], FA([b], Not(lostw(b)), lostw(b)))


def kbefore(L):
    E, n, p, o = L.errors, L.errors.n, L.program, L.o.program
    a = L.addresses[WORD]
    i, j, b = V('i'), V('j'), V('b')
    early = And(n >= 1, WORD < E[0][0])
    w = L.self.bits_per_interleave
    return [('a piece lies in a word', FA([j], Imp(within(j, 0, n), piece_ok(E[j], w)), E[j])),
            ('word by word', FA([i, j], Imp(And(0 <= i, i <= j, j < n), E[i][0] <= E[j][0]), [E[i], E[j]])),
            ('lost bits are in the pieces', FA([i, b], Imp(LOST(i, b), EX([j], And(within(j, 0, n), E[j][0] == i, E[j][1] <= b, b < E[j][1] + length(E[j], w)))), LOST(i, b))),
            ('the first piece', FA([j], Imp(within(j, 0, n), E[0][0] <= E[j][0]), E[j]), Only('word by word')),
            ('no lost bit before it', FA([b], Imp(early, Not(lostw(b))), lostw(b)), Only('the first piece', 'lost bits are in the pieces')),
            ('an untouched word', And(p[a].n == 1, p[a][0] == o[a][0])),
            ('no piece before the first', Imp(early, fresh(p, o, a)), Only('no lost bit before it', 'an untouched word'))]


def kloop(L):
    E, n, k, cur, T, w = L.errors, L.errors.n, L.k, L.current, L.tuples, L.self.bits_per_interleave
    j, b, t = V('j'), V('b'), V('t')
    s = k - T.n
    last = And(k >= 1, cur < L.addresses.n, Or(k == n, E[k][0] != cur))
    return [('bits waiting are lost', FA([t, b], Imp(And(last, within(t, 0, T.n), T[t][0] <= b, b < T[t][1]), LOST(cur, b)), [T[t], LOST(cur, b)])),
            ('lost bits wait', FA([j, b], Imp(And(last, within(j, 0, n), E[j][0] == cur, E[j][1] <= b, b < E[j][1] + length(E[j], w)), And(within(j - s, 0, T.n), T[j - s][0] <= b, b < T[j - s][1])), [E[j], LOST(cur, b)])),
            ('the bits waiting are those of this word', FA([b], Imp(last, covered(T, b) == LOST(cur, b)), LOST(cur, b)), Only('bits waiting are lost', 'lost bits wait', 'lost bits are in the pieces'))]


CTX = ('any word', 'as many addresses', 'addresses of the program', 'in ascending order', 'the next piece', 'pieces waiting', 'the addresses stay', 'ascending')


def kend(L):
    E, n, s, A, p, o = L.errors, L.errors.n, L.start, L.addresses, L.program, L.o.program
    a = A[WORD]
    i, b, j = V('i'), V('b'), V('j')
    v, u = p[a], s.program[a]
    x = enc(o[a][0])
    T, U, w, t = L.tuples, s.tuples, L.self.bits_per_interleave, V('t')
    live = And(n >= 1, L.k <= n, L.current < A.n)
    last = And(s.k >= 1, Or(s.k == n, E[s.k][0] != s.current))
    this = And(last, WORD == s.current)
    by = kinds(v, s.tuples, x, a)
    ks = kinds(v, lostw, x, a)
    old = And(n >= 1, WORD < s.current)
    skip = And(n >= 1, last, WORD > s.current, Or(L.k == n + 1, WORD < L.current))
    out = [('the word wanted', TRY(WANT)), ('words behind stay', Imp(WORD < s.current, And(v.n == u.n, FA([i], Imp(within(i, 0, v.n), v[i] == u[i]), v[i], u[i]))), Only('_corrupt_address: the others are as long', '_corrupt_address: the others are kept', *CTX)),
           ('the new piece', Imp(s.k < n, And(T.n >= 1, L.k == s.k + 1, T[T.n - 1][0] == E[s.k][1], T[T.n - 1][1] == E[s.k][1] + length(E[s.k], w)))),
           ('the pieces before', Imp(And(live, T.n > 1), And(T.n == U.n + 1, s.current == L.current, FA([t], Imp(within(t, 0, U.n), And(T[t][0] == U[t][0], T[t][1] == U[t][1])), T[t])))),
           ('they are of this word', FA([t], Imp(And(live, within(t, 0, T.n)), And(E[L.k - T.n + t][0] == L.current, T[t][0] == E[L.k - T.n + t][1], T[t][1] == E[L.k - T.n + t][1] + length(E[L.k - T.n + t], w))), T[t]),
            Only('the new piece', 'the pieces before', 'they are of this word', *CTX)),
           ('pieces around it', Imp(skip, And(Imp(s.k >= 1, E[s.k - 1][0] < WORD), Imp(s.k < n, E[s.k][0] > WORD), s.k >= 0, s.k <= n)), Only(*CTX)),
           ('no piece of it', FA([j], Imp(And(skip, within(j, 0, n)), E[j][0] != WORD), E[j]), Only('pieces around it', 'word by word')),
           ('no lost bit of it', Imp(skip, FA([b], Not(lostw(b)), lostw(b))), Only('no piece of it', 'lost bits are in the pieces')),
           ('it is as it was', Imp(skip, And(v.n == 1, v[0] == o[a][0])), Only('the words to come are as they were', '_corrupt_address: the others are as long', '_corrupt_address: the others are kept', *CTX)),
           ('a word without pieces', Imp(skip, fresh(p, o, a)), Only('no lost bit of it', 'it is as it was'))]
    for (nm, e), (_, f) in zip(ks, by):
        out += [('this word: ' + nm, Imp(this, f), Only('_corrupt_address: ' + nm, 'the words to come are as they were', 'the word wanted', *CTX)),
                ('its bits: ' + nm, Imp(this, e), Only('this word: ' + nm, 'the bits waiting are those of this word')),
                ('behind: ' + nm, Imp(old, Or(fresh(p, o, a), e)), Only('words behind stay', nm)),
                (nm, Imp(And(n >= 1, Or(L.k == n + 1, WORD < L.current)), Or(fresh(p, o, a), e)), Only('its bits: ' + nm, 'behind: ' + nm, 'a word without pieces', *CTX))]
    return out


def kafter(L):
    p, o, a = L.program, L.o.program, L.addresses[WORD]
    b = V('b')
    v = p[a]
    x = enc(o[a][0])
    ks = kinds(v, lostw, x, a)
    return [('the place of the word', And(p.has(a), within(p.pos(a), 0, p.n), p.key(p.pos(a)) == a)), ('no piece, no lost bit', Imp(L.errors.n == 0, fresh(p, o, a))), ('all words are behind', Or(L.errors.n == 0, L.k == L.errors.n + 1)),
            ('an untouched word has its original', Imp(fresh(p, o, a), And(enc(v[0]) == x, addr(v[0]) == a, v.n == 1))),
            ('it is the only combination', Imp(And(fresh(p, o, a), compatible(lostw, x)), FA([b], Imp(within(b, 0, 32), bitf(enc(v[0]), b) == bitf(WANT, b)), bitf(WANT, b)))),
            ('an untouched word has its candidates', Imp(fresh(p, o, a), And(*[e for _, e in ks])), Only('an untouched word has its original', 'it is the only combination')),
            ('the same word', wrap(L._th, L.g['ad'])[WORD] == a)] + [(nm, e, Only(nm, 'an untouched word has its candidates', 'no piece, no lost bit', 'all words are behind')) for nm, e in ks] + \
        [(nm, e, Only(nm, 'the same word')) for nm, e in kinds(p[wrap(L._th, L.g['ad'])[WORD]], lostw, enc(o[wrap(L._th, L.g['ad'])[WORD]][0]), wrap(L._th, L.g['ad'])[WORD])]


def ascending(v):
    i, j = V('i'), V('j')
    return FA([i, j], Imp(And(0 <= i, i < j, j < v.n), enc(v[i]) < enc(v[j])), [v[i], v[j]])


def final(S, p, o, A):
    i = V('i')
    a = A[WORD]
    v = p[a]
    return sorted_addresses(A, o) + [('the addresses stay', And(p.n == o.n, FA([i], Imp(within(i, 0, o.n), p.key(i) == o.key(i)), p.key(i)), FA([i], p.has(i) == o.has(i), p.has(i))))] + kinds(v, lostw, enc(o[a][0]), a)


def kpost(S):
    A = wrap(S.th, S.ctx.ghosts['ad'])
    return final(S, S.program, S.o.program, A) + [('ordered by encoding', ascending(S.program[A[WORD]]))]


def khints(S):
    A = wrap(S.th, S.ctx.ghosts['ad'])
    a = A[WORD]
    ks = kinds(S.program[a], lostw, enc(S.o.program[a][0]), a)
    return [(nm, e, Only(nm)) for nm, e in ks] + [('ordered by encoding', ascending(S.program[a]))]


def send(L):
    p, A, m, s = L.program, wrap(L._th, L._ctx.ghosts['ad']), L.idx0, L.start.program
    a = A[WORD]
    v, u = p[a], s[a]
    i, j = V('i'), V('j')
    this = p.pos(a) == m
    out = [('the place of the word', And(p.has(a), within(p.pos(a), 0, p.n), p.key(p.pos(a)) == a, s.pos(a) == p.pos(a))),
           ('another list stays', Imp(Not(this), And(v.n == u.n, FA([i], Imp(within(i, 0, v.n), v[i] == u[i]), v[i], u[i])))),
           ('as many candidates', v.n == u.n),
           ('each candidate stays', FA([j], Imp(And(this, within(j, 0, u.n)), EX([i], And(within(i, 0, v.n), v[i] == u[j]))), u[j])),
           ('no smaller one follows', Imp(this, FA([i, j], Imp(And(0 <= i, i < j, j < v.n), enc(v[i]) <= enc(v[j])), [v[i], v[j]])))]
    ks = kinds(v, lostw, enc(L.o.program[a][0]), a)
    return out + [(nm, e, *([Only('each candidate stays', 'another list stays', 'as many candidates', nm)] if nm in ('the original is a candidate', 'every combination is a candidate') else [])) for nm, e in ks] + [
        ('ordered so far', Imp(p.pos(a) < L.idx, ascending(v)), Only('no smaller one follows', 'no encoding appears twice', 'another list stays', 'as many candidates', 'ordered so far'))]


def sinv(L):
    p, A = L.program, wrap(L._th, L._ctx.ghosts['ad'])
    a = A[WORD]
    return final(L, p, L.o.program, A) + [('the place of the word', And(p.has(a), within(p.pos(a), 0, p.n), p.key(p.pos(a)) == a)), ('ordered so far', Imp(p.pos(a) < L.idx, ascending(p[a])))]


PBAR = Contract('semantic_codec.report.print_progress:TextProgressBar.progress', {'self': ObjOf('semantic_codec.report.print_progress:TextProgressBar')}, NoneT, name='progress', trusted=True)
ORD, ORDN = z3.Function('default_order', I1, I1, I1), z3.Function('length_of_default_order', I1, I1)


WHERE = z3.Function('place_in_default_order', I1, I1, I1)


def built(S):
    """the order that build_2d_interleave_sp gives for this number of packets"""
    P = S.self.packet_count
    return wrap(S.th, SList(ORDN(P), lambda q: ORD(P, q), Int))


def given(S):
    return S.self.interleave


def bcall(S):
    P, v, q = S.o.packets, V('v'), V('q')
    at = WHERE(P, v)
    return [('it is the order for this number', And(S.r.n == ORDN(P), FA([q], S.r[q] == ORD(P, q), S.r[q]))), ('every number is in it', FA([v], Imp(within(v, 0, P), And(within(at, 0, S.r.n), S.r[at] == v)), at))]


BUILD = Contract('semantic_codec.interleaver.interleaver2d:build_2d_interleave_sp', {'packets': Int, 'flat': Const(True)}, ListOf(Int), name='build_2d_interleave_sp', pre=lambda S: [('some packets', S.packets >= 1)],
                 callpost=bcall, trusted='proved as build_2d_interleave_sp (flat) with cells that are floats; it has no other input than the number of packets')


def corruptor(name, order, T, pre, modifies=()):
    return Contract(K + 'PacketCorruptor.corrupt', {'self': ObjOf(K + 'PacketCorruptor', interleave=T, **FIELDS), 'program': PROG}, PROG, name='PacketCorruptor.corrupt (%s)' % name, modifies=('program',) + modifies,
                    pre=lambda S: kpre(order)(S) + pre(S), defs=kdefs(order), lemmas=klemmas(order), post=kpost, hints=khints,
                    loops=[Loop(inv=kinv, before=kbefore, pre=kloop, end=kend, after=kafter, types={'e': PIECE, 'tuples': TUP, 'current': Int, 'k': Int},
                                ghosts={'ad': (ListOf(Int), lambda L: raw(L.addresses.v), lambda L, L2: L.g['ad'])}), Loop(inv=sinv, end=send)])


COR = corruptor('order given', given, ListOf(Int), lambda S: [S.self.interleave.n >= 1])
COD = corruptor('default order', built, NoneT, lambda S: [('the numbers of the packets', FA([V('i')], Imp(within(V('i'), 0, S.self.packet_lost.n), within(S.self.packet_lost[V('i')], 0, S.self.packet_count))))], ('self.interleave',))
KL = BV + INT + [GEN, ADR, PRED, PBAR, BUILD, COR]
KD = BV + INT + [GEN, ADR, PRED, PBAR, BUILD, COD]
ALL = BV + INT + [GEN, ADR, PRED, PBAR, BUILD, COR, COD]

# ------------------------------------------------------------------------------------------ the constructor
NEW = Contract(K + 'PacketCorruptor.__init__', {'self': Const(lambda c: c.newref(MObj(c.eng.class_by_name(K + 'PacketCorruptor'), {}))), 'packet_count': Int, 'data_size': Int, 'interleave': ListOf(Int), 'packets_lost': ListOf(Int),
                                               'bits_per_interleave': Int, 'save_corrupted_path': NoneT}, NoneT, name='PacketCorruptor.__init__', modifies=('self',),
               post=lambda S: [('what is given is kept', And(S.self.packet_count == S.o.packet_count, S.self.data_size == S.o.data_size, S.self.bits_per_interleave == S.o.bits_per_interleave, Not(S.self.save_corrupted_program))),
                               same_list('the order', S.self.interleave, S.o.interleave), same_list('the lost packets', S.self.packet_lost, S.o.packets_lost)])


def same_list(name, a, b):
    i = V('i')
    return (name, And(a.n == b.n, FA([i], Imp(within(i, 0, a.n), a[i] == b[i]), a[i])))


NL = [NEW]
ALL += NL
