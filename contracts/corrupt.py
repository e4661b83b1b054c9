"""Contracts of semantic_codec/corruption/corruption.py."""
from .lib import *
from .bits import BV, INT

C = 'semantic_codec.corruption.corruption:'
pow2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())
I1 = z3.IntSort()
OFS = z3.Function('bits_before', I1, I1)              # how many bits the ranges before the s-th have
SUB = z3.Function('digit', I1, I1, z3.BoolSort())     # SUB(j, q): binary digit q of j
PL = z3.Function('place_of_bit', I1, I1)              # which digit decides on bit b (-1: none)
BT = z3.Function('bit_of_place', I1, I1)
RG = z3.Function('range_of_bit', I1, I1)
WANT = z3.Const('wanted', I1)
DQ = z3.Function('differing_digit', I1, I1, I1)     # a digit in which two numbers differ, if there is one
PICK = z3.Function('pick', I1, I1)


def digit_defs(SUB=SUB):
    m, k, q, j = V('m'), V('k'), V('q'), V('j')
    return [FA([m, j, k], Imp(And(m >= 0, j >= 0, k >= 0, j < pow2(m + 1), k < pow2(m + 1)), And(
                Imp(And(j >= pow2(m), k >= pow2(m)), DQ(j, k) == DQ(j - pow2(m), k - pow2(m))), Imp((j >= pow2(m)) != (k >= pow2(m)), DQ(j, k) == m))), [pow2(m), DQ(j, k)]),
            FA([q], Not(SUB(0, q)), SUB(0, q)),
            FA([m, k, q], Imp(And(m >= 0, k >= 0, k < pow2(m)), SUB(pow2(m) + k, q) == Or(q == m, SUB(k, q))), [pow2(m), SUB(pow2(m) + k, q)], [pow2(m), SUB(k, q)]),
            FA([m, k, q], Imp(And(m >= 0, k >= pow2(m), k < pow2(m + 1)), SUB(k, q) == Or(q == m, SUB(k - pow2(m), q))), [pow2(m), SUB(k, q)]),
            pow2(0) == 1, FA([m], Imp(m >= 0, And(pow2(m + 1) == 2 * pow2(m), pow2(m) >= 1)), pow2(m))]


def digit_lemmas(n, want, SUB=SUB):
    """n digits; want(q): the wanted digits"""
    def mono(k):
        i = V('i')
        return FA([i], Imp(within(i, 0, k + 1), pow2(i) <= pow2(k)), pow2(i))

    def high(m):
        j, q = V('j'), V('q')
        return FA([j, q], Imp(And(j >= 0, j < pow2(m), q >= m), Not(SUB(j, q))), SUB(j, q))

    def top(m):
        j, k = V('j'), V('k')
        return FA([j, k], Imp(And(j >= 0, k >= 0, j < pow2(m + 1), k < pow2(m + 1)), And(SUB(j, m) == (j >= pow2(m)), SUB(k, m) == (k >= pow2(m)))), DQ(j, k))

    def diff(m):
        j, k = V('j'), V('k')
        return FA([j, k], Imp(And(j >= 0, k >= 0, j < pow2(m), k < pow2(m), j != k), And(DQ(j, k) >= 0, DQ(j, k) < m, SUB(j, DQ(j, k)) != SUB(k, DQ(j, k)))), DQ(j, k))

    def pick(m):
        q = V('q')
        return And(PICK(m) >= 0, PICK(m) < pow2(m), FA([q], Imp(within(q, 0, m), SUB(PICK(m), q) == want(q)), SUB(PICK(m), q)))
    return [Ind('powers of two grow', 0, n, mono, pat=pow2), Ind('high digits are zero', 0, n, high, pat=pow2),
            Ind('the top digit', 0, n, top, pat=pow2), Ind('different numbers have different digits', 0, n, diff), Ind('the wanted digits make a number', 0, n, pick, pat=PICK)]


TUP = ListOf(TupleOf(Int, Int))


def bad(S, T, t):
    return Or(T[t][0] > T[t][1], T[t][0] < 0, T[t][1] >= 32)


def tdefs(S):
    T = S.tuples
    t, b = V('t'), V('b')
    x = S.instruction
    q = V('q')
    ok = allgood(S, T, T.n)
    return [OFS(0) == 0, FA([t], Imp(within(t, 0, T.n), OFS(t + 1) == OFS(t) + T[t][1] - T[t][0]), OFS(t)),
            FA([t, b], Imp(And(within(t, 0, T.n), ok, b >= T[t][0], b < T[t][1]), And(
                RG(b) == t, PL(b) == OFS(t) + b - T[t][0], BT(OFS(t) + b - T[t][0]) == b)), [OFS(t), PL(b)], [OFS(t), RG(b)]),
            FA([t, q], Imp(And(within(t, 0, T.n), ok, q >= OFS(t), q < OFS(t) + T[t][1] - T[t][0]), And(BT(q) == q - OFS(t) + T[t][0], PL(BT(q)) == q)), [OFS(t), BT(q)]),
            FA([b], Or(And(RG(b) == -1, PL(b) == -1), And(within(RG(b), 0, T.n), b >= T[RG(b)][0], b < T[RG(b)][1], PL(b) == OFS(RG(b)) + b - T[RG(b)][0],
                                                         BT(PL(b)) == b)), PL(b)),
            PICK(0) == 0, FA([q], Imp(q >= 0, PICK(q + 1) == PICK(q) + z3.If(wanted(S.instruction)(q), pow2(q), 0)), PICK(q))] + digit_defs()


def wanted(x):
    return lambda q: z3.Xor(bitf(WANT, BT(q)), bitf(x, BT(q)))


def allgood(S, T, n):
    return all_(0, n, lambda t: Not(bad(S, T, t)))


def tlemmas(S):
    o = S.o if hasattr(S, 'o') else S
    T = o.tuples
    t = V('t')

    def mono(k):
        return Imp(allgood(S, T, T.n), FA([t], Imp(within(t, 0, k + 1), And(OFS(t) <= OFS(k), OFS(t) >= 0)), OFS(t)))

    def owner(k):
        q = V('q')
        s = V('s')
        return Imp(allgood(S, T, T.n), FA([q], Imp(within(q, 0, OFS(k)), And(PL(BT(q)) == q)), BT(q)))
    return [Ind('offsets grow', 0, T.n, mono, pat=OFS), Ind('every digit has its bit', 0, T.n, owner, pat=OFS)] + \
        digit_lemmas(z3.If(OFS(T.n) >= 0, OFS(T.n), 0), wanted(o.instruction))


def tpre(S):
    T = S.tuples
    s, t, b = V('s'), V('t'), V('b')
    return [FA([s, t, b], Imp(And(within(s, 0, T.n), within(t, 0, T.n), b >= T[s][0], b < T[s][1], b >= T[t][0], b < T[t][1]), s == t))]


def tpost(S):
    T, x, r = S.o.tuples, S.o.instruction, S.r
    j, k, b = V('j'), V('k'), V('b')
    size = OFS(T.n)
    ok = Imp(FA([b], Imp(within(b, 0, 32), Or(PL(b) >= 0, bitf(WANT, b) == bitf(x, b)))), And(
        within(PICK(size), 0, r.n), FA([b], Imp(within(b, 0, 32), bitf(r[PICK(size)], b) == bitf(WANT, b)))))
    return [('two to the number of bits results', r.n == pow2(size)), ('the original comes first', r[0] == x),
            ('only bits of the ranges are changed', FA([j, b], Imp(And(within(j, 0, r.n), within(b, 0, 32), all_(0, T.n, lambda t: Or(b < T[t][0], b >= T[t][1]))),
                                                                 bitf(r[j], b) == bitf(x, b)))),
            ('no result appears twice', FA([j, k], Imp(And(within(j, 0, r.n), within(k, 0, r.n), j != k), r[j] != r[k]))),
            ('every combination appears', ok)]


def thints(S):
    r, j, k = S.r, V('j'), V('k')
    b = BT(DQ(j, k))
    return [('two results differ in a bit', FA([j, k], Imp(And(within(j, 0, r.n), within(k, 0, r.n), j != k), bitf(r[j], b) != bitf(r[k], b)), [r[j], r[k]]))]


def filled(x, r, n):
    j = V('j')
    b = V('b')
    return [('the original is first', r[0] == x),
            ('each filled place has the flips of its number', FA([j, b], Imp(And(within(j, 0, n), within(b, 0, 32)), bitf(r[j], b) == z3.Xor(bitf(x, b), And(PL(b) >= 0, SUB(j, PL(b))))), bitf(r[j], b)))]


def inv0(L):
    T = L.o.tuples
    return [('bits so far', L.size == OFS(L.idx)), ('the ranges so far are legal', allgood(L, T, L.idx)), ('not negative', L.size >= 0)]


def outer(L):
    T, r = L.o.tuples, L.result
    return [('places filled', L.kk == pow2(OFS(L.idx))), ('places', r.n == pow2(OFS(T.n)))] + filled(L.o.instruction, r, L.kk)


def mid(L):
    T, r = L.o.tuples, L.result
    m = OFS(L.up.idx) + L.idx
    return [('places filled', L.kk == pow2(m)), ('places', r.n == pow2(OFS(T.n)))] + filled(L.o.instruction, r, L.kk)


def inner(L):
    T, r = L.o.tuples, L.result
    return [('places', r.n == pow2(OFS(T.n)))] + filled(L.o.instruction, r, L.kk + L.idx)


def istep(L):
    q, b = V('q'), V('b')
    m = OFS(L.up.up.idx) + L.up.idx
    i = L.up.idx + L.o.tuples[L.up.up.idx][0]
    return [('the place gets the number with one more digit', FA([q], SUB(L.kk + L.idx, q) == Or(q == m, SUB(L.idx, q)), SUB(L.kk + L.idx, q))),
            ('the digit of this bit', And(PL(i) == m, BT(m) == i)),
            ('belongs to no other bit', FA([b], Imp(PL(b) == m, b == i), PL(b)))]


def iend(L):
    b = V('b')
    return [('the place just filled', FA([b], Imp(within(b, 0, 32), bitf(L.result[L.kk + L.idx0], b) == z3.Xor(bitf(L.o.instruction, b), And(PL(b) >= 0, SUB(L.kk + L.idx0, PL(b)))))))]


CABT = Contract(C + 'corrupt_all_bits_tuples', {'tuples': TUP, 'instruction': Int}, ListOf(Int), name='corrupt_all_bits_tuples',
                pre=tpre, defs=tdefs, lemmas=tlemmas, post=tpost, hints=thints,
                raises={'RuntimeError': lambda S: ex_(0, S.o.tuples.n, lambda t: bad(S, S.o.tuples, t))},
                loops=[Loop(inv=inv0), Loop(inv=outer), Loop(inv=mid), Loop(inv=inner, pre=istep, end=iend)])


# ------------------------------------------------------------------ one range, with the duplicates looked up
def odefs(S):
    lo, hi = S.lo, S.hi
    b, q = V('b'), V('q')
    legal = And(lo >= 0, hi <= 32)
    return [FA([b], PL(b) == z3.If(And(legal, b >= lo, b < hi), b - lo, -1), PL(b)),
            FA([q], BT(q) == q + lo, BT(q)),
            PICK(0) == 0, FA([q], Imp(q >= 0, PICK(q + 1) == PICK(q) + z3.If(wanted(S.instruction)(q), pow2(q), 0)), PICK(q))] + digit_defs()


def width(S):
    return z3.If(S.hi > S.lo, S.hi - S.lo, 0)


def olemmas(S):
    o = S.o if hasattr(S, 'o') else S
    return digit_lemmas(width(o), wanted(o.instruction))


def opost(S):
    x, r = S.o.instruction, S.r
    j, k, b = V('j'), V('k'), V('b')
    size = width(S.o)
    ok = Imp(FA([b], Imp(within(b, 0, 32), Or(PL(b) >= 0, bitf(WANT, b) == bitf(x, b)))), And(
        within(PICK(size), 0, r.n), FA([b], Imp(within(b, 0, 32), bitf(r[PICK(size)], b) == bitf(WANT, b)))))
    return [('two to the number of bits results', r.n == pow2(size)), ('the original comes first', r[0] == x),
            ('only bits of the range are changed', FA([j, b], Imp(And(within(j, 0, r.n), within(b, 0, 32), Or(b < S.o.lo, b >= S.o.hi)), bitf(r[j], b) == bitf(x, b)))),
            ('no result appears twice', FA([j, k], Imp(And(within(j, 0, r.n), within(k, 0, r.n), j != k), r[j] != r[k]))),
            ('every combination appears', ok)]


def oout(L):
    return [('results', L.result.n == pow2(L.idx)), ('the range is legal so far', Or(L.idx == 0, And(L.o.lo >= 0, L.o.lo + L.idx <= 32)))] + \
        filled2(L.o, L.result, L.result.n)


def filled2(o, r, n):
    j, b = V('j'), V('b')
    return [('the original is first', r[0] == o.instruction),
            ('each result has the flips of its number', FA([j, b], Imp(And(within(j, 0, n), within(b, 0, 32)), bitf(r[j], b) == z3.Xor(
                bitf(o.instruction, b), And(b >= o.lo, b < o.hi, SUB(j, b - o.lo)))), bitf(r[j], b)))]


def oin(L):
    return [('results', L.result.n == L.k + L.idx)] + filled2(L.o, L.result, L.result.n)


def ostep(L):
    q, b, j = V('q'), V('b'), V('j')
    m = L.up.idx
    n = L.k + L.idx
    bb = L.o.lo + DQ(n, j)
    return [('the place gets the number with one more digit', FA([q], SUB(n, q) == Or(q == m, SUB(L.idx, q)), SUB(n, q))),
            ('no earlier result is the same', FA([j], Imp(within(j, 0, n), And(
                SUB(n, DQ(n, j)) != SUB(j, DQ(n, j)), DQ(n, j) >= 0, DQ(n, j) <= m,
                bitf(L.result[j], bb) == z3.Xor(bitf(L.o.instruction, bb), SUB(j, DQ(n, j))))), L.result[j]))]


CAB = Contract(C + 'corrupt_all_bits', {'lo': Int, 'hi': Int, 'instruction': Int}, ListOf(Int), name='corrupt_all_bits',
               defs=odefs, lemmas=olemmas, post=opost, hints=thints,
               pre=lambda S: [Or(S.hi <= S.lo, And(S.lo >= 0, S.hi <= 32))],
               loops=[Loop(inv=oout), Loop(inv=oin, pre=ostep)])

# ------------------------------------------------------------------ flips of randomly chosen bits
TRIG = z3.Function('sum_without_carry', I1, I1, z3.BoolSort())
WIT = z3.Function('common_bit', I1, I1, I1)


def rdefs(S):
    a, s, k, q = V('a'), V('s'), V('k'), V('q')
    c = s - a
    w = WIT(a, s)
    # adding words without a common bit: no carry (a fact about binary digits, proved in bit-vectors by pyvc/bitlemmas.py)
    add = Imp(And(a >= 0, c >= 0, a < 2 ** 32, c < 2 ** 32, Not(And(w >= 0, w < 32, bitf(a, w), bitf(c, w)))),
              And(s < 2 ** 32, FA([k], Imp(within(k, 0, 32), bitf(s, k) == Or(bitf(a, k), bitf(c, k))), bitf(s, k))))
    S.ctx.eng.use_lemma('bitops:add_without_carry')
    S.ctx.eng.use_lemma('bitops:digits')
    return [FA([a, s], And(TRIG(a, s), add), TRIG(a, s)), pow2(32) == 2 ** 32, FA([k], Imp(within(k, 0, 33), pow2(k) <= pow2(32)), pow2(k)),
            PICK(0) == 0, FA([q], Imp(q >= 0, PICK(q + 1) == PICK(q) + z3.If(CHOICE(q), pow2(q), 0)), PICK(q))] + digit_defs(bitf)


CHOICE = z3.Function('chosen', I1, z3.BoolSort())


def rlemmas(S):
    o = S.o if hasattr(S, 'o') else S
    return digit_lemmas(o.amount, lambda q: CHOICE(q), bitf)


def chosen(sel, i, b, n):
    return ex_(0, n, lambda q: And(sel(q) == b, bitf(i, q)))


def distinct(sel, n, lo, hi):
    p, q = V('p'), V('q')
    return [('chosen bits lie in the range', FA([q], Imp(within(q, 0, n), And(sel(q) >= lo, sel(q) <= hi)), sel(q))),
            ('chosen bits are distinct', FA([p, q], Imp(And(within(p, 0, n), within(q, 0, n), p != q), sel(p) != sel(q)), [sel(p), sel(q)]))]


def rres(x, r, sel, n, amount):
    j, b = V('j'), V('b')
    return [('the original is first', r[0] == x),
            ('each result flips the bits of its number', FA([j, b], Imp(And(within(j, 0, n), within(b, 0, 32)), bitf(r[j], b) == z3.Xor(bitf(x, b), chosen(sel, j, b, amount))), bitf(r[j], b)))]


def rinv1(L):
    return [('as many as wanted at most', And(L.bits.n <= L.o.amount, L.result.n == 1, L.result[0] == L.o.instruction))] + distinct(lambda q: L.bits[q], L.bits.n, L.o.lo, L.o.hi)


def rinv2(L):
    q = V('q')
    g = L.g['sel']
    return [('the chosen bits', And(g.n == L.bits.n, FA([q], g.get(q) == L.bits[q], L.bits[q], g.get(q)))), ('one result per number', L.result.n == L.idx + 1)] + rres(L.o.instruction, L.result, lambda q: L.bits[q], L.result.n, L.o.amount)


def rinv3(L):
    b = V('b')
    return [('a word', And(L.noise >= 0, L.noise < 2 ** 32)),
            ('the bits chosen by the number so far', FA([b], Imp(within(b, 0, 32), bitf(L.noise, b) == chosen(lambda q: L.bits[q], L.i, b, L.idx)), bitf(L.noise, b)))]


def rafter(L):
    j, q = V('j'), V('q')
    d = DQ(L.i, j)
    at = L.bits[d]
    return [('each chosen bit shows its digit', FA([q], Imp(within(q, 0, L.o.amount), bitf(L.noise, L.bits[q]) == bitf(L.i, q)), L.bits[q])),
            ('no earlier result is the same', FA([j], Imp(within(j, 0, L.result.n), And(
                bitf(L.i, d) != bitf(j, d), within(d, 0, L.o.amount), bitf(L.noise, at) == bitf(L.i, d), within(at, 0, 32),
                bitf(L.result[j], at) == z3.Xor(bitf(L.o.instruction, at), bitf(j, d)))), L.result[j]))]


def rpost(S):
    x, r, n = S.o.instruction, S.r, S.o.amount
    g = S.ctx.ghosts['sel']
    sel = lambda q: g.get(S.th.lift(q))
    j, k, b, q = V('j'), V('k'), V('b'), V('q')
    i = PICK(n)
    return distinct(sel, n, S.o.lo, S.o.hi) + [('as many results as subsets', And(r.n == pow2(n), g.n == n))] + rres(x, r, sel, r.n, n) + [
        ('bits outside the range never change', FA([j, b], Imp(And(within(j, 0, r.n), within(b, 0, 32), Or(b < S.o.lo, b > S.o.hi)), bitf(r[j], b) == bitf(x, b)))),
        ('each once', FA([j, k], Imp(And(within(j, 0, r.n), within(k, 0, r.n), j != k), r[j] != r[k]))),
        ('every subset appears', And(within(i, 0, r.n), FA([q], Imp(within(q, 0, n), bitf(r[i], sel(q)) == z3.Xor(bitf(x, sel(q)), CHOICE(q))))))]


def outside(S, lo, hi):
    x, r = S.o.instruction, S.r
    j, k, b = V('j'), V('k'), V('b')
    return [('the original comes first', And(r.n >= 1, r[0] == x)), ('as many results as subsets', r.n == pow2(S.o.amount)),
            ('bits outside the range never change', FA([j, b], Imp(And(within(j, 0, r.n), within(b, 0, 32), Or(b < lo, b > hi)), bitf(r[j], b) == bitf(x, b)), bitf(r[j], b))),
            ('each once', FA([j, k], Imp(And(within(j, 0, r.n), within(k, 0, r.n), j != k), r[j] != r[k]), [r[j], r[k]]))]


def rhints(S):
    g = S.ctx.ghosts['sel']
    r, j, k = S.r, V('j'), V('k')
    b = g.get(DQ(j, k))
    d = DQ(j, k)
    x = S.o.instruction
    q = V('q')
    sel = lambda q: g.get(S.th.lift(q))
    return distinct(sel, S.o.amount, S.o.lo, S.o.hi) + [('two numbers differ in a digit', FA([j, k], Imp(And(within(j, 0, r.n), within(k, 0, r.n), j != k), And(
                within(d, 0, S.o.amount), bitf(j, d) != bitf(k, d))), [r[j], r[k]])),
            ('each chosen bit shows its digit', FA([j, q], Imp(And(within(j, 0, r.n), within(q, 0, S.o.amount)), bitf(r[j], sel(q)) == z3.Xor(bitf(x, sel(q)), bitf(j, q))), [r[j], sel(q)])),
            ('two results differ in a bit', FA([j, k], Imp(And(within(j, 0, r.n), within(k, 0, r.n), j != k), bitf(r[j], b) != bitf(r[k], b)), [r[j], r[k]]))]


CB = Contract(C + 'corrupt_bits', {'hi': Int, 'lo': Int, 'amount': Int, 'instruction': Int}, ListOf(Int), name='corrupt_bits',
              pre=lambda S: [S.lo >= 0, S.lo <= S.hi, S.hi <= 31, S.amount >= 0, S.amount <= S.hi - S.lo + 1],
              defs=rdefs, lemmas=rlemmas, post=rpost, hints=rhints, callpost=lambda S: outside(S, S.o.lo, S.o.hi),
              loops=[Loop(inv=rinv1, types={'bits': ListOf(Int)}), Loop(inv=rinv2, ghosts={'sel': (ListOf(Int), lambda L: raw(L.bits.v), lambda L, L2: L.g['sel'])}),
                     Loop(inv=rinv3, after=rafter, end=lambda L: [('the sum has no carry', TRIG(L.start.noise, L.noise))])])


def wrap_(name, at, lo, hi):
    return Contract(C + name, {'amount': Int, at: Int}, ListOf(Int), name=name, pre=lambda S: [S.amount >= 0, S.amount <= hi - lo + 1],
                    post=lambda S: outside(W2(S, at), lo, hi))


class W2:
    def __init__(self, S, at):
        self.r, self.o = S.r, self
        self.amount, self.instruction = S.o.amount, getattr(S.o, at)


RANDOM = [CB, wrap_('corrupt_conditional', 'instruction', 28, 31), wrap_('corrupt_registers', 'encoding', 0, 10), wrap_('corrupt_opcode', 'encoding', 20, 27)]
ALL = [CABT, CAB] + RANDOM
