"""Contracts of semantic_codec/interleaver/interleaver2d.py: interleave and deinterleave (C04, C05).

The data is a sequence of units of word_size bits.  Unit u lies in word UW(u) at bit UB(u) (any stream of units has the
same layout, so the r-th unit of a packet lies in its word UW(r) at bit UB(r)); it travels in the packet that comes at
place J(u) of the order, as the T(u)-th unit of that packet.
"""
from .lib import *
from . import bitqueue as bq

M = 'semantic_codec.interleaver.interleaver2d:'
I1 = z3.IntSort()
UW, UB, POS, J, T, R = (z3.Function('il_' + n, I1, I1) for n in ('UW', 'UB', 'POS', 'J', 'T', 'R'))
BQ = bq.QT


def layout(ws, P):
    """where the units are: recursive definitions"""
    u = V('u')
    nb = UB(u) + ws
    return [UW(0) == 0, UB(0) == 0, POS(0) == 0, J(0) == 0, T(0) == 0, R(0) == 0,
            ('layout', FA([u], Imp(u >= 0, And(UB(u + 1) == z3.If(nb > 31, nb - 32, nb), UW(u + 1) == z3.If(nb > 31, UW(u) + 1, UW(u)))), UB(u), UW(u))),
            FA([u], Imp(u >= 0, POS(u + 1) == POS(u) + ws), POS(u)), FA([u], Imp(u >= 0, R(u + 1) == R(u) + P), R(u)),
            FA([u], Imp(u >= 0, And(J(u + 1) == z3.If(J(u) == P - 1, 0, J(u) + 1), T(u + 1) == z3.If(J(u) == P - 1, T(u) + 1, T(u)))), J(u), T(u))]


def unit_sizes(ws):
    return Or(*[ws == k for k in (1, 2, 4, 8, 16, 32)])


def layout_lemmas(ws, P):
    def fit(u):
        return And(u >= 0, UB(u) >= 0, UB(u) + ws <= 32, UW(u) >= 0, *[Imp(ws == k, UB(u) % k == 0) for k in (2, 4, 8, 16, 32)])

    def pos(u):
        return POS(u) == 32 * UW(u) + UB(u)

    def place(u):
        return And(J(u) >= 0, J(u) < P, T(u) >= 0, u == J(u) + R(T(u)))

    def mono(F):
        def P_(u):
            v = V('v')
            return FA([v], Imp(And(v >= 0, v <= u), F(v) <= F(u)), F(v))
        return P_

    def smono(F):
        def P_(u):
            v = V('v')
            return FA([v], Imp(And(v >= 0, v < u), F(v) < F(u)), [F(v), F(u)])
        return P_
    return [Ind('a unit never straddles two words', 0, None, fit, pat=(UB, UW)), Ind('the units lie one after the other', 0, None, pos, pat=(POS, UW, UB)),
            Ind('each unit has its place in a round', 0, None, place, pat=(J, T)),
            Ind('a later round has a later first unit', 0, None, smono(R)), Ind('a later unit has a later position', 0, None, smono(POS))]


# ------------------------------------------------------------------------------------------ interleave
def distinct_order(o):
    i, j = V('i'), V('j')
    return FA([i, j], Imp(And(within(i, 0, o.n), within(j, 0, o.n), o[i] == o[j]), i == j), [o[i], o[j]])


def words(d):
    return all_(0, d.n, lambda i: And(d[i] >= 0, d[i] < 2 ** 32), pat=lambda i: d[i])


def q_at(pk, o, lo, hi, c, ws):
    """the queues of the packets at lo..hi-1 of the order are well-formed and hold c units each, none of them taken out"""
    j, i, b, z = V('j'), V('i'), V('b'), V('z')
    q, jin = pk[o[j]], within(j, lo, hi)
    w = q._bytes
    return [('as long as they should be', FA([j], Imp(jin, And(q.word_size == ws, q._dq_bit == 0, q._eq_word == UW(c), q._eq_bit == UB(c), w.n == UW(c) + 1)), o[j])),
            ('words of 32 bits', FA([j, i], Imp(And(jin, within(i, 0, w.n)), And(w[i] >= 0, w[i] < 2 ** 32)), w[i])),
            ('only zeros behind the end', FA([j, b], Imp(And(jin, b >= UB(c), b < 32), Not(bitf(w[UW(c)], b))), bitf(w[UW(c)], b)))]


def named(name, parts):
    return [('%s: %s' % (name, n), e) for n, e in parts]


def ipre(S):
    return [('there is a packet', S.interleave_order.n >= 1), ('packets are numbered differently', distinct_order(S.interleave_order)), unit_sizes(S.word_size), words(S.data)]


def carried(pk, order, data, u0, ws):
    """every unit below u0 is in its packet"""
    u, x = V('u'), V('x')
    return FA([u, x], Imp(And(u >= 0, u < u0, UB(u) <= x, x < UB(u) + ws),
                          bitf(pk[order[J(u)]]._bytes[UW(T(u))], x - UB(u) + UB(T(u))) == bitf(data[UW(u)], x)), [J(u), bitf(data[UW(u)], x)])


def inv(L):
    pk, o, d, u, ws = L.packets, L.interleave_order, L.data, L.g['u'], L.word_size
    j, k = V('j'), V('k')
    return [('the loop stands at unit u', And(u >= 0, L.k == J(u), L.arr_index == UW(u), L.bit_index == UB(u), L.arr_index <= d.n, Or(L.arr_index < d.n, L.bit_index == 0))),
            ('one queue per packet', FA([j], Imp(within(j, 0, o.n), pk.has(o[j])), o[j])),
            *named('the packets served in this round', q_at(pk, o, 0, L.k, T(u) + 1, ws)),
            *named('the packets not yet served in this round', q_at(pk, o, L.k, o.n, T(u), ws)),
            ('every unit so far is in its packet', carried(pk, o, d, u, ws))]


FIT, PLACE, NEXT, ORDER = 'a unit never straddles two words', 'each unit has its place in a round', 'a later round has a later first unit', 'a later unit has a later position'


def end(L):
    o, d, u, ws = L.interleave_order, L.data, L.prev.g['u'], L.word_size
    new, old = L.packets, L.start.packets
    v, x = V('v'), V('x')
    vin = And(v >= 0, v < u)
    y = x - UB(v) + UB(T(v))
    xin = And(UB(v) <= x, x < UB(v) + ws)
    trig = bitf(d[UW(v)], x)
    b = V('b')
    tail = lambda pk, c: FA([b], Imp(And(b >= UB(c), b < 32), Not(bitf(pk[o[J(u)]]._bytes[UW(c)], b))), bitf(pk[o[J(u)]]._bytes[UW(c)], b))
    NOT_YET = 'the packets not yet served in this round: '
    return [('only zeros behind the end of the packet before', tail(old, T(u)), Only(NOT_YET + 'only zeros behind the end', 'the loop stands at unit u', PLACE)),
            ('only zeros behind the end of the packet now', tail(new, T(u) + 1), Only('only zeros behind the end of the packet before', 'BitQueue.enqueue: behind the end there are only zeros when that was so before', 'layout', FIT, PLACE, 'the packets not yet served in this round: as long as they should be')),
            ('an earlier unit of the same packet went in a round before', FA([v], Imp(And(vin, J(v) == J(u)), And(T(v) >= 0, T(v) < T(u))), J(v)), Only(PLACE, NEXT)),
            ('and lies before in the packet', FA([v], Imp(And(vin, J(v) == J(u)), POS(T(v) + 1) <= POS(T(u))), J(v))),
            ('the units this packet had are kept', FA([v, x], Imp(And(vin, J(v) == J(u), xin), bitf(new[o[J(v)]]._bytes[UW(T(v))], y) == bitf(old[o[J(v)]]._bytes[UW(T(v))], y)), [J(v), trig])),
            ('the units of the other packets are kept', FA([v, x], Imp(And(vin, J(v) != J(u), xin), bitf(new[o[J(v)]]._bytes[UW(T(v))], y) == bitf(old[o[J(v)]]._bytes[UW(T(v))], y)), [J(v), trig])),
            ('the unit put in', FA([x], Imp(And(UB(u) <= x, x < UB(u) + ws), bitf(new[o[J(u)]]._bytes[UW(T(u))], x - UB(u) + UB(T(u))) == bitf(d[UW(u)], x)), bitf(d[UW(u)], x))),
            ('every unit is in its packet', carried(new, o, d, u + 1, ws), Only('the units this packet had are kept', 'the units of the other packets are kept', 'the unit put in', 'every unit so far is in its packet'))]


CN, RCV, DW = z3.Function('il_CN', I1, I1), z3.Function('il_received', I1, z3.BoolSort()), z3.Function('il_DW', I1, I1)
NW, U = z3.Int('il_words'), z3.Int('il_units')


def units_of(j, u):
    """units of the packet at place j of the order when u units were sent"""
    return CN(j) == z3.If(j < J(u), T(u) + 1, T(u))


def sent(queue, o, ws, dword, nw, units, rc):
    """what deinterleave may expect of the packets that arrived"""
    j, i, b, u, x = V('j'), V('i'), V('b'), V('u'), V('x')
    q = queue(o[j])
    w = q._bytes
    jin = And(within(j, 0, o.n), rc(j))
    return [('the data has whole words', And(units >= 0, nw >= 0, UW(units) == nw, UB(units) == 0)),
            ('sent: as long as they should be', FA([j], Imp(jin, And(q.word_size == ws, q._dq_bit == 0, q._eq_word == UW(CN(j)), q._eq_bit == UB(CN(j)), w.n == UW(CN(j)) + 1)), CN(j), o[j])),
            ('sent: words of 32 bits', FA([j, i], Imp(And(jin, within(i, 0, w.n)), And(w[i] >= 0, w[i] < 2 ** 32)), w[i])),
            ('sent: only zeros behind the end', FA([j, b], Imp(And(jin, b >= UB(CN(j)), b < 32), Not(bitf(w[UW(CN(j))], b))), bitf(w[UW(CN(j))], b))),
            ('sent: every unit', FA([u, x], Imp(And(u >= 0, u < units, rc(J(u)), UB(u) <= x, x < UB(u) + ws),
                                               bitf(queue(o[J(u)])._bytes[UW(T(u))], x - UB(u) + UB(T(u))) == bitf(dword(UW(u)), x)), [J(u), bitf(dword(UW(u)), x)]))]


def ipost(S):
    pk, o, d, ws = S.r, S.o.interleave_order, S.o.data, S.o.word_size
    u = S.ctx.ghosts['u']
    j = V('j')
    S.ctx.assume(FA([j], units_of(j, u), CN(j)))      # the definition of CN
    return [('one queue per packet', FA([j], Imp(within(j, 0, o.n), pk.has(o[j])), o[j])), *sent(lambda k: pk[k], o, ws, lambda i: d[i], d.n, u, lambda j: z3.BoolVal(True))]


INTER = Contract(M + 'interleave', {'data': ListOf(Int), 'interleave_order': ListOf(Int), 'word_size': Int}, MapOf(Int, BQ), name='interleave', pre=ipre,
                 defs=lambda S: zero_bits(S) + layout(S.word_size, S.interleave_order.n), lemmas=lambda S: layout_lemmas(S.word_size, S.interleave_order.n), post=ipost,
                 loops=[Loop(inv=inv, dec=lambda L: 32 * L.data.n - POS(L.g['u']), end=end, types={'packets': MapOf(Int, BQ)}, ghosts={'u': (Int, lambda L: z3.IntVal(0), lambda L, L2: L.g['u'] + 1)})])
# ------------------------------------------------------------------------------------------ deinterleave
LC = z3.Function('il_LC', I1, I1)


def ddefs(S):
    o, p = S.interleave_order, S.packets
    j, u = V('j'), V('u')
    return zero_bits(S) + layout(S.word_size, o.n) + [
        FA([j], Imp(within(j, 0, o.n), And(RCV(j) == And(p.has(o[j]), Not(p[o[j]].isnone)), units_of(j, U))), RCV(j), CN(j), o[j]),
        ALLR == everything(o), LC(0) == 0, FA([u], Imp(u >= 0, LC(u + 1) == z3.If(RCV(J(u)), LC(u), LC(u) + 1)), LC(u))]


def dpre(S):
    o, p = S.interleave_order, S.packets
    return [('there is a packet', o.n >= 1), ('packets are numbered differently', distinct_order(o)), unit_sizes(S.word_size),
            *sent(lambda k: p[k].value, o, S.word_size, DW, NW, U, RCV)]


def left(L, lo, hi, c):
    """the packets at lo..hi-1 of the order have given c units"""
    o, p, p0, ws = L.interleave_order, L.packets, L.o.packets, L.word_size
    j, i = V('j'), V('i')
    q, q0 = p[o[j]].value, p0[o[j]].value
    jin = And(within(j, lo, hi), RCV(j))
    return [('what is left', FA([j], Imp(jin, And(q.word_size == ws, q._dq_bit == UB(c), q._eq_word == UW(CN(j)) - UW(c), q._eq_bit == UB(CN(j)), q._bytes.n == UW(CN(j)) + 1 - UW(c))), RCV(j), o[j])),
            ('the words left', FA([j, i], Imp(And(jin, within(i, 0, q._bytes.n)), And(q._bytes[i] == q0._bytes[i + UW(c)], q._bytes[i] >= 0, q._bytes[i] < 2 ** 32)), q._bytes[i]))]


def out_inv(L, v):
    d, ws, er = L.data, L.word_size, L.errors
    u, x, i = V('u'), V('x'), V('i')
    w = d._bytes
    o, p = L.interleave_order, L.packets
    j = V('j')
    return [('the packets that arrived are the same', FA([j], Imp(within(j, 0, o.n), RCV(j) == And(p.has(o[j]), Not(p[o[j]].isnone))), RCV(j), o[j])),
            ('the output stands behind unit v', And(d.word_size == ws, d._dq_bit == 0, d._eq_word == UW(v), d._eq_bit == UB(v), w.n == UW(v) + 1)),
            ('the output has words of 32 bits', FA([i], Imp(within(i, 0, w.n), And(w[i] >= 0, w[i] < 2 ** 32)), w[i])),
            ('the output has only zeros behind its end', FA([x], Imp(And(x >= UB(v), x < 32), Not(bitf(w[UW(v)], x))), bitf(w[UW(v)], x))),
            ('received units are at their places, lost ones are zero', returned(w, v, ws)),
            ('when every packet arrived, the words of the data come first', whole(w, v)),
            ('as many errors as lost units', er.n == LC(v)),
            ('the lost units are reported', reported(er, v))]


def whole(w, v):
    i, x = V('i'), V('x')
    return FA([i, x], Imp(And(ALLR, within(i, 0, NW), within(x, 0, 32), 32 * i + x < POS(v)), bitf(w[i], x) == bitf(DW(i), x)), bitf(w[i], x))


def returned(w, v, ws):
    u, x = V('u'), V('x')
    return FA([u, x], Imp(And(u >= 0, u < v, UB(u) <= x, x < UB(u) + ws), bitf(w[UW(u)], x) == And(RCV(J(u)), u < U, bitf(DW(UW(u)), x))), [J(u), bitf(w[UW(u)], x)])


def reported(er, v):
    u = V('u')
    return FA([u], Imp(And(u >= 0, u < v, Not(RCV(J(u)))), And(LC(u) < LC(v), er[LC(u)][0] == UW(u), er[LC(u)][1] == UB(u))), LC(u))


def outer(L):
    t, v = L.g['t'], L.g['v']
    j = V('j')
    o = L.interleave_order
    return [('whole rounds', And(t >= 0, v >= 0, v == R(t), J(v) == 0, T(v) == t)), ('some packet arrived', And(L.received.n > 0, L.received[0].value.word_size == L.word_size)),
            ('some packet had a unit for the last round', Or(t == 0, EX([j], And(within(j, 0, o.n), RCV(j), CN(j) >= t)))),
            ('every packet had one for the round before', FA([j], Imp(And(within(j, 0, o.n), RCV(j)), CN(j) + 1 >= t), RCV(j))),
            *left(L, 0, o.n, t), *out_inv(L, v)]


def inner(L):
    t, v, k, o = L.up.g['t'], L.g['w'], L.idx, L.interleave_order
    j = V('j')
    return [('inside the round', And(v >= 0, v == k + R(t), Imp(k < o.n, And(J(v) == k, T(v) == t)), Imp(k == o.n, And(J(v) == 0, T(v) == t + 1)))),
            ('every packet has a unit or just ended', FA([j], Imp(And(within(j, 0, o.n), RCV(j)), CN(j) >= t), RCV(j))),
            *named('served in this round', left(L, 0, k, t + 1)), *named('not yet served in this round', left(L, k, o.n, t)), *out_inv(L, v)]


def iend(L):
    t, v, o, ws = L.up.g['t'], L.prev.g['w'], L.interleave_order, L.word_size
    new, old, p0 = L.data._bytes, L.start.data._bytes, L.o.packets[o[J(v)]].value._bytes
    x, u = V('x'), V('u')
    qn = L.packets[o[J(v)]].value._bytes
    xin = And(UB(v) <= x, x < UB(v) + ws)
    uin = And(u >= 0, u < v, UB(u) <= x, x < UB(u) + ws)
    b = V('b')
    tail = lambda w, c: FA([b], Imp(And(b >= UB(c), b < 32), Not(bitf(w[UW(c)], b))), bitf(w[UW(c)], b))
    return [('only zeros behind the end of the output before', tail(old, v), Only('the output has only zeros behind its end')),
            ('only zeros behind the end of the output now', tail(new, v + 1), Only('only zeros behind the end of the output before', 'BitQueue.enqueue: behind the end there are only zeros when that was so before', 'layout', FIT)),
            ('the packet of this unit is the one served', And(J(v) == L.idx0, T(v) == t), Only('inside the round')),
            ('the packet served lost its first words', Imp(RCV(J(v)), And(qn.n == UW(CN(J(v))) + 1 - UW(t + 1), FA([u], Imp(within(u, 0, qn.n), qn[u] == p0[u + UW(t + 1)]), qn[u]))), Only('not yet served in this round: what is left', 'not yet served in this round: the words left', 'layout', FIT, 'BitQueue.dequeue: the words still to be read are kept', 'inside the round', 'the packet of this unit is the one served', 'the packets that arrived are the same')),
            ('a unit behind the data was not sent', Imp(And(RCV(J(v)), v >= U), CN(J(v)) == t)),
            ('a unit of the data was sent', Imp(And(RCV(J(v)), v < U), CN(J(v)) > t)),
            ('the unit put in', FA([x], Imp(xin, bitf(new[UW(v)], x) == And(RCV(J(v)), bitf(p0[UW(t)], x - UB(v) + UB(t)))), bitf(new[UW(v)], x))),
            ('the errors reported before are kept', FA([u], Imp(And(u >= 0, u < v, Not(RCV(J(u)))), And(LC(u) < LC(v + 1), L.errors[LC(u)][0] == UW(u), L.errors[LC(u)][1] == UB(u))), LC(u))),
            ('this unit is at its place', FA([x], Imp(xin, bitf(new[UW(v)], x) == And(RCV(J(v)), v < U, bitf(DW(UW(v)), x))), bitf(new[UW(v)], x))),
            ('the earlier units lie before', FA([u], Imp(And(u >= 0, u < v), 32 * UW(u) + UB(u) + ws <= 32 * UW(v) + UB(v)), UW(u))),
            ('the earlier units are kept', FA([u, x], Imp(uin, bitf(new[UW(u)], x) == bitf(old[UW(u)], x)), [J(u), bitf(new[UW(u)], x)])),
            ('all units are at their places', returned(new, v + 1, ws), Only('this unit is at its place', 'the earlier units are kept', 'received units are at their places, lost ones are zero'))]


def dpost(S):
    w, er = S.r[0], S.r[1]
    t, v, ws, o = S.ctx.ghosts['t'], S.ctx.ghosts['v'], S.o.word_size, S.o.interleave_order
    j, i, x = V('j'), V('i'), V('x')
    return [('whole rounds', And(t >= 0, v == R(t))),
            ('no received packet has more units', FA([j], Imp(And(within(j, 0, o.n), RCV(j)), CN(j) <= t), RCV(j))),
            ('some received packet has a unit for the last round', Or(t == 0, EX([j], And(within(j, 0, o.n), RCV(j), CN(j) == t)))),
            ('received units are at their places, lost ones are zero', returned(w, v, ws)),
            ('as many errors as lost units', er.n == LC(v)), ('the lost units are reported in order', reported(er, v)),
            ('the output ends there', w.n == UW(v) + 1),
            ('with every packet, no unit is reported lost', Imp(ALLR, er.n == 0)),
            ('with every packet, the words of the data come first', FA([i, x], Imp(And(ALLR, within(i, 0, NW), within(x, 0, 32)), bitf(w[i], x) == bitf(DW(i), x)), bitf(w[i], x)))]


def everything(o):
    j = V('j')
    return FA([j], Imp(within(j, 0, o.n), RCV(j)), RCV(j))


ALLR = z3.Bool('il_all_received')


def dlemmas(S):
    o, ws = S.interleave_order, S.word_size

    def sent_when(u):
        return And(Imp(u < U, T(u) < CN(J(u))), Imp(u >= U, T(u) >= CN(J(u))))
    return layout_lemmas(ws, o.n) + [Ind('a unit was sent exactly when it is part of the data', 0, None, sent_when, pat=T), Ind('nothing is lost when every packet arrived', 0, None, lambda u: Imp(ALLR, LC(u) == 0), pat=LC)]


def dhints(S):
    t, v, o = S.ctx.ghosts['t'], S.ctx.ghosts['v'], S.o.interleave_order
    return [Imp(ALLR, RCV(0)), Imp(ALLR, U <= v), Imp(ALLR, POS(U) <= POS(v))]


DEINT = Contract(M + 'deinterleave', {'packets': MapOf(Int, Opt(BQ)), 'interleave_order': ListOf(Int), 'word_size': Int},
                 TupleOf(ListOf(Int), ListOf(TupleOf(Int, Int))), name='deinterleave', pre=dpre, defs=ddefs, modifies=('packets',),
                 lemmas=dlemmas, hints=dhints, post=dpost,
                 raises={'RuntimeError': lambda S: FA([IVJ], Imp(within(IVJ, 0, S.o.interleave_order.n), Not(RCV(IVJ))), RCV(IVJ))},
                 loops=[Loop(inv=outer, dec=lambda L: U - L.g['v'], types={'errors': ListOf(TupleOf(Int, Int)), 'data': BQ},
                             ghosts={'t': (Int, lambda L: z3.IntVal(0), lambda L, L2: L.g['t'] + 1), 'v': (Int, lambda L: z3.IntVal(0), lambda L, L2: L.g['v'] + L.interleave_order.n)}),
                        Loop(inv=inner, end=iend, types={'errors': ListOf(TupleOf(Int, Int)), 'data': BQ}, ghosts={'w': (Int, lambda L: L.up.g['v'], lambda L, L2: L.g['w'] + 1)})])
IVJ = z3.Int('il_j')
IL = [INTER]
DE = [DEINT]
ALL = IL + DE
