"""Contracts of semantic_codec/architecture/bits.py:BitQueue.

The queue holds the bits  D, D+1, ..., E-1  of the bit stream of its words, where E = 32*_eq_word + _eq_bit and
D = _dq_bit; bit 32*w+b of the stream is bit b of word w.
"""
from .lib import *
from .bits import INT

QT = ObjOf(BITS + 'BitQueue', _bytes=ListOf(Int), _eq_word=Int, _eq_bit=Int, _dq_bit=Int, word_size=Int)


def qinv(q):
    """representation invariant"""
    w = q._bytes
    i = V('qi')
    return [('one word per 32 bits of the stream', w.n == q._eq_word + 1), ('the write position is inside a word',
            z3.And(q._eq_bit >= 0, q._eq_bit < 32)), ('the read position is inside a word', z3.And(q._dq_bit >= 0, q._dq_bit < 32)),
            ('the unit is 1 to 32 bits', z3.And(q.word_size >= 1, q.word_size <= 32)),
            ('every stored word has 32 bits', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.n), z3.And(w[i] >= 0, w[i] < 2 ** 32))))]


def qE(q):
    return 32 * q._eq_word + q._eq_bit


def qword_at(q, pos_word, off):
    """bit `off` counted from the start of word pos_word, 0 <= off < 64"""
    return z3.If(off < 32, bitf(q._bytes[pos_word], off), bitf(q._bytes[pos_word + 1], off - 32))


def zero_tail(q):
    b = V('b')
    return FA([b], z3.Implies(z3.And(b >= q._eq_bit, b < 32), z3.Not(bitf(q._bytes[q._eq_word], b))), bitf(q._bytes[q._eq_word], b))


def enq_post(S):
    q, o = S.self, S.o.self
    w, b, k = V('w'), V('b'), V('k')
    return qinv(q) + [
        ('the stream grows by one unit', qE(q) == qE(o) + o.word_size),
        ('the read position and the unit stay', z3.And(q._dq_bit == o._dq_bit, q.word_size == o.word_size)),
        ('the bits already queued are kept', z3.ForAll([w, b], z3.Implies(
            z3.And(w >= 0, b >= 0, b < 32, 32 * w + b < qE(o)), bitf(q._bytes[w], b) == bitf(o._bytes[w], b)))),
        ('the new unit holds the bits of the value in order', z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < o.word_size), qword_at(q, o._eq_word, o._eq_bit + k) == bitf(S.o.value, S.o.from_bit + k)))),
        ('the part of the new unit in the word that was current', FA([b], z3.Implies(
            z3.And(b >= o._eq_bit, b < o._eq_bit + o.word_size, b < 32), bitf(q._bytes[o._eq_word], b) == bitf(S.o.value, b - o._eq_bit + S.o.from_bit)),
            bitf(q._bytes[o._eq_word], b))),
        ('behind the end there are only zeros when that was so before', z3.Implies(zero_tail(o), zero_tail(q)))]


def deq_post(S):
    q, o = S.self, S.o.self
    k, i = V('k'), V('i')
    pop = o._dq_bit + o.word_size >= 32
    s = z3.If(pop, 1, 0)
    return qinv(q) + [
        ('the first unit is copied into the value and the other bits of the value are kept', z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < 32), bitf(S.r, k) == z3.If(z3.And(k >= S.o.to_bit, k < S.o.to_bit + o.word_size),
                                                          qword_at(o, z3.IntVal(0), o._dq_bit + k - S.o.to_bit), bitf(S.o.value, k))))),
        ('the result is a 32-bit word', word(S.th, S.r)),
        ('exactly one unit leaves the queue', z3.And(q._dq_bit == o._dq_bit + o.word_size - 32 * s, q._eq_word == o._eq_word - s,
                                                     q._eq_bit == o._eq_bit, q.word_size == o.word_size)),
        ('the words still to be read are kept', z3.And(q._bytes.n == o._bytes.n - s, z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < q._bytes.n), q._bytes[i] == o._bytes[i + s]))))]


def same_words(a, b):
    i = V('i')
    return FA([i], z3.Implies(within(i, 0, a.n), a[i] == b[i]), a[i])


INIT = Contract(BITS + 'BitQueue.__init__', {'self': Const(lambda c: c.newref(MObj(c.eng.class_by_name(BITS + 'BitQueue'), {}))),
                                             'word_size': Int}, NoneT, name='BitQueue.__init__', inline=True,
                defs=zero_bits, defs_ok=True, pre=lambda S: [S.word_size >= 1, S.word_size <= 32], modifies=('self',),
                post=lambda S: qinv(S.self) + [('a new queue has only zeros', zero_tail(S.self)), ('a new queue is empty', z3.And(qE(S.self) == 0, S.self._dq_bit == 0)),
                                               ('the unit is the one asked for', S.self.word_size == S.o.word_size)])
ENQ = Contract(BITS + 'BitQueue.enqueue', {'self': QT, 'value': Int, 'from_bit': Int}, NoneT, name='BitQueue.enqueue', defs=zero_bits, defs_ok=True,
               modifies=('self._bytes', 'self._eq_word', 'self._eq_bit'),
               pre=lambda S: qinv(S.self) + [S.self._eq_word >= 0, word(S.th, S.value), S.from_bit >= 0, S.from_bit + S.self.word_size <= 32],
               post=enq_post)
DEQ = Contract(BITS + 'BitQueue.dequeue', {'self': QT, 'value': Int, 'to_bit': Int}, Int, name='BitQueue.dequeue',
               modifies=('self._bytes', 'self._eq_word', 'self._dq_bit'),
               pre=lambda S: qinv(S.self) + [word(S.th, S.value), S.to_bit >= 0, S.to_bit + S.self.word_size <= 32,
                                             ('the unit lies inside the stored words', S.self._dq_bit + S.self.word_size <= 32 * S.self._bytes.n)],
               post=deq_post)
EMPTY = Contract(BITS + 'BitQueue.empty', {'self': QT}, Bool, name='BitQueue.empty', pre=lambda S: qinv(S.self),
                 post=lambda S: [('empty exactly when no queued bit remains', S.r == (qE(S.o.self) <= S.o.self._dq_bit))])
GET = Contract(BITS + 'BitQueue.get_bytes', {'self': QT}, ListOf(Int), name='BitQueue.get_bytes', pre=lambda S: qinv(S.self),
               post=lambda S: [('the words of the stream', z3.And(S.r.n == S.o.self._bytes.n, same_words(S.r, S.o.self._bytes)))])
MINE = [INIT, ENQ, DEQ, EMPTY, GET]
ALL = MINE
