"""Contracts of semantic_codec/architecture/bits.py:Bits and instruction_modifier field edits (bit-vector mode)."""
from .lib import *


def rng(th, x, b=40):
    return z3.And(x >= th.ival(-2 ** b), x <= th.ival(2 ** b))


def bad_range(S, lo, hi):
    th = S.th
    return z3.Or(lo > hi, lo < th.ival(0), hi >= th.ival(32))


def mk(mode):
    """the contracts of Bits, for one theory"""
    I = lambda S, n: S.th.ival(n)
    check_range = Contract(
        BITS + 'Bits.check_range', {'lo': Int, 'hi': Int}, NoneT, mode=mode, name='Bits.check_range' + '@' + mode,
        pre=lambda S: [rng(S.th, S.lo, 44), rng(S.th, S.hi, 44)] if S.th.bv else [],
        raises={'RuntimeError': lambda S: bad_range(S, S.o.lo, S.o.hi)})

    bset = Contract(
        BITS + 'Bits.set', {'higher': Int, 'lower': Int}, Int, mode=mode, name='Bits.set@' + mode,
        pre=lambda S: [rng(S.th, S.higher), rng(S.th, S.lower)] if S.th.bv else [],
        raises={'RuntimeError': lambda S: bad_range(S, S.o.lower, S.o.higher)},
        post=lambda S: [('exactly the bits lower..higher are set',
                         each_bit(S.th, lambda k: bit(S.th, S.r, k) == z3.And(k >= S.o.lower, k <= S.o.higher))),
                        ('result is a 32-bit word', word(S.th, S.r))])

    on = Contract(
        BITS + 'Bits.on', {'value': Int}, Int, mode=mode, name='Bits.on@' + mode,
        pre=lambda S: [S.value >= I(S, 0), S.value < I(S, 32)],
        post=lambda S: [('exactly bit value is set', each_bit(S.th, lambda k: bit(S.th, S.r, k) == (k == S.o.value))),
                        ('result is a 32-bit word', word(S.th, S.r))])

    is_on = Contract(
        BITS + 'Bits.is_on', {'value': Int, 'bit': Int}, Bool, mode=mode, name='Bits.is_on@' + mode,
        pre=lambda S: [word(S.th, S.value, 40), S.bit >= I(S, 0), S.bit < I(S, 40)],
        post=lambda S: [('tells whether that bit is set', S.r == bit(S.th, S.o.value, S.o.bit))])

    are_on = Contract(
        BITS + 'Bits.are_on', {'value': Int, 'higher': Int, 'lower': Int}, Bool, mode=mode, name='Bits.are_on@' + mode,
        pre=lambda S: [word(S.th, S.value, 40)] + ([rng(S.th, S.higher), rng(S.th, S.lower)] if S.th.bv else []),
        raises={'RuntimeError': lambda S: bad_range(S, S.o.lower, S.o.higher)},
        post=lambda S: [('tells whether any bit of the range is set',
                         S.r == (z3.Or(*[z3.And(S.th.ival(k) >= S.o.lower, S.th.ival(k) <= S.o.higher, bit(S.th, S.o.value, S.th.ival(k)))
                                         for k in range(32)])))])

    def cb_bad(S):
        dt = S.o.dest_from + (S.o.src_to - S.o.src_from)
        return z3.Or(bad_range(S, S.o.src_from, S.o.src_to), bad_range(S, S.o.dest_from, dt))

    def cb_post(S):
        th = S.th
        dt = S.o.dest_from + (S.o.src_to - S.o.src_from)
        return [('bits dest_from..dest_to come from the source and all the others are kept',
                 each_bit(th, lambda k: bit(th, S.r, k) == z3.If(
                     z3.And(k >= S.o.dest_from, k <= dt),
                     bit(th, S.o.value_from, k - S.o.dest_from + S.o.src_from), bit(th, S.o.value_to, k)))),
                ('result is a 32-bit word', word(th, S.r))]
    copy_bits = Contract(
        BITS + 'Bits.copy_bits', {'value_from': Int, 'value_to': Int, 'src_from': Int, 'src_to': Int, 'dest_from': Int}, Int,
        mode=mode, name='Bits.copy_bits@' + mode,
        pre=lambda S: [word(S.th, S.value_from, 40), word(S.th, S.value_to)] +
                      ([rng(S.th, S.src_from), rng(S.th, S.src_to), rng(S.th, S.dest_from)] if S.th.bv else []),
        raises={'RuntimeError': cb_bad}, post=cb_post)
    return [check_range, bset, on, is_on, are_on, copy_bits]


BV = mk('bv')
INT = mk('int')
for _c in INT:
    _c.trusted = 'proved in bit-vector mode as ' + _c.name.replace('@int', '@bv')
ALL = BV + INT
