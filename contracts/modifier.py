"""Contracts of semantic_codec/architecture/instruction_modifier.py (bit-vector mode)."""
from .lib import *
from .bits import BV, INT

M = 'semantic_codec.architecture.instruction_modifier:InstructionModifier.'
SELF = Const(lambda c: c.newref(MObj(c.eng.class_by_name(M[:-1]), {})))


def field(at, n):
    def post(S):
        th = S.th
        w, v = S.o.w, S.o.v
        width = n(S) if callable(n) else th.ival(n)
        a = th.ival(at)
        return [('the field holds the low bits of the new value and every other bit of the word is kept',
                 each_bit(th, lambda k: bit(th, S.r, k) == z3.If(z3.And(k >= a, k < a + width), bit(th, v, k - a), bit(th, w, k)))),
                ('the result is a 32-bit word', word(th, S.r))]
    return post


def imm_width(S):
    th = S.th
    b = lambda k: bit(th, S.o.w, th.ival(k))
    ldst = z3.And(z3.Not(b(27)), b(26), z3.Not(b(25)))
    return z3.If(ldst, th.ival(12), th.ival(8))


def mk(name, at, n):
    return Contract(M + name, {'self': SELF, 'w': Int, 'v': Int}, Int, mode='bv', name='InstructionModifier.' + name,
                    pre=lambda S: [word(S.th, S.w), word(S.th, S.v, 40)], post=field(at, n))


MOD = [mk('modify_cond', 28, 4), mk('modify_opcode', 21, 4), mk('modify_rn', 16, 4), mk('modify_rd', 12, 4), mk('modify_rs', 8, 4),
       mk('modify_rm', 0, 4), mk('modify_immediate', 0, imm_width)]
ALL = MOD
