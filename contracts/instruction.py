"""Contracts of semantic_codec/architecture/instruction.py."""
from .lib import *
from .bits import BV, INT

I = 'semantic_codec.architecture.instruction:Instruction'
SELF = ObjOf(I, is_branch=Bool, _encoding=Int, _address=Int, _jumping_address=Opt(Int))


def target(th, w, a):
    off = w & th.ival(0xFFFFFF)
    s = z3.If(bit(th, w, th.ival(23)), off - th.ival(2 ** 24), off)
    return (a + th.ival(8) + th.ival(4) * s) & th.ival(0xFFFFFFFF)


def jpost(S):
    th, o = S.th, S.o.self
    t = target(th, o._encoding, o._address)
    return [('a branch has a target, nothing else has one', isnone(S.r) == Not(o.is_branch)),
            ('the target is the address plus eight plus four times the signed offset, modulo 2^32', Imp(o.is_branch, val(S.r, t) == t)),
            ('the target kept for later is the same', Imp(o.is_branch, And(Not(isnone(S.self._jumping_address)), val(S.self._jumping_address, t) == t)))]


JUMP = Contract(I + '.jumping_address', {'self': SELF}, Opt(Int), mode='bv', name='Instruction.jumping_address',
                pre=lambda S: [word(S.th, S.self._encoding), word(S.th, S.self._address), Or(
                    S.self._jumping_address.isnone, S.self._jumping_address.value == target(S.th, S.self._encoding, S.self._address))],
                modifies=('self._jumping_address',), post=jpost)

JSELF = ObjOf(I, jumping_address=Opt(Int))


def bpost(S):
    L, j = S.o.instructions, S.o.self.jumping_address
    hit = lambda i: And(Not(j.isnone), ia('address', L[i]) == j.value)
    x = IV()
    return [('nothing only if no instruction is at the target', Imp(isnone(S.r), all_(0, L.n, lambda i: Not(hit(i))))),
            ('otherwise the first instruction at the target', Imp(Not(isnone(S.r)), ex_(0, L.n, lambda i: And(
                L[i] == val(S.r, x), hit(i), all_(0, i, lambda k: Not(hit(k)))))))]


BRTO = Contract(I + '.branch_to', {'self': JSELF, 'instructions': ListOf(INST)}, Opt(INST), name='Instruction.branch_to', post=bpost,
                loops=[Loop(inv=lambda L: [('no earlier instruction is at the target', all_(0, L.idx, lambda k: Or(
                    L.o.self.jumping_address.isnone, ia('address', L.o.instructions[k]) != L.o.self.jumping_address.value)))])])

# byte order: numbers in bit-vector mode (the bytes change places), texts by character
def revpost(S):
    th = S.th
    v, r = S.o.value, S.r
    return [('the four bytes change places', And(*[bit(th, r, th.ival(8 * (3 - b) + k)) == bit(th, v, th.ival(8 * b + k)) for b in range(4) for k in range(8)])),
            ('the result is a 32-bit word', word(th, r))]


REV = Contract(I + '.reverse_endianess', {'value': Int}, Int, mode='bv', name='Instruction.reverse_endianess',
               pre=lambda S: [word(S.th, S.value)], post=revpost)
JUMPS = [JUMP, BRTO]
REVS = [REV]
ALL = JUMPS + REVS
