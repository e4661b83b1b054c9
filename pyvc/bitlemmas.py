"""The facts about binary digits that integer-mode proofs assume, proved here on 64-bit vectors (words and the sums,
shifts and powers the code builds from them stay below 2^48)."""
import z3
from .engine import Obligation

W = 64
a, b, c, i, m, k, q = z3.BitVecs('a b c i m k q', W)


def v(n):
    return z3.BitVecVal(n, W)


def bit(w, n):
    return z3.Extract(0, 0, w >> n) == z3.BitVecVal(1, 1)


def small(x, n=48):
    return z3.And(x >= 0, x < v(2 ** n))


IX = z3.And(i >= 0, i < v(W))
POW = v(1) << m
FACTS = {
    'bitops:zero': [z3.Implies(IX, z3.Not(bit(v(0), i)))],
    'bitops:band': [z3.Implies(IX, bit(a & b, i) == z3.And(bit(a, i), bit(b, i))), z3.Implies(z3.And(a >= 0, b >= 0), z3.And(a & b >= 0, a & b <= a, a & b <= b))],
    'bitops:bor': [z3.Implies(IX, bit(a | b, i) == z3.Or(bit(a, i), bit(b, i))), z3.Implies(z3.And(a >= 0, b >= 0), a | b >= 0)],
    'bitops:bxor': [z3.Implies(IX, bit(a ^ b, i) == z3.Xor(bit(a, i), bit(b, i))), z3.Implies(z3.And(a >= 0, b >= 0), a ^ b >= 0)],
    'bitops:bnot': [z3.Implies(IX, bit(~a, i) == z3.Not(bit(a, i))), ~a == -a - 1],
    'bitops:shl': [z3.Implies(z3.And(IX, small(a, 32), b >= 0, b < v(31)), z3.And(bit(a << b, i) == z3.And(i >= b, bit(a, i - b)), a << b >= 0))],
    'bitops:shr': [z3.Implies(z3.And(IX, small(a), b >= 0, b < v(48), i < v(16)), bit(a >> b, i) == bit(a, i + b)), z3.Implies(z3.And(small(a), b >= 0, b < v(W)), z3.And(a >> b >= 0, a >> b <= a))],
    'bitops:add_without_carry': [z3.Implies(z3.And(small(a, 32), small(c, 32), a & c == v(0)), z3.And(a + c == a | c, a + c < v(2 ** 32)))],
    'bitops:digits': [z3.Implies(z3.And(m >= 0, m < v(48), k >= 0, k < POW, q >= 0, q < v(50)), bit(POW + k, q) == z3.Or(q == m, bit(k, q))),
                      z3.Implies(z3.And(m >= 0, m < v(48), k >= POW, k < POW + POW, q >= 0, q < v(50)), bit(k, q) == z3.Or(q == m, bit(k - POW, q)))],
}


def obligations(names):
    out, unknown = [], []
    for n in sorted(names):
        if n not in FACTS:
            unknown.append(n)
            continue
        for j, e in enumerate(FACTS[n]):
            out.append(Obligation('binary digits: %s (%d)' % (n.split(':')[1], j), [], e, 0, 'bits', '', 'lemma'))
    return out, unknown
