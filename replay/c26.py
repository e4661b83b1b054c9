"""C26 on the real code: the computed target of Instruction, and that of the decoded instructions."""
from semantic_codec.architecture.instruction import Instruction
from semantic_codec.architecture.capstone_instruction import CAPSInstruction

RULE = ('branch words with every kind of offset and address, instructions that are not branches, and lists with and without the target; '
        'a case is one instruction; non-trivial: a branch with a non-zero offset')


class I(Instruction):
    br = True

    @property
    def is_branch(self):
        return self.br

    @property
    def is_undefined(self):
        return False


def cases(rng, tier, hints):
    offs = [0, 1, 2, 0x7FFFFF, 0x800000, 0xFFFFFF, 0xFFFFFE, 0x400000, 0xC00000] + [1 << i for i in range(24)]
    addrs = [0, 4, 8, 0x8000, 0xFFFFFFFC, 0xFFFFFFF8, 0x7FFFFFFC, 0x80000000, 0x2000000]
    while True:
        for o in offs:
            for a in addrs:
                yield {'w': rng.choice((0xEA, 0xEB, 0x0A, 0x1B, rng.randrange(256))) << 24 | o, 'a': a, 'br': rng.random() < 0.9, 'seed': rng.getrandbits(20)}
        offs = [rng.getrandbits(24) for _ in range(30)]
        addrs = [rng.getrandbits(32) for _ in range(20)] + [rng.randrange(0, 2 ** 32, 4) for _ in range(20)]


def nontrivial(c):
    return c['br'] and c['w'] & 0xFFFFFF != 0


def target(w, a):
    o = w & 0xFFFFFF
    return (a + 8 + 4 * (o - (1 << 24) if o >> 23 else o)) % 2 ** 32


def check(c):
    w, a = c['w'], c['a']
    i = I(w, a)
    i.br = c['br']
    exp = target(w, a) if c['br'] else None
    for k in range(2):
        if i.jumping_address != exp:
            return 'branch %#x at %#x jumps to %r, expected %r' % (w, a, i.jumping_address, exp)
    if c['br']:
        lst = [I(0, x) for x in (a, a + 4, (exp + 4) % 2 ** 32, exp, exp, a + 12)]
        if c['seed'] & 1:
            lst = [x for x in lst if x.address != exp]
        first = next((x for x in lst if x.address == exp), None)
        if i.branch_to(lst) is not first or i.branch_to([]) is not None:
            return 'branch_to finds the wrong instruction'
    else:
        if i.branch_to([I(0, x) for x in (a, a + 4, a + 8)]) is not None:
            return 'an instruction that is no branch has a target'
    if c['seed'] % 16 == 0:
        b = rng_word(c) << 24 | w & 0xFFFFFF
        a2 = a & 0xFFFFFFFC
        x = CAPSInstruction(b, a2)
        exp = target(b, a2)
        for k in range(2):
            t = x.jumping_address
            if not x.is_branch or t != exp:
                return 'the decoded branch %#x at %#x jumps to %r, expected %#x' % (b, a2, t, exp)
        lst = [I(0, y) for y in (a2, a2 + 4, exp, exp)]
        if x.branch_to(lst) is not next(y for y in lst if y.address == exp):
            return 'branch_to of the decoded branch %#x at %#x finds the wrong instruction' % (b, a2)
        n = CAPSInstruction(0xE1A00001, a2)
        if n.is_branch or n.jumping_address is not None or n.branch_to(lst) is not None:
            return 'mov r0, r1 has a branch target'


def rng_word(c):
    return (0xEA, 0xEB, 0x0A, 0x1B, 0xDA, 0x8B, 0x2A, 0x4B)[c['seed'] >> 4 & 7]
