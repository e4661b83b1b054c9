"""Shared by the replay harnesses: stand-in instructions, real instructions, a silent stdout."""
import contextlib
import functools
import io
import os
import sys
import types


def stub_darm():
    """libs.darm is not part of the repository; the modules that import it only need the name"""
    if 'libs.darm' not in sys.modules:
        m = types.ModuleType('libs.darm')
        m.darm = types.SimpleNamespace(disasm_armv7=lambda w: None)
        sys.modules['libs.darm'] = m


@contextlib.contextmanager
def quiet():
    o = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = o


class FI(object):
    """an instruction whose fields are given: d = {e: encoding, a: address, c: condition, o: opcode, r: registers read,
    w: registers written, u: registers used, i: ignored, b: branch target or True, s: score, t: text}"""

    def __init__(self, d):
        self.d = d
        self.encoding = d.get('e', 0)
        self.address = d.get('a', 0)
        self._ignore = bool(d.get('i'))
        self.conditional_field = d.get('c', 14)
        self.opcode_field = d.get('o', 1)
        self.scores_by_rule = {}
        self.ssa_read, self.ssa_written = [], []
        self.link_instruction = None
        self.is_branch = bool(d.get('b')) or d.get('b') == 0
        self.jumping_address = d['b'] if d.get('b') is not None and d.get('b') is not True else None
        self.is_branch_with_link = bool(d.get('l'))
        self.score_function = None

    @property
    def ignore(self):
        return self._ignore

    @ignore.setter
    def ignore(self, v):
        self._ignore = v

    @property
    def is_undefined(self):
        return self._ignore

    @property
    def opcode_type(self):
        return self.opcode_field

    @property
    def is_push_pop(self):
        return self.is_a('push') or self.is_a('pop')

    def is_a(self, v):
        return str(self).startswith(v)

    def score(self):
        if self.score_function is not None:
            return self.score_function(self.scores_by_rule, self)
        return self.d.get('s', 0)

    def registers_used(self):
        return list(self.d.get('u', []))

    def registers_read(self):
        return [x for x in self.d.get('r', []) if x != 16]

    def registers_written(self):
        return [x for x in self.d.get('w', []) if x != 16]

    def storages_used(self):
        return list(self.d.get('us', self.d.get('u', [])))

    def storages_read(self):
        return list(self.d.get('r', []))

    def storages_written(self):
        return list(self.d.get('w', []))

    def modifies_flags(self):
        return bool(self.d.get('f'))

    def branch_to(self, instructions):
        for i in instructions:
            if i.address == self.jumping_address:
                return i
        return None

    def __str__(self):
        return self.d.get('t', 'i%x' % self.encoding)

    __repr__ = __str__


def real_word(rng):
    """an ARM word that usually decodes"""
    k = rng.randrange(12)
    cond = rng.choice((14, 14, 14, 0, 1, 10, 11, 12, 13, 2))
    r = rng.getrandbits
    if k < 4:
        op = rng.randrange(16)
        s = 1 if op in (8, 9, 10, 11) else r(1)
        w = (r(1) << 25) | op << 21 | s << 20 | r(4) << 16 | r(4) << 12 | r(12)
        if not w >> 25 & 1:
            w &= ~0x90
    elif k < 7:
        w = 1 << 26 | r(1) << 24 | r(1) << 23 | r(1) << 20 | rng.randrange(13) << 16 | rng.randrange(13) << 12 | r(12)
    elif k == 7:
        w = 5 << 25 | r(1) << 24 | (r(24) if r(1) else rng.choice((0, 1, 2, 0xFFFFFE, 0xFFFFF0, 0x800000, 0x7FFFFF)))
    elif k == 8:
        w = 0x92D0000 | rng.getrandbits(16)
    elif k == 9:
        w = 0x8BD0000 | rng.getrandbits(16)
    elif k == 10:
        w = 0x12FFF10 | r(4) | (r(1) << 5)
    else:
        return r(32)
    return cond << 28 | w


@functools.lru_cache(None)
def consts(*files):
    """-> (new, all): the integers written in the given source files of the tree under test; new: those that are not in the
    files as they were when the checks were written. They only steer the sizes and values that are generated."""
    import ast
    import json
    root = os.environ.get('VERIF_REPO', '/repo')
    try:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'consts.json')) as f:
            base = json.load(f)
    except (OSError, ValueError):
        base = {}
    new, every = set(), set()
    for fn in files:
        try:
            with open(os.path.join(root, fn), encoding='utf8') as f:
                t = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            continue
        old = set(base.get(fn, ()))
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and type(n.value) is int:
                every.add(n.value)
                if n.value not in old:
                    new.add(n.value)
    return sorted(new), sorted(every)


class Near(object):
    """sizes: mostly the usual ones, sometimes large, sometimes near a number written in the source under test"""

    def __init__(self, rng, *files):
        self.rng = rng
        self.new, self.all = consts(*files)

    def size(self, usual, cap, big=0.04):
        """usual: a choice already drawn; cap: largest affordable size"""
        r = self.rng.random()
        if self.new and r < 0.35:
            c = [x for x in self.new if 1 <= x <= cap]
            if c:
                return min(cap, max(1, self.rng.choice(c) + self.rng.choice((-1, 0, 1, 1, 2, 3))))
        if r > 1 - big:
            c = [x for x in self.all if 1 < x <= cap]
            if c and self.rng.random() < 0.3:
                return min(cap, max(1, self.rng.choice(c) + self.rng.choice((-1, 0, 1, 1))))
            return self.rng.randint(min(usual, cap), cap)
        return usual

    def value(self, usual):
        r = self.rng.random()
        if self.new and r < 0.25:
            return abs(self.rng.choice(self.new) + self.rng.choice((-1, 0, 0, 1)))
        if self.all and r < 0.35:
            return abs(self.rng.choice(self.all) + self.rng.choice((-1, 0, 0, 1)))
        return usual


def base_addr(rng, n, usual):
    """start of a run of n words: often one that crosses a number of digits (decimal or hexadecimal) or a sign bit, sometimes 0 or the end of the address space"""
    if rng.random() < 0.6:
        return usual
    k = rng.choice([0, 2 ** 31, 2 ** 32 - 4 * n] + [16 ** e for e in range(2, 8)] + [10 ** e for e in range(2, 10)])
    if k in (0, 2 ** 32 - 4 * n):
        return k
    return max(0, (k - 4 * rng.randint(0, n)) & ~3)
