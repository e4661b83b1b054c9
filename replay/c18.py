"""C18 on the real code: files in the scratch directory of the run."""
import os
import struct
from semantic_codec.solution.solution_io import SolutionWriter, SolutionReader
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from .util import FI, Near, base_addr

RULE = ('programs of 0..300 addresses (mostly at most 8) with 1..6 candidates (sometimes hundreds), originals given as a list or a table; files with a wrong signature; programs without their '
        'original; a case is one file; non-trivial: an address whose original is not its first candidate')
LIMIT = 20


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/solution/solution_io.py')
    while True:
        n = near.size(rng.randint(0, 8), 300, 0.01)
        m = near.size(6, min(700, 1500 // max(1, n)), 0.03)
        prog = []
        addrs = rng.sample([0, 4, 0xFFFFFFFC, 0x80000000] + [rng.randrange(0, 2 ** 32, 4) for _ in range(n + 4)], n)
        if rng.random() < 0.4:
            lo = base_addr(rng, n, 0x8000)
            addrs = rng.sample(range(lo, lo + 4 * n, 4), n)
        for a in addrs:
            pool = [rng.choice((0, 1, 0xFFFFFFFF, 0xE1A00000, rng.getrandbits(32), rng.getrandbits(32))) for _ in range(m if m != 6 and rng.random() < 0.5 else rng.randint(1, 6))]
            o = rng.choice(pool[-3:]) if rng.random() < 0.3 else rng.choice(pool)
            prog.append([a, pool, o])
        k = rng.random()
        yield {'prog': prog, 'list': rng.random() < 0.5, 'mode': 'magic' if k < 0.08 else 'missing' if k < 0.2 and n else 'ok', 'x': rng.getrandbits(8)}


def nontrivial(c):
    return any(p[0] != o for _, p, o in c['prog'])


def check(c):
    f = 's.sol'
    try:
        return check_(c, f)
    finally:
        if os.path.exists(f):
            os.remove(f)


def check_(c, f):
    prog = {a: [FI({'e': e, 'a': a}) for e in p] for a, p, o in c['prog']}
    org = [FI({'e': o, 'a': a}) for a, p, o in c['prog']]
    if c['mode'] == 'missing':
        k = c['x'] % len(org)
        org[k].encoding = next(v for v in range(100) if v not in c['prog'][k][1])
    arg = org if c['list'] else {i.address: [i] for i in org}
    try:
        SolutionWriter().write_binary(f, arg, prog)
        if c['mode'] == 'missing':
            return 'a program without its original is written'
    except RuntimeError:
        if c['mode'] == 'missing':
            return None
        raise
    if [[x.encoding for x in prog[a]] for a, p, o in c['prog']] != [p for a, p, o in c['prog']]:
        return 'writing changes the program'
    if c['mode'] == 'magic':
        b = bytearray(open(f, 'rb').read())
        b[c['x'] % 8] ^= 1 << (c['x'] // 8 % 8)
        open(f, 'wb').write(b)
        try:
            SolutionReader().read(f)
        except RuntimeError:
            return None
        return 'a file with a wrong signature is read'
    original, program = SolutionReader().read(f)
    exp = {a: p[:p.index(o) + 1] for a, p, o in c['prog']}
    got = {a: [x.encoding for x in v] for a, v in program.items()}
    if got != exp:
        return 'read %r, written %r' % (got, exp)
    if {a: [x.encoding for x in v] for a, v in original.items()} != {a: [o] for a, p, o in c['prog']}:
        return 'the original read back differs'
    if any(x.address != a for t in (program, original) for a, v in t.items() for x in v):
        return 'an instruction read back has another address'
