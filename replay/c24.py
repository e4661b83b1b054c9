"""C24 on the real code: generated disassembly files in the scratch directory of the run."""
import os
from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader, TextDisassembleReader
from semantic_codec.architecture.instruction import Instruction
from .util import Near, base_addr, quiet, real_word

RULE = ('words and 8-digit texts for the byte order; generated files of both formats with 0..200 instruction lines (mostly at most 20) and 0..40 functions (mostly at most 4); a case is one word or one file; '
        'non-trivial: a file with at least two functions, or a word that is not a palindrome of bytes')
LIMIT = 10


def cases(rng, tier, hints):
    for w in (0, 1, 0xFF, 0xFF00, 0x12345678, 0xFFFFFFFF, 0x80000000, 0x00FF00FF, 0x01000000):
        yield {'w': w}
    for i in range(32):
        yield {'w': 1 << i}
    near = Near(rng, 'semantic_codec/architecture/disassembler_readers.py', 'semantic_codec/architecture/instruction.py')
    while True:
        if rng.random() < 0.3:
            yield {'w': rng.getrandbits(32)}
            continue
        n = near.size(rng.randint(0, 20), 200, 0.01)
        a, lines = rng.choice((rng.randrange(0, 0x200000, 4), rng.randrange(0, 2 ** 32, 4), 0, base_addr(rng, n, 0))), []
        for i in range(n):
            lines.append([a, real_word(rng)])
            a += 4 if rng.random() < 0.85 else rng.choice((rng.randrange(4, 400, 4), rng.randrange(4, 0x40000, 4), 2))
            a %= 2 ** 32
        fmt = rng.choice(('elfio', 'text'))
        if n > 1 and rng.random() < 0.15:
            for _ in range(rng.randint(1, 3)):      # an address met again
                lines[rng.randrange(n)][0] = lines[rng.randrange(n)][0]
        one = set()
        st = sorted(rng.sample(range(n), min(n, near.size(rng.randint(0, 4), 40, 0.02))))
        if rng.random() < 0.5 and n:
            st = sorted(set([0] + st))
        if fmt == 'elfio':
            st = [i for i in st if not (lines[i][0] in one or one.add(lines[i][0]))]
        yield {'fmt': fmt, 'lines': lines, 'starts': st, 'style': rng.getrandbits(8)}


def nontrivial(c):
    if 'w' in c:
        b = c['w'].to_bytes(4, 'big')
        return b != b[::-1]
    return len(c['starts']) > 1


def rev(w):
    return int.from_bytes(w.to_bytes(4, 'big'), 'little')


def check(c):
    if 'w' in c:
        w = c['w']
        R = Instruction.reverse_endianess
        if R(w) != rev(w) or R(R(w)) != w:
            return 'reverse_endianess(%#x) = %r' % (w, R(w))
        for t in ('%08x' % w, '%08X' % w):
            e = rev(w)
            x = R(t)
            if x != (('%08x' if t == '%08x' % w else '%08X') % e):
                return 'reverse_endianess(%r) = %r' % (t, x)
        t = ' '.join('%02x' % b for b in w.to_bytes(4, 'big'))
        if R(t) != '%08x' % rev(w):
            return 'reverse_endianess(%r) = %r' % (t, R(t))
        return None
    f = 'p.txt'
    lines, starts = c['lines'], c['starts']
    groups, cur = [], None
    if c['fmt'] == 'elfio':             # a function is met again wherever its start address is
        met = {lines[i][0]: [] for i in starts}
        groups = list(met.items())
        starts = [i for i, (a, w) in enumerate(lines) if a in met]
    for i, (a, w) in enumerate(lines):
        if i in starts:
            if c['fmt'] == 'elfio':
                cur = met[a]
            else:
                cur = []
                groups.append((a, cur))
        if cur is not None:
            cur.append((a, w))
    s = c['style']
    with open(f, 'w') as o:
        if c['fmt'] == 'elfio':
            o.write('.function_list\n')
            for a, g in groups:
                o.write('%s;fn_%x\n' % (('0x%x' if s & 1 else '%x') % a, a))
            sec = ['.text', '.init', '.plt', '.fini']
            o.write('\n' if s & 2 else '')
            o.write(sec[s % 4] + '\n')
            for i, (a, w) in enumerate(lines):
                if s & 4 and i == len(lines) // 2 and i:
                    o.write('\n' + sec[(s + 1) % 4] + '\n')
                o.write('%s;%s%s\n' % (('0x%x' if s & 1 else '%x') % a, ('0x%08x' if s & 8 else '%08x') % w, ';mov r0, r0' if s & 16 else ''))
        else:
            o.write('.text:%08x <pre>\n' % 0 if False else '')
            for i, (a, w) in enumerate(lines):
                if i in starts:
                    o.write('.text:%08x <fn_%x>:\n' % (a, a))
                b = ' '.join('%02x' % x for x in w.to_bytes(4, 'little')) if s & 1 else '%08x' % rev(w)
                o.write(' .text:%08x %s  ; mov: r0\n' % (a, b) if s & 2 else ' .text:%08x %s\n' % (a, b))
    try:
        with quiet():
            if c['fmt'] == 'elfio':
                fns = ElfioTextDisassembleReader(f).read_functions()
                ins = ElfioTextDisassembleReader(f).read_instructions()
            else:
                ins = TextDisassembleReader(f).read_instructions()
                fns = TextDisassembleReader(f).read_functions()
    finally:
        os.remove(f)
    if [(i.address, i.encoding) for i in ins] != [tuple(x) for x in lines]:
        return '%s: read %r, written %r' % (c['fmt'], [(hex(i.address), hex(i.encoding)) for i in ins][:4], lines[:4])
    got = [[(i.address, i.encoding) for i in g.instructions] for g in fns]
    exp = [g for a, g in groups]
    if c['fmt'] == 'text':
        first = starts[0] if starts else len(lines)
        exp = [[tuple(x) for x in lines[:first]]] + exp
    if got != exp:
        return '%s: functions %r, expected %r' % (c['fmt'], got, exp)
    if c['fmt'] == 'elfio' and [g.name for g in fns] != ['fn_%x' % a for a, g in groups]:
        return 'function names %r' % [g.name for g in fns]
