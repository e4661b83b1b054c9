"""Contracts of the frequency counter in semantic_codec/compressor/huffman.py."""
from .lib import *

M = 'semantic_codec.compressor.huffman:InstructionPartFrequencyCounter'
I = z3.IntSort()
X = opaque_sort('Inst')
OCR = z3.Function('occ:Inst.registers_used', X, I, I, I)
NEW = z3.Function('first_met', I, z3.BoolSort())
one = lambda f: lambda x, k: z3.If(ia(f, x) == k, 1, 0)
PARTS = (('registers', 'reg', lambda x, k: OCR(x, ilist_n('registers_used', x), k)), ('opcodes', 'opcode', one('opcode_field')), ('conditions', 'cond', one('conditional_field')))
FR = [z3.Function('frequency_of_' + n, I, I, I) for n, _, _ in PARTS]


def filt(p, w):
    return FilterK('with_' + PARTS[w][0], lambda i, k: And(NEW(i), PARTS[w][2](p[i], k) > 0), p.n)


def defs(S):
    p = S.program
    i, k, j, x = V('i'), V('k'), V('j'), IV()
    out = [FA([x, j, k], Imp(j >= 0, OCR(x, j, k) >= 0), OCR(x, j, k)), FA([x], ilist_n('registers_used', x) >= 0, ilist_n('registers_used', x)), FA([i], Imp(within(i, 0, p.n), NEW(i) == all_(0, i, lambda j: p[j] != p[i])), NEW(i))]
    for w, (n, _, f) in enumerate(PARTS):
        N = FR[w]
        out += [FA([k], N(0, k) == 0, N(0, k)), FA([i, k], Imp(within(i, 0, p.n), N(i + 1, k) == N(i, k) + f(p[i], k)), N(i, k), N(i + 1, k))] + filt(p, w).defs()
    return out


def lemmas(S):
    p = (S.o if hasattr(S, 'o') else S).program

    def seen(i):
        j = V('j')
        return FA([j], Imp(within(j, 0, i), ex_(0, i, lambda q: And(NEW(q), p[q] == p[j]))), p[j])

    def pos(N):
        def P(i):
            k = V('k')
            return FA([k], N(i, k) >= 0, N(i, k))
        return P
    out = [Ind('every instruction is first met somewhere', 0, p.n, seen, pat=None, local=True)]
    for w in range(3):
        c, f, n = filt(p, w).c, PARTS[w][2], PARTS[w][0]

        def fewer(i, w=w, c=c):
            k = V('k')
            return FA([k], And(c(i, k) >= 0, c(i, k) <= FR[w](i, k)), c(i, k))

        def counted(i, w=w, f=f):
            j, k = V('j'), V('k')
            return FA([j, k], Imp(And(within(j, 0, i), f(p[j], k) > 0), FR[w](i, k) > 0), f(p[j], k))
        out += [Ind('frequencies are not negative (%s)' % PARTS[w][0], 0, p.n, pos(FR[w]), pat=None)] + filt(p, w).lemmas() + [
            Ind('no more instructions than occurrences (%s)' % n, 0, p.n, fewer, pat=None), Ind('whatever an instruction has is counted (%s)' % n, 0, p.n, counted, pat=None)]
    return out


def at(p, w, freq, wit, when):
    """when(k): list of (condition, number of instructions counted for k)"""
    k, m = V('k'), V('m')
    N, f = FR[w], filt(p, w)
    on = lambda g: And(*[Imp(c, g(i)) for c, i in when(k)])
    return [('frequencies', FA([k], on(lambda i: And(freq.has(k) == (N(i, k) > 0), Imp(freq.has(k), freq[k] == N(i, k)))), freq.has(k), freq[k])),
            ('keys of the lists', FA([k], on(lambda i: wit.has(k) == (N(i, k) > 0)), wit.has(k))),
            ('lengths of the lists', FA([k], Imp(wit.has(k), on(lambda i: wit[k].n == f.c(i, k))), wit.has(k))),
            ('the lists', FA([k, m], Imp(wit.has(k), on(lambda i: Imp(within(m, 0, f.c(i, k)), wit[k][m] == p[f.at(k, m)]))), wit[k][m], f.at(k, m)))]


def outer(w):
    return lambda L: at(L.program, w, L.freq, L.instructions_with, lambda k: [(True, L.idx)])


def inner(w):
    def inv(L):
        c = L.up.c
        done = lambda k: And(c.has(k), c.pos(k) < L.idx)
        return at(L.program, w, L.freq, L.instructions_with, lambda k: [(done(k), L.up.idx + 1), (Not(done(k)), L.up.idx)])
    return inv


def step(w):
    def pre(L):
        p, i, wit = L.program, L.up.idx, L.instructions_with
        k = L.up.c.key(L.idx)
        f, q, m = filt(p, w), V('q'), V('m')
        h = PARTS[w][2]
        met = EX([q], And(within(q, 0, i), NEW(q), p[q] == p[i]))
        return [('it has the part', And(h(p[i], k) > 0, f.c(i, k) >= 0, FR[w](i, k) >= 0)),
                ('met before unless new', Imp(Not(NEW(i)), met), ['every instruction is first met somewhere']),
                ('instructions met before have been counted', FA([q], Imp(And(within(q, 0, i), p[q] == p[i]), FR[w](i, k) > 0), p[q])),
                ('instructions met first are listed', FA([q], Imp(And(within(q, 0, i), NEW(q), p[q] == p[i], wit.has(k)), And(within(f.c(q, k), 0, f.c(i, k)), wit[k][f.c(q, k)] == p[q])), NEW(q))),
                ('new if nothing is listed', Imp(Not(wit.has(k)), And(NEW(i), f.c(i, k) == 0))),
                ('new exactly if not listed', Imp(wit.has(k), NEW(i) == all_(0, wit[k].n, lambda m: wit[k][m] != p[i])))]
    return pre


def post(S):
    p, s = S.program, S.self
    out = []
    for w, (n, a, _) in enumerate(PARTS):
        out += [(n + ': ' + t, b) for t, b in at(p, w, getattr(s, a + '_frequency'), getattr(s, a + '_with'), lambda k: [(True, p.n)])]
    return out


T = {'freq': MapOf(Int, Int), 'instructions_with': MapOf(Int, ListOf(INST))}
COUNT = Contract(M + '.count', {'self': ObjOf(M, **{'%s_%s' % (a, f): t for _, a, _ in PARTS for f, t in (('frequency', T['freq']), ('with', T['instructions_with']))}), 'program': ListOf(INST)},
                 NoneT, sites=True, name='InstructionPartFrequencyCounter.count', modifies=tuple('self.%s_%s' % (a, f) for _, a, _ in PARTS for f in ('frequency', 'with')),
                 defs=defs, lemmas=lemmas, post=post, loops=[l for w in range(3) for l in (Loop(inv=outer(w), types=T), Loop(inv=inner(w), types=T, pre=step(w)))])
ALL = [COUNT]
