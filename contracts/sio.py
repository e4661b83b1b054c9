"""Contracts of semantic_codec/solution/solution_io.py (C18).

A solution file is a sequence of fields (format code, value); code 16: eight bytes, code 8: four bytes, little-endian.
The m-th entry of the file starts at field PF(m): address KEYF(m), count CNT(m), then CNT(m) encodings ENC(m, i).
"""
from .lib import *
from . import rules

M = 'semantic_codec.solution.solution_io:'
I1 = z3.IntSort()
PF, KEYF, CNT, FM, OE = (z3.Function('sf_' + n, I1, I1) for n in ('PF', 'KEYF', 'CNT', 'FM', 'OE'))
ENC = z3.Function('sf_ENC', I1, I1, I1)
NE, MAGIC_READ = z3.Int('sf_entries'), z3.Int('sf_signature')
MAGIC = 0xA0C1E2F3A4C5E6F7
LONG, INT_ = 16, 8
enc, addr = (lambda x: ia('encoding', x)), (lambda x: ia('address', x))
PROG = MapOf(Int, ListOf(INST))


def is_(f, code, v):
    return And(f[0] == code, f[1] == v)


def pdefs(n):
    m = V('m')
    return [PF(0) == 2, ('places', FA([m], Imp(within(m, 0, n), PF(m + 1) == PF(m) + 2 + CNT(m)), PF(m)))]


def plemmas(n):
    def grow(m):
        q = V('q')
        return And(PF(m) >= 2, FA([q], Imp(within(q, 0, m), PF(q) + 2 + CNT(q) <= PF(m)), PF(q)))
    return [Ind('entries lie one after the other', 0, n, grow, pat=PF)]


def entry(f, q, upto=None):
    """the entry q is in the file"""
    i = V('i')
    return [is_(f[PF(q)], INT_, KEYF(q)), is_(f[PF(q) + 1], INT_, CNT(q))]


def filled(f, m):
    q, i = V('q'), V('i')
    return [('the entries so far', FA([q], Imp(within(q, 0, m), And(*entry(f, q))), PF(q))),
            ('the encodings so far', FA([q, i], Imp(And(within(q, 0, m), within(i, 0, CNT(q))), is_(f[PF(q) + 2 + i], INT_, ENC(q, i))), [PF(q), ENC(q, i)]))]


def header(f, n):
    return [('the signature comes first', is_(f[0], LONG, z3.IntVal(MAGIC))), ('then the number of addresses', is_(f[1], INT_, n))]


# ------------------------------------------------------------------------------------------ writer
def wdefs(S):
    p, m, i = S.program, V('m'), V('i')
    k = p.key(m)
    v = p[k]
    min_ = within(m, 0, p.n)
    return pdefs(p.n) + [
        ('entries', FA([m], Imp(min_, And(KEYF(m) == k, CNT(m) == FM(m) + 1)), KEYF(m), CNT(m), k)),
        ('encodings', FA([m, i], Imp(And(min_, within(i, 0, v.n)), ENC(m, i) == enc(v[i])), ENC(m, i), v[i])),
        ('first match', FA([m], Imp(min_, Or(And(FM(m) == -1, FA([i], Imp(within(i, 0, v.n), enc(v[i]) != OE(k)), v[i])),
                                             And(within(FM(m), 0, v.n), enc(v[FM(m)]) == OE(k), FA([i], Imp(within(i, 0, FM(m)), enc(v[i]) != OE(k)), v[i])))), FM(m), k))]


def wpre(S):
    p = S.program
    m, i, x = V('m'), V('i'), IV()
    k = p.key(m)
    v = p[k]
    word = lambda t: And(t >= 0, t < 2 ** 32)
    return [('words', And(p.n < 2 ** 32, FA([m], Imp(within(m, 0, p.n), And(word(k), v.n < 2 ** 32)), k), FA([m, i], Imp(And(within(m, 0, p.n), within(i, 0, v.n)), word(enc(v[i]))), v[i])))]


def table_pre(S):
    p, o = S.program, S.original_program
    m = V('m')
    k = p.key(m)
    return wpre(S) + [('every address has its original', FA([m], Imp(within(m, 0, p.n), And(o.has(k), o[k].n >= 1, OE(k) == enc(o[k][0]))), k))]


def list_pre(S):
    p, o = S.program, S.original_program
    m, i = V('m'), V('i')
    k = p.key(m)
    return wpre(S) + rules.distinct_addr(o) + [
        ('every address has its original', FA([m], Imp(within(m, 0, p.n), ex_(0, o.n, lambda i: addr(o[i]) == k)), k)),
        ('encoding of the original', FA([i], Imp(within(i, 0, o.n), OE(addr(o[i])) == enc(o[i])), o[i]))]


def file_(L):
    loop = isinstance(L, LoopState)
    return wrap(L._th if loop else L.th, (L._ctx if loop else L.ctx).files[0])


def fields(L):
    return file_(L).fields


def found(m):
    q = V('q')
    return FA([q], Imp(within(q, 0, m), FM(q) >= 0), FM(q), PF(q))


def wouter(L):
    f, m = fields(L), L.idx
    return [('as many fields as the entries so far have', f.n == PF(m))] + header(f, L.program.n) + filled(f, m) + [('every address so far has its original among its candidates', found(m))]


def wsearch(L):
    m, i = L.up.idx, V('i')
    v = L.v
    return [('not found yet', And(L.index == L.idx, L.ori == -1, FA([i], Imp(within(i, 0, L.idx), enc(v[i]) != OE(KEYF(m))), v[i])))]


def wwrite(L):
    f, m, i = fields(L), L.up.idx, V('i')
    return [('as many fields as written', f.n == PF(m) + 2 + L.idx)] + header(f, L.program.n) + filled(f, m) + [
        ('this entry', And(*entry(f, m))), ('its encodings so far', FA([i], Imp(within(i, 0, L.idx), is_(f[PF(m) + 2 + i], INT_, ENC(m, i))), ENC(m, i)))]


def wpost(S):
    f, p = fields(S), S.o.program
    return [('nothing but the entries is written', f.n == PF(p.n))] + header(f, p.n) + filled(f, p.n) + [('every address has its original among its candidates', found(p.n))]


def writer(name, T, pre):
    return Contract(M + 'SolutionWriter.write_binary', {'self': ObjOf(M + 'SolutionWriter'), 'file_name': Str, 'original_program': T, 'program': PROG}, NoneT, name=name,
                    pre=pre, defs=wdefs, lemmas=lambda S: plemmas(S.program.n), post=wpost,
                    raises={'RuntimeError': lambda S: ex_(0, S.o.program.n, lambda q: FM(q) < 0)},
                    loops=[Loop(inv=wouter), Loop(inv=wsearch), Loop(inv=wwrite)])


WTAB = writer('write_binary (originals in a table)', PROG, table_pre)
WLIST = writer('write_binary (originals in a list)', ListOf(INST), list_pre)


# ------------------------------------------------------------------------------------------ reader
def rpre(S):
    f = S.ctx.file_content()
    q, r = V('q'), V('r')
    ok = MAGIC_READ == MAGIC
    return [('the file has eight bytes', And(f.n >= 1, is_(f[0], LONG, MAGIC_READ)))] + [(n, Imp(ok, e)) for n, e in [
            ('all the fields are there', And(NE >= 0, f.n == PF(NE), is_(f[1], INT_, NE))),
            ('every entry has a candidate', FA([q], Imp(within(q, 0, NE), CNT(q) >= 1), CNT(q))),
            ('addresses are distinct', FA([q, r], Imp(And(within(q, 0, NE), within(r, 0, NE), KEYF(q) == KEYF(r)), q == r), [KEYF(q), KEYF(r)]))] + filled(f, NE)]


def got(p, o, m):
    q, i, a = V('q'), V('i'), V('a')
    qin = within(q, 0, m)
    v, w = p[KEYF(q)], o[KEYF(q)]
    return [('as many addresses', And(p.n == m, o.n == m)),
            ('in the order of the file', FA([q], Imp(qin, And(p.has(KEYF(q)), o.has(KEYF(q)), p.key(q) == KEYF(q))), KEYF(q), PF(q))),
            ('no other address', FA([a], Imp(p.has(a), And(within(p.pos(a), 0, m), KEYF(p.pos(a)) == a)), p.pos(a), p.has(a))),
            ('no other original', FA([a], Imp(o.has(a), p.has(a)), o.has(a))),
            ('as many candidates', FA([q], Imp(qin, v.n == CNT(q)), CNT(q), KEYF(q))),
            ('the candidates of the file', FA([q, i], Imp(And(qin, within(i, 0, CNT(q))), And(enc(v[i]) == ENC(q, i), addr(v[i]) == KEYF(q))), [KEYF(q), v[i]], [KEYF(q), ENC(q, i)])),
            ('the original is the last one', FA([q], Imp(qin, And(w.n == 1, enc(w[0]) == ENC(q, CNT(q) - 1), addr(w[0]) == KEYF(q))), KEYF(q)))]


def router(L):
    return [('the next entry is read', And(file_(L).where == PF(L.idx), MAGIC_READ == MAGIC))] + got(L.program, L.original, L.idx)


def rpre_(L):
    """the entry that is read now lies inside the file"""
    f, m = L._ctx.file_content(), L.idx
    return [('the entry lies inside the file', And(PF(m) >= 2, PF(m) + 2 + CNT(m) <= f.n, CNT(m) >= 1)), ('its address and count', And(*entry(f, m)))]


def cpre(L):
    f, m = L._ctx.file_content(), L.up.idx
    return [('the encoding lies in the file', And(is_(f[PF(m) + 2 + L.idx], INT_, ENC(m, L.idx)), PF(m) + 2 + L.idx < f.n))]


def rcomp(L):
    m, i = L.up.idx, V('i')
    c = L.comp_result
    return [('the next encoding is read', And(file_(L).where == PF(m) + 2 + L.idx, L.count == CNT(m))), ('as many as read', c.n == L.idx),
            ('the candidates so far', FA([i], Imp(within(i, 0, L.idx), And(enc(c[i]) == ENC(m, i), addr(c[i]) == KEYF(m))), c[i], ENC(m, i)))]


READ = Contract(M + 'SolutionReader.read', {'self': ObjOf(M + 'SolutionReader'), 'file_name': Str}, TupleOf(PROG, PROG), name='read', comps=True,
                pre=rpre, defs=lambda S: pdefs(NE), lemmas=lambda S: [Ind(l.name, 0, z3.If(And(MAGIC_READ == MAGIC, NE >= 0), NE, 0), l.P, pat=PF) for l in plemmas(NE)],
                raises={'RuntimeError': lambda S: MAGIC_READ != MAGIC},
                post=lambda S: got(S.r[1], S.r[0], NE),
                loops=[Loop(inv=router, pre=rpre_, types={'program': PROG, 'original': PROG}), Loop(inv=rcomp, pre=cpre, types={'comp_result': ListOf(INST)})])
ALL = [WTAB, WLIST, READ]
