"""Contracts of semantic_codec/metadata/metadata_collector.py."""
from .lib import *

M = 'semantic_codec.metadata.metadata_collector:'
CNTS = MapOf(Int, Int)
I1 = z3.IntSort()
valid = lambda x: Not(ia('ignore', x))
cond = lambda x: ia('conditional_field', x)
op = lambda x: ia('opcode_field', x)


def cnt(d, k):
    """the count in the table, zero when absent"""
    return z3.If(d.has(k), d[k], 0)


def incpost(S):
    k = V('k')
    o, d = S.o.d, S.d
    return [('one more for the key', FA([k], And(d.has(k) == Or(o.has(k), k == S.o.key), Imp(d.has(k), d[k] == cnt(o, k) + z3.If(k == S.o.key, 1, 0))), d.has(k), d[k]))]


INC = Contract(M + '_inc_key', {'d': CNTS, 'key': Int}, NoneT, name='_inc_key', modifies=('d',), post=incpost)

# ------------------------------------------------------------------ presence by address
HC = z3.Function('has_condition', I1, I1, z3.BoolSort())
HO = z3.Function('has_opcode', I1, I1, z3.BoolSort())
HS = z3.Function('has_storage', I1, I1, z3.BoolSort())
NC = z3.Function('addresses_with_condition', I1, I1, I1)
NO = z3.Function('addresses_with_opcode', I1, I1, I1)
NS = z3.Function('addresses_with_storage', I1, I1, I1)
PROG = MapOf(Int, ListOf(INST))


def uses(x, s):
    return ex_(0, ilist_n('storages_used', x), lambda q: ilist('storages_used', x, q) == s)


def pdefs(S):
    p = S.program
    i, k = V('i'), V('k')
    cands = lambda i: p[p.key(i)]
    out = []
    for N, H, f in ((NC, HC, lambda x, k: cond(x) == k), (NO, HO, lambda x, k: op(x) == k), (NS, HS, uses)):
        out += [FA([k], N(0, k) == 0, N(0, k)),
                FA([i, k], Imp(within(i, 0, p.n), N(i + 1, k) == N(i, k) + z3.If(H(i, k), 1, 0)), N(i, k), N(i + 1, k)),
                FA([i, k], Imp(within(i, 0, p.n), H(i, k) == ex_(0, cands(i).n, lambda j: And(valid(cands(i)[j]), f(cands(i)[j], k)))), H(i, k))]
    return out


def table(d, N, i):
    k = V('k')
    return FA([k], And(d.has(k) == (N(i, k) > 0), Imp(d.has(k), d[k] == N(i, k))), d.has(k), d[k], N(i, k))


def plemmas(S):
    p = (S.o if hasattr(S, 'o') else S).program

    def pos(N):
        def P(i):
            k = V('k')
            return FA([k], N(i, k) >= 0, N(i, k))
        return P
    return [Ind('counts are not negative (%s)' % n, 0, p.n, pos(N), pat=None) for n, N in (('conditions', NC), ('opcodes', NO), ('storages', NS))]


def pinv(L):
    s = L.self
    return [('conditions', table(s.address_with_cond, NC, L.idx)), ('opcodes', table(s.address_with_op, NO, L.idx)), ('storages', table(s.address_with_reg, NS, L.idx))]


def seen(L, n, extra=None):
    """what the candidates before the n-th (and the first `extra` storages of the n-th) have"""
    c = L.o.program[L.o.program.key(L.up.idx if extra is None else L.up.up.idx)]
    k = V('k')
    ex = lambda f: ex_(0, n, lambda j: And(valid(c[j]), f(c[j])))
    s = lambda k: ex(lambda x: uses(x, k))
    if extra is not None:
        s0 = s
        s = lambda k: Or(s0(k), ex_(0, extra, lambda q: ilist('storages_used', c[n], q) == k))
    e = (lambda f: ex(f)) if extra is None else (lambda f: Or(ex(f), f(c[n])))
    return [('conditions of the address', FA([k], L.cond.has(k) == e(lambda x: cond(x) == k), L.cond.has(k))),
            ('opcodes of the address', FA([k], L.op.has(k) == e(lambda x: op(x) == k), L.op.has(k))),
            ('storages of the address', FA([k], L.reg.has(k) == s(k), L.reg.has(k)))]


def keys(which):
    def inv(L):
        i = L.up.idx
        s = L.self
        out = []
        for n, (nm, N, d, loc) in enumerate((('conditions', NC, s.address_with_cond, L.cond), ('opcodes', NO, s.address_with_op, L.op), ('storages', NS, s.address_with_reg, L.reg))):
            k = V('k')
            if n < which:
                out.append((nm + ' done', table(d, N, i + 1)))
            elif n > which:
                out.append((nm + ' to do', table(d, N, i)))
            else:
                v = lambda k: N(i, k) + z3.If(And(loc.has(k), loc.pos(k) < L.idx), 1, 0)
                out.append((nm + ' so far', FA([k], And(d.has(k) == (v(k) > 0), Imp(d.has(k), d[k] == v(k))), d.has(k), d[k], N(i, k))))
        return out
    return inv


def ppost(S):
    s, n = S.self, S.o.program.n
    return [('conditions are counted once per address', table(s.address_with_cond, NC, n)), ('opcodes are counted once per address', table(s.address_with_op, NO, n)),
            ('storages are counted once per address', table(s.address_with_reg, NS, n))]


CT = {'self.address_with_cond': CNTS, 'self.address_with_op': CNTS, 'self.address_with_reg': CNTS}
LT = {'cond': CNTS, 'op': CNTS, 'reg': CNTS}
PRES = Contract(M + 'CorruptedProgramMetadataCollector.collect',
                {'self': ObjOf(M + 'CorruptedProgramMetadataCollector', address_with_cond=CNTS, address_with_op=CNTS, address_with_reg=CNTS), 'program': PROG},
                NoneT, name='CorruptedProgramMetadataCollector.collect', modifies=('self.address_with_cond', 'self.address_with_op', 'self.address_with_reg'),
                defs=pdefs, lemmas=plemmas, post=ppost,
                loops=[Loop(inv=pinv, types=CT), Loop(inv=lambda L: seen(L, L.idx), types=LT), Loop(inv=lambda L: seen(L, L.up.idx, L.idx), types=LT),
                       Loop(inv=keys(0), types=CT), Loop(inv=keys(1), types=CT), Loop(inv=keys(2), types=CT)])

# ------------------------------------------------------------------ counts, distinct encodings and read distances of a program
N_ST = 20                                       # storages 0..19 (AReg.STORAGE_COUNT)
enc = lambda x: ia('encoding', x)
CC = z3.Function('count_condition', I1, I1, I1)
CO = z3.Function('count_opcode', I1, I1, I1)
CS = z3.Function('count_storage', I1, I1, I1)
OC = z3.Function('occurrences', opaque_sort('Inst'), I1, I1, I1)       # OC(x, j, k): occurrences of k among the first j storages of x
RD = z3.Function('reads', opaque_sort('Inst'), I1, z3.BoolSort())
WT = z3.Function('writes', opaque_sort('Inst'), I1, z3.BoolSort())
VC = z3.Function('valid_before', I1, I1)
PW = z3.Function('pending_write', I1, I1, I1)   # PW(i, s): the last write of s before instruction i that has not been read since, or -1
NEW = z3.Function('new_encoding', I1, z3.BoolSort())
SD = z3.Function('sum_of_distances', I1, I1, I1)
ND = z3.Function('number_of_distances', I1, I1, I1)
MIN = z3.Function('least_distance', I1, I1, I1)
MAX = z3.Function('greatest_distance', I1, I1, I1)


def event(p, i, s):
    """instruction i is the first read of s after a write"""
    return And(valid(p[i]), RD(p[i], s), PW(i, s) >= 0)


def dist(i, s):
    return VC(i) - VC(PW(i, s) + 1)


def cdefs(S):
    p = S.instructions
    i, k, j, s, q = V('i'), V('k'), V('j'), V('s'), V('q')
    x = IV()
    c = lambda N, f: [FA([k], N(0, k) == 0, N(0, k)), FA([i, k], Imp(within(i, 0, p.n), N(i + 1, k) == N(i, k) + z3.If(valid(p[i]), f(p[i], k), 0)), N(i, k), N(i + 1, k))]
    one = lambda f: lambda x, k: z3.If(f(x) == k, 1, 0)
    su = lambda x, j: ilist('storages_used', x, j)
    nsu = lambda x: ilist_n('storages_used', x)
    return c(CC, one(cond)) + c(CO, one(op)) + c(CS, lambda x, k: OC(x, nsu(x), k)) + [
        FA([x, k], OC(x, 0, k) == 0, OC(x, 0, k)), FA([x, j, k], Imp(within(j, 0, nsu(x)), OC(x, j + 1, k) == OC(x, j, k) + z3.If(su(x, j) == k, 1, 0)), OC(x, j, k), OC(x, j + 1, k)),
        FA([x, s], RD(x, s) == ex_(0, ilist_n('storages_read', x), lambda q: ilist('storages_read', x, q) == s), RD(x, s)),
        FA([x, s], WT(x, s) == ex_(0, ilist_n('storages_written', x), lambda q: ilist('storages_written', x, q) == s), WT(x, s)),
        VC(0) == 0, FA([i], Imp(within(i, 0, p.n), VC(i + 1) == VC(i) + z3.If(valid(p[i]), 1, 0)), VC(i), VC(i + 1)),
        FA([s], PW(0, s) == -1, PW(0, s)),
        FA([i, s], Imp(within(i, 0, p.n), PW(i + 1, s) == z3.If(Not(valid(p[i])), PW(i, s), z3.If(WT(p[i], s), i, z3.If(RD(p[i], s), -1, PW(i, s))))), PW(i, s), PW(i + 1, s)),
        FA([s], And(SD(0, s) == 0, ND(0, s) == 0), SD(0, s), ND(0, s)),
        FA([i, s], Imp(within(i, 0, p.n), And(SD(i + 1, s) == SD(i, s) + z3.If(event(p, i, s), dist(i, s), 0), ND(i + 1, s) == ND(i, s) + z3.If(event(p, i, s), 1, 0))), SD(i, s), ND(i, s), SD(i + 1, s), ND(i + 1, s)),
        FA([i], Imp(within(i, 0, p.n), NEW(i) == And(valid(p[i]), all_(0, i, lambda j: Or(Not(valid(p[j])), enc(p[j]) != enc(p[i]))))), NEW(i))]


def fresh_filter(S):
    return Filter('distinct', lambda i: NEW(i), S.instructions.n)


def clemmas(S):
    o = S.o if hasattr(S, 'o') else S
    p = o.instructions

    def pos(N):
        def P(i):
            k = V('k')
            return FA([k], N(i, k) >= 0, N(i, k))
        return P

    def pend(i):
        s = V('s')
        return And(VC(i) >= 0, FA([s], And(PW(i, s) >= -1, PW(i, s) < i), PW(i, s)))

    def none(i):
        s = V('s')
        return FA([s], And(ND(i, s) >= 0, Imp(ND(i, s) == 0, SD(i, s) == 0)), ND(i, s))

    def seen(i):
        j = V('j')
        return FA([j], Imp(And(within(j, 0, i), valid(p[j])), ex_(0, i, lambda q: And(NEW(q), enc(p[q]) == enc(p[j])))), p[j])
    return [Ind('the last write', 0, p.n, pend, pat=VC), Ind('no distances add up to nothing', 0, p.n, none), Ind('every encoding is first met somewhere', 0, p.n, seen, pat=fresh_filter(o).c, local=True)] + fresh_filter(o).lemmas()


def cdefs2(S):
    return cdefs(S) + fresh_filter(S).defs()


def ctable(d, old, N, i):
    k = V('k')
    return And(FA([k], And(N(i, k) >= 0, d.has(k) == Or(old.has(k), N(i, k) > 0), Imp(d.has(k), d[k] == cnt(old, k) + N(i, k))), d.has(k), d[k], N(i, k)))


PARTS = ('entries', 'sums', 'bounds', 'least is attained', 'greatest is attained', 'numbers')


def distances(lo, hi, me, i, s, p, part, total):
    """the tables of storage s after the events before instruction i; total(v): sum and number of distances"""
    e = V('e')
    d = lambda e: dist(e, s)
    if part == 'entries':
        return And(me.has(s) == (ND(i, s) > 0), lo.has(s) == (ND(i, s) > 0), hi.has(s) == (ND(i, s) > 0))
    if part == 'sums':
        return Imp(me.has(s), total(me[s], SD(i, s), ND(i, s)))
    if part == 'bounds':
        return FA([e], Imp(And(within(e, 0, i), event(p, e, s)), And(ND(i, s) > 0, lo[s] <= d(e), hi[s] >= d(e))), PW(e, s))
    if part == 'least is attained':
        return Imp(ND(i, s) > 0, ex_(0, i, lambda e: And(event(p, e, s), lo[s] == d(e))))
    if part == 'greatest is attained':
        return Imp(ND(i, s) > 0, ex_(0, i, lambda e: And(event(p, e, s), hi[s] == d(e))))
    return ND(i, s) >= 0


def dparts(L, p, at):
    """at(s): list of (condition, i)"""
    lo, hi, me = L.self._storage_min_dist, L.self._storage_max_dist, L.storage_mean_dist
    s, k = V('s'), V('k')
    return [('distances: ' + part, FA([s], And(*[Imp(c, distances(lo, hi, me, i, s, p, part, lambda v, a, b: And(v[0] == a, v[1] == b))) for c, i in at(s)]))) for part in PARTS] + [
        ('only storages have entries', FA([k], Imp(Or(me.has(k), lo.has(k), hi.has(k)), within(k, 0, N_ST)), me.has(k), lo.has(k), hi.has(k)))]


def state(L, i, s, p, read=False):
    """defined/dist of storage s before instruction i, or (read) after the reads of instruction i"""
    w = z3.If(RD(p[i], s), -1, PW(i, s)) if read else PW(i, s)
    v = VC(i) + 1 if read else VC(i)
    return And(L.defined[s] == (w >= 0), Imp(w >= 0, L.dist[s] == v - VC(w + 1)))


def shape(L):
    return [('sizes', And(L.defined.n == N_ST + 1, L.dist.n == N_ST + 1))]


def ost(f, n=N_ST):
    s = V('s')
    return FA([s], Imp(within(s, 0, n), f(s)))


def eno(L, i):
    p = L.o.instructions
    f = fresh_filter(L.o)
    k = V('k')
    return [('distinct encodings: number', And(L.encodings.n == f.c(i), L.self.empty_spaces.n == f.c(i))), ('distinct encodings', And(FA([k], Imp(within(k, 0, f.c(i)), And(
        L.encodings[k] == enc(p[f.at(k)]), L.self.empty_spaces[k] == p[f.at(k)])), f.at(k), L.encodings[k], L.self.empty_spaces[k])))]


def cinv(L):
    p, i = L.o.instructions, L.idx
    s = L.self
    return shape(L) + [('conditions', ctable(s._condition_count, L.o.self._condition_count, CC, i)), ('opcodes', ctable(s._instruction_count, L.o.self._instruction_count, CO, i)),
                       ('storages', ctable(s._storage_count, L.o.self._storage_count, CS, i)),
                       ('pending writes', ost(lambda s: state(L, i, s, p)))] + dparts(L, p, lambda s: [(within(s, 0, N_ST), i)]) + eno(L, i)


def step_new(L):
    p, i = L.o.instructions, L.idx
    f = fresh_filter(L.o)
    q = V('q')
    old = EX([q], And(within(q, 0, i), NEW(q), enc(p[q]) == enc(p[i])))
    steps = ['every encoding is first met somewhere', ('met before', Imp(And(valid(p[i]), Not(NEW(i))), old)),
             ('listed', FA([q], Imp(And(within(q, 0, i), NEW(q)), And(within(f.c(q), 0, f.c(i)), L.encodings[f.c(q)] == enc(p[q]))), NEW(q)))]
    return [('new exactly if not listed', Imp(valid(p[i]), NEW(i) == all_(0, L.encodings.n, lambda k: L.encodings[k] != enc(p[i]))), steps)]


def cinv_used(L):
    p, i = L.o.instructions, L.up.idx
    k = V('k')
    d, o = L.up.self._storage_count, L.o.self._storage_count
    x = p[i]
    n = lambda k: CS(i, k) + OC(x, L.idx, k)
    return [('storages so far', FA([k], And(n(k) >= 0, OC(x, L.idx, k) >= 0, d.has(k) == Or(o.has(k), n(k) > 0), Imp(d.has(k), d[k] == cnt(o, k) + n(k))), d.has(k), d[k], CS(i, k), OC(x, L.idx, k)))]


def cinv_read(L):
    p, i = L.o.instructions, L.up.idx
    t = L.idx
    s = V('s')
    return shape(L) + [('storages whose reads were looked at', FA([s], Imp(within(s, 0, t), state(L, i, s, p, True)))),
                       ('storages to come', FA([s], Imp(within(s, t, N_ST), state(L, i, s, p))))] + dparts(
                           L, p, lambda s: [(within(s, 0, t), i + 1), (within(s, t, N_ST), i)])


def step_read(L):
    p, i, t = L.o.instructions, L.up.idx, L.idx
    ev, me = event(p, i, t), L.storage_mean_dist
    return [('one more distance if this is a first read', And(SD(i + 1, t) == SD(i, t) + z3.If(ev, dist(i, t), 0), ND(i + 1, t) == ND(i, t) + z3.If(ev, 1, 0))),
            ('nothing to add up', Imp(ND(i, t) == 0, SD(i, t) == 0)),
            ('sums before it', Imp(me.has(t), And(me[t][0] == SD(i, t), me[t][1] == ND(i, t))))]


def end_read(L):
    p, i, t = L.o.instructions, L.up.idx, L.idx0
    ev, me = event(p, i, t), L.storage_mean_dist
    return [('sums after it', Imp(me.has(t), And(me[t][0] == SD(i + 1, t), me[t][1] == ND(i + 1, t))))]


def cinv_written(L):
    p, i = L.o.instructions, L.up.idx
    s = V('s')
    w = lambda s: ex_(0, L.idx, lambda q: ilist('storages_written', p[i], q) == s)
    return shape(L) + [('written ones are pending, the others as they were', ost(lambda s: z3.If(w(s), And(L.defined[s], L.dist[s] == 0), state(L, i, s, p, True)))),
                       ]


def cinv_mean(L):
    p = L.o.instructions
    me, out = L.storage_mean_dist, L.self._storage_mean_dist
    s = V('s')
    done = lambda s: And(me.has(s), me.pos(s) < L.idx)
    return [('means so far', FA([s], And(out.has(s) == done(s), Imp(done(s), out[s] * z3.ToReal(me[s][1]) == z3.ToReal(me[s][0]))), out.has(s), out[s]))]


def cpost(S):
    s, o, p, n = S.self, S.o.self, S.o.instructions, S.o.instructions.n
    out = [('conditions', ctable(s._condition_count, o._condition_count, CC, n)), ('opcodes', ctable(s._instruction_count, o._instruction_count, CO, n)),
           ('storages', ctable(s._storage_count, o._storage_count, CS, n))]
    r = s.empty_spaces
    j, k = V('j'), V('k')
    f = fresh_filter(S.o)
    out += [('the distinct encodings are in descending order', FA([j, k], Imp(And(within(j, 0, r.n), within(k, 0, r.n), j < k), enc(r[j]) > enc(r[k])))),
            ('every encoding is listed', FA([j], Imp(And(within(j, 0, n), valid(p[j])), ex_(0, r.n, lambda k: enc(r[k]) == enc(p[j]))))),
            ('only instructions of the program are listed', FA([k], Imp(within(k, 0, r.n), ex_(0, n, lambda j: And(valid(p[j]), r[k] == p[j])))))]

    lo, hi, me = s._storage_min_dist, s._storage_max_dist, s._storage_mean_dist
    return out + [('distances: ' + part, ost(lambda s: distances(lo, hi, me, n, s, p, part, lambda v, a, b: v * z3.ToReal(b) == z3.ToReal(a)))) for part in PARTS] + [
        ('only storages have entries', FA([k], Imp(Or(me.has(k), lo.has(k), hi.has(k)), within(k, 0, N_ST))))]


def chints(S):
    p, r, q, j = S.o.instructions, S.self.empty_spaces, V('q'), V('j')
    f = fresh_filter(S.o)
    return [('the first instruction of every encoding is listed', FA([q], Imp(And(within(q, 0, p.n), NEW(q)), sorted_at(r, f.c(q), r.n, lambda k: r[k] == p[q])), NEW(q))),
            ('every encoding is first met somewhere', And(f.c(p.n) >= 0, FA([j], Imp(And(within(j, 0, p.n), valid(p[j])), ex_(0, p.n, lambda q: And(NEW(q), enc(p[q]) == enc(p[j])))), p[j])),
             ['every encoding is first met somewhere'])]


REALS = MapOf(Int, Real)
CFIELDS = dict(_storage_count=CNTS, _condition_count=CNTS, _instruction_count=CNTS, _storage_min_dist=CNTS, _storage_max_dist=CNTS, _storage_mean_dist=REALS,
               empty_spaces=ListOf(INST))
CTYPES = {'self._storage_count': CNTS, 'self._condition_count': CNTS, 'self._instruction_count': CNTS, 'self._storage_min_dist': CNTS, 'self._storage_max_dist': CNTS,
          'self._storage_mean_dist': REALS, 'self.empty_spaces': ListOf(INST), 'encodings': ListOf(Int), 'dist': ListOf(Int), 'defined': ListOf(Bool),
          'storage_mean_dist': MapOf(Int, TupleOf(Int, Int))}


def cpre(S):
    x, q, k = IV(), V('q'), V('k')
    s = S.self
    return [FA([x, q], Imp(within(q, 0, ilist_n('storages_written', x)), within(ilist('storages_written', x, q), 0, N_ST)), ilist('storages_written', x, q)),
            FA([k], And(Not(s._storage_min_dist.has(k)), Not(s._storage_max_dist.has(k)), Not(s._storage_mean_dist.has(k))))]


COLL = Contract(M + 'MetadataCollector.collect', {'self': ObjOf(M + 'MetadataCollector', **CFIELDS), 'instructions': ListOf(INST)}, NoneT, name='MetadataCollector.collect',
                modifies=tuple('self.' + f for f in CFIELDS), pre=cpre, defs=cdefs2, lemmas=clemmas, post=cpost, hints=chints, defs_ok='once',
                loops=[Loop(inv=cinv, types=CTYPES, pre=step_new), Loop(inv=cinv_used, types=CTYPES), Loop(inv=cinv_read, types=CTYPES, pre=step_read, end=end_read), Loop(inv=cinv_written, types=CTYPES), Loop(inv=cinv_mean, types=CTYPES)])
ALL = [INC, PRES, COLL]
