"""Contracts of the scoring in semantic_codec/metadata/recuperator.py (C14)."""
from .lib import *
from . import meta
from .meta import NC, NO, NS, OC

M = 'semantic_codec.metadata.recuperator:'
R = M + 'ProbabilisticRecuperator.'
KEYS = ('pc', 'pr', 'prd', 'po', 'pcfg', 'pupo', 'pbd')


def probs(d):
    i = V('i')
    return FA([i], Imp(within(i, 0, d.n), And(d[d.key(i)] >= 0, d[d.key(i)] <= 1)))


def zero(d):
    i = V('i')
    return ex_(0, d.n, lambda i: d[d.key(i)] == 0)


COMB = [Contract(M + f, {'scores_dict': MapOf(Str, Real), 'inst': INST}, Real, name=f, pre=lambda S: [('partial scores are probabilities', probs(S.scores_dict))],
                 post=lambda S: [('a probability', And(S.r >= 0, S.r <= 1)), ('zero only for a zero score or an invalid instruction', Imp(S.r == 0, Or(zero(S.o.scores_dict), ia('ignore', S.inst))))],
                 loops=l) for f, l in (('probabilistic_rules', []), ('probabilistic_rules_remove_step', [Loop(inv=lambda L: [('lowest so far', And(L.lo >= 0, L.lo <= 2, Or(L.lo > 0, zero(L.scores_dict))))], types={'lo': Real})]))]

# ------------------------------------------------------------------------------------------ partial scores
# The tables inst.scores_by_rule of all instructions are one ghost table of the object: ghost_scores[inst][name].
X = opaque_sort('Inst')
ORG = z3.Function('is_original', X, z3.BoolSort())
HEAP = MapOf(INST, MapOf(Str, Real))
CNTS = MapOf(Int, Int)
PROG = MapOf(Int, ListOf(INST))
MODEL = ('low_probability', 'high_probability', 'push_given_pop_at_fn_end_equal_registers', 'push_given_pop_at_fn_end', 'push_given_pop_at_fn_middle',
         'branch_after_cpsr_and_near_cond_are_equals', 'branch_after_cpsr_and_prev_cond_are_equals', 'branch_after_cpsr_and_after_cond_are_equals', 'branch_after_cpsr',
         'both_conditionals_are_equals', 'prev_conditionals_are_equals', 'just_any_jump_is_valid', 'branch_to_this_method', 'branch_to_other_method_start')
MT = ObjOf('semantic_codec.metadata.probabilistic_model:DefaultProbabilisticModel', **{m: Real for m in MODEL})
CT = ObjOf('semantic_codec.metadata.metadata_collector:MetadataCollector', _condition_count=CNTS, _instruction_count=CNTS, _storage_count=CNTS, _storage_min_dist=CNTS, _storage_max_dist=CNTS)
PT = ObjOf('semantic_codec.metadata.metadata_collector:CorruptedProgramMetadataCollector', address_with_cond=CNTS, address_with_op=CNTS, address_with_reg=CNTS)
FNS = MapOf(Int, TupleOf(Int, Int))
SELF = ObjOf(M + 'ProbabilisticRecuperator', _collector=CT, _program=PROG, _functions=FNS, _model=MT, passes=Int, ghost_scores=HEAP)
cond, op = (lambda x: ia('conditional_field', x)), (lambda x: ia('opcode_field', x))
valid = lambda x: Not(ia('ignore', x))


def inv(S):
    """all the partial scores assigned so far"""
    h = S.self.ghost_scores
    x, s = IV(), SV(S)
    return [('every instruction has its scores', FA([x], h.has(x), h.has(x))),
            ('partial scores are probabilities', FA([x, s], Imp(h[x].has(s), And(h[x][s] >= 0, h[x][s] <= 1)), h[x].has(s), h[x][s])),
            ('no score of an original is zero', FA([x, s], Imp(And(ORG(x), h[x].has(s)), h[x][s] > 0), h[x].has(s), h[x][s]))]


def model(S):
    m = S.self._model
    return [('the model gives positive probabilities', And(*[And(getattr(m, a) > 0, getattr(m, a) <= 1) for a in MODEL] + [m.branch_after_cpsr < 1, 2 * m.just_any_jump_is_valid <= 1]))]


def known(S, got, had, f):
    k = V('k')
    return [('counts are positive', FA([k], And(Imp(got.has(k), got[k] > 0), Imp(had.has(k), had[k] > 0)), got.has(k), had.has(k), got[k], had[k])),
            ('not more instructions than addresses have the value', FA([k], Imp(And(got.has(k), had.has(k)), got[k] <= had[k]), got.has(k), had.has(k))),
            ('the value of an original is counted', Imp(ORG(S.inst), And(got.has(f(S.inst)), had.has(f(S.inst)))))]


def scorer(name, params, pre, loops=(), post=None, **kw):
    ps = {'self': SELF, 'inst': INST}
    ps.update(params)
    return Contract(R + name, ps, NoneT, name=name, modifies=('self.ghost_scores',), pre=lambda S: inv(S) + model(S) + pre(S), post=lambda S: inv(S) + (post(S) if post else []), loops=list(loops), **kw)


CPMD = {'cpmd': PT}
COND = scorer('_compute_conditional', CPMD, lambda S: known(S, S.self._collector._condition_count, S.cpmd.address_with_cond, cond))
OPC = scorer('_compute_opcode', CPMD, lambda S: known(S, S.self._collector._instruction_count, S.cpmd.address_with_op, op))


def storages(S):
    k, q = V('k'), V('q')
    got, had, x = S.self._collector._storage_count, S.cpmd.address_with_reg, S.inst
    u = ilist('storages_used', x, q)
    return [('counts are positive', FA([k], And(Imp(got.has(k), got[k] > 0), Imp(had.has(k), had[k] > 0)), got.has(k), had.has(k), got[k], had[k])),
            ('the storages of an original are counted', Imp(ORG(x), FA([q], Imp(within(q, 0, ilist_n('storages_used', x)), And(got.has(u), had.has(u))), u)))]


REG = scorer('_compute_registers', CPMD, storages, [Loop(inv=lambda L: [('a positive probability', And(L.av > 0, L.av <= 1))], types={'av': Real})])


def functions(S):
    f, p, a, b = S.self._functions, S.self._program, V('a'), V('b')
    return [('functions are contiguous', FA([a, b], Imp(And(f.has(a), a <= b, b <= f[a][1], (b - a) % 4 == 0), p.has(b)), [f.has(a), p.has(b)])),
            ('functions end behind their start', FA([a], Imp(f.has(a), And(f[a][1] >= a, (f[a][1] - a) % 4 == 0, p.has(a), p.has(f[a][1]))), f.has(a)))]


def ratio(L):
    return [('some of the candidates', And(0 <= L.c, L.c <= L.t))]


OPP = Contract(R + '_op_prob_and_check_equal_registers', {'self': SELF, 'opcode': Str, 'addr': Int, 'push_reg_readed': ListOf(Int)}, TupleOf(Real, Bool), name='_op_prob_and_check_equal_registers',
               pre=lambda S: [('the address is there', S.self._program.has(S.addr))], post=lambda S: [('a probability', And(S.r[0] >= 0, S.r[0] <= 1))],
               loops=[Loop(inv=ratio, types={'c': Int, 't': Int, 'reg_equals_inst': Bool}), Loop(inv=lambda L: []), Loop(inv=lambda L: [])])


def here(S):
    p, i = S.self._program, V('i')
    return [('the address is there', And(p.has(S.addr), p[S.addr].n >= 1))]


def pushes(L):
    return [('counts', And(0 <= L.cp1, L.cp1 <= L.tp1, 0 <= L.cb1, L.cb1 <= L.tb1, L.tb1 == L.tp1, 0 <= L.cb2, L.cb2 <= L.tb2)), ('a ratio', L.p2 >= 0)]


PUSH = scorer('_compute_push_pop', {'cpmd': PT, 'addr': Int, 'current_fn': Int}, lambda S: here(S) + functions(S) + [('the function is there', S.self._program.has(S.current_fn))],
              [Loop(inv=pushes, types={k: Int for k in ('cb1', 'cp1', 'tb1', 'tp1', 'cb2', 'tb2')} | {'p2': Real}), Loop(inv=lambda L: pushes(L)[:0] + [('counts', And(0 <= L.cp1, L.cp1 <= L.tp1, 0 <= L.cb1, L.cb1 <= L.tb1, L.tb1 == L.tp1))], types={k: Int for k in ('cb1', 'cp1', 'tb1', 'tp1')})])


def before(L):
    return [('candidates before', And(0 <= L.union_count, L.union_count <= L.same_cond, L.union_count <= L.flag_mod, L.same_cond <= L.ln_prev, L.flag_mod <= L.ln_prev,
                                      L.same_cond + L.flag_mod - L.union_count <= L.ln_prev, L.ln_prev <= L.idx))]


CFG = scorer('_compute_proper_cfg', {'cpmd': PT, 'addr': Int}, lambda S: [],
             [Loop(inv=before, types={k: Int for k in ('union_count', 'same_cond', 'flag_mod', 'ln_prev')}),
              Loop(inv=lambda L: [('candidates behind', And(0 <= L.after_same_cond, L.after_same_cond <= L.ln_post))], types={k: Int for k in ('after_same_cond', 'ln_post')})])
DIST = scorer('_compute_register_distance', {'cpmd': PT, 'addr': Int}, lambda S: [],
              [Loop(inv=lambda L: [('a probability so far', And(L.prd >= 0, L.prd <= 1))], types={'prd': Real}), Loop(inv=lambda L: [('a probability so far', And(L.p >= 0, L.p <= 1))], types={'p': Real}),
               Loop(inv=lambda L: [('some of the candidates', And(0 <= L.count, L.count <= L.t))], types={'count': Int, 't': Int})])
JUMP = scorer('_compute_branch_address', {'current_fn': Int, 'lowest_addr': Int, 'highest_addr': Int}, lambda S: [('the function has its bounds', S.self._functions.has(S.current_fn))])
PARTIAL = [COND, OPC, REG, OPP, PUSH, CFG, DIST, JUMP]

# ------------------------------------------------------------------------------------------ all instructions of a program


ORI = z3.Function('original', z3.IntSort(), X)           # the original at the i-th address of the program
ORJ = z3.Function('original_at', z3.IntSort(), z3.IntSort())
QC, QO, QS = (z3.Function('original_' + n, z3.IntSort(), z3.IntSort(), z3.IntSort()) for n in ('conditions', 'opcodes', 'storages'))
used, nused = (lambda x, q: ilist('storages_used', x, q)), (lambda x: ilist_n('storages_used', x))


def prog(S):
    return (S.o if hasattr(S, 'o') else S).self._program


class As:
    """the arguments of another contract"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def rdefs(S):
    p = prog(S)
    i, k, j, x = V('i'), V('k'), V('j'), IV()
    out = meta.pdefs(As(program=p))
    for Q, f in ((QC, lambda x, k: z3.If(cond(x) == k, 1, 0)), (QO, lambda x, k: z3.If(op(x) == k, 1, 0)), (QS, lambda x, k: OC(x, nused(x), k))):
        out += [FA([k], Q(0, k) == 0, Q(0, k)), FA([i, k], Imp(within(i, 0, p.n), Q(i + 1, k) == Q(i, k) + z3.If(valid(ORI(i)), f(ORI(i), k), 0)), Q(i, k), Q(i + 1, k))]
    return out + [FA([x], nused(x) >= 0, nused(x)), FA([x, k], OC(x, 0, k) == 0, OC(x, 0, k)), FA([x, j, k], Imp(within(j, 0, nused(x)), OC(x, j + 1, k) == OC(x, j, k) + z3.If(used(x, j) == k, 1, 0)), OC(x, j, k), OC(x, j + 1, k)),
                  ('originals', FA([x], ORG(x) == ex_(0, p.n, lambda i: And(ORI(i) == x, valid(x))), ORG(x)))]


def counted(d, Q, n):
    k = V('k')
    return FA([k], And(d.has(k) == (Q(n, k) > 0), Imp(d.has(k), d[k] == Q(n, k))), d.has(k), d[k])


def rpre(S):
    s = S.self
    p, f, i = s._program, s._functions, V('i')
    return inv(S) + model(S) + functions(S) + [
        ('there is a program', p.n >= 1),
        ('the originals are among the candidates', FA([i], Imp(within(i, 0, p.n), And(within(ORJ(i), 0, p[p.key(i)].n), p[p.key(i)][ORJ(i)] == ORI(i))), ORI(i), ORJ(i))),
        ('metadata of the originals: conditions', counted(s._collector._condition_count, QC, p.n)),
        ('metadata of the originals: opcodes', counted(s._collector._instruction_count, QO, p.n)),
        ('metadata of the originals: storages', counted(s._collector._storage_count, QS, p.n)),
        ('a function starts at the lowest address', FA([i], Imp(And(within(i, 0, p.n), all_(0, p.n, lambda j: p.key(i) <= p.key(j))), f.has(p.key(i))), p.key(i)))]


def rlemmas(S):
    p = prog(S)
    i, k, j, q, x, m = V('i'), V('k'), V('j'), V('q'), IV(), V('m')

    def occ(j):
        return FA([x, k], Imp(j <= nused(x), OC(x, j, k) >= 0), OC(x, j, k))

    def occ1(j):
        return FA([x, q], Imp(And(within(q, 0, j), j <= nused(x)), OC(x, j, used(x, q)) > 0), OC(x, j, used(x, q)))

    def nonneg(i):
        return FA([k], And(QS(i, k) >= 0, NS(i, k) >= 0), QS(i, k), NS(i, k))

    def most(Q, N):
        return lambda i: FA([k], And(Q(i, k) >= 0, Q(i, k) <= N(i, k)), Q(i, k), N(i, k))

    def some(Q, f):
        return lambda i: FA([m, k], Imp(And(within(m, 0, i), valid(ORI(m)), f(ORI(m)) == k), Q(i, k) > 0), [ORI(m), Q(i, k)])

    def stor(N):
        return lambda i: FA([m, q], Imp(And(within(m, 0, i), valid(ORI(m)), within(q, 0, nused(ORI(m)))), N(i, used(ORI(m), q)) > 0), used(ORI(m), q))
    return [Ind('occurrences', 0, None, occ), Ind('used ones occur', 0, None, occ1), Ind('storages of originals', 0, p.n, nonneg), Ind('conditions of originals', 0, p.n, most(QC, NC)), Ind('opcodes of originals', 0, p.n, most(QO, NO)),
            Ind('every condition counts', 0, p.n, some(QC, cond)), Ind('every opcode counts', 0, p.n, some(QO, op)), Ind('every storage counts', 0, p.n, stor(QS)), Ind('every storage is there', 0, p.n, stor(NS))]


BAR = Contract('semantic_codec.report.print_progress:TextProgressBar.progress', {'self': ObjOf('semantic_codec.report.print_progress:TextProgressBar')}, NoneT, name='progress', trusted=True)


def at(L):
    p = L.self._program
    return [('the current function', And(L.self._functions.has(L.current_fn), p.has(L.current_fn)))]


def of_orig(L):
    """what the metadata and the candidates have of an original"""
    s, q = L.self, V('q')
    x = L.it[L.idx]
    u = used(x, q)
    g = lambda N: Imp(ORG(x), FA([q], Imp(within(q, 0, nused(x)), N(s._program.n, u) > 0), u))
    return [('its storages are counted', g(QS), Only('every storage counts', 'originals')),
            ('its storages are there', g(NS), Only('every storage is there', 'originals'))]


RECOVER = Contract(R + '_recover', {'self': SELF, 'progress_bar': ObjOf('semantic_codec.report.print_progress:TextProgressBar')}, NoneT, name='ProbabilisticRecuperator._recover', modifies=('self.ghost_scores',),
                   pre=rpre, defs=rdefs, lemmas=rlemmas, post=inv,
                   loops=[Loop(inv=lambda L: inv(L) + at(L), types={'self.ghost_scores': HEAP, 'current_fn': Int}), Loop(inv=inv, types={'self.ghost_scores': HEAP}, pre=of_orig)])
MODELS = [Contract('semantic_codec.metadata.probabilistic_model:DefaultProbabilisticModel.__init__', {'self': MT}, NoneT, name='DefaultProbabilisticModel.__init__',
                   modifies=tuple('self.' + a for a in MODEL), post=lambda S: model(type('', (), {'self': type('', (), {'_model': S.self})})))]
REC = [RECOVER] + MODELS
ALL = COMB + PARTIAL + REC + [BAR]
