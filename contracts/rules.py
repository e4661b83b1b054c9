"""Contracts of semantic_codec/metadata/probabilistic_rules/rules.py (conversions) and architecture/functions.py."""
from .lib import *

M = 'semantic_codec.metadata.probabilistic_rules.rules:'
F = 'semantic_codec.architecture.functions:ElfFunction'
addr = lambda x: ia('address', x)
# the entries of a table are opaque tokens that remember their key: the conversion cannot look into them
ENTRY = Opaque('Entry')
KEY = z3.Function('key_of_entry', opaque_sort('Entry'), z3.IntSort())


def d2l_post(S):
    p, r = S.o.program, S.r
    i, j = V('i'), V('j')
    return [('as many entries as the table', r.n == p.n),
            ('every entry of the list is one of the table', FA([i], Imp(within(i, 0, r.n), And(p.has(KEY(r[i])), p[KEY(r[i])] == r[i])))),
            ('in strictly ascending order of address', FA([i, j], Imp(And(i >= 0, i < j, j < r.n), KEY(r[i]) < KEY(r[j]))))]


def d2l_pre(S):
    a = V('a')
    return [FA([a], Imp(S.program.has(a), KEY(S.program[a]) == a), S.program[a])]


D2L = Contract(M + 'from_instruction_dict_to_list', {'program': MapOf(Int, ENTRY)}, ListOf(ENTRY), name='from_instruction_dict_to_list',
               pre=d2l_pre, post=d2l_post)


def l2d(L, r, n):
    i, a = V('i'), V('a')
    return [('every instruction has its single-candidate entry', FA([i], Imp(within(i, 0, n), And(
        r.has(addr(L[i])), r[addr(L[i])].n == 1, r[addr(L[i])][0] == L[i])))),
        ('nothing else is in the table', FA([a], Imp(r.has(a), ex_(0, n, lambda k: addr(L[k]) == a)))), ('one entry per instruction', r.n == n),
        ('in the order of the list', FA([i], Imp(within(i, 0, n), r.key(i) == addr(L[i])), addr(L[i])))]


L2D = Contract(M + 'from_instruction_list_to_dict', {'instructions': ListOf(INST)}, MapOf(Int, ListOf(INST)), name='from_instruction_list_to_dict',
               pre=lambda S: distinct_addr(S.instructions), post=lambda S: l2d(S.o.instructions, S.r, S.o.instructions.n),
               loops=[Loop(types={'result': MapOf(Int, ListOf(INST))}, inv=lambda L: l2d(L.o.instructions, L.result, L.idx))])


def distinct_addr(L):
    i, j = V('i'), V('j')
    return [FA([i, j], Imp(And(i >= 0, i < j, j < L.n), addr(L[i]) != addr(L[j])))]


FT = ObjOf(F, instructions=ListOf(INST))


def start(f):
    return z3.If(f.instructions.n > 0, addr(f.instructions[0]), 0)


def final(f):
    return z3.If(f.instructions.n > 0, addr(f.instructions[0]) + 4 * f.instructions.n - 4, 0)


LEN = Contract(F + '.length_in_bytes', {'self': FT}, Int, name='ElfFunction.length_in_bytes',
               post=lambda S: [('four bytes per instruction', S.r == 4 * S.o.self.instructions.n)])
START = Contract(F + '.start_addr', {'self': FT}, Int, name='ElfFunction.start_addr', post=lambda S: [('the address of the first instruction', S.r == start(S.o.self))])
FINAL = Contract(F + '.final_addr', {'self': FT}, Int, name='ElfFunction.final_addr',
                 post=lambda S: [('the address of the last instruction', S.r == final(S.o.self))])

OFF = z3.Function('off', z3.IntSort(), z3.IntSort())


def flat_defs(S):
    f, k = S.functions, V('k')
    j = V('j')
    return [OFF(0) == 0, FA([k], Imp(within(k, 0, f.n), OFF(k + 1) == OFF(k) + f[k].instructions.n), OFF(k))]


def starts(f, m, n):
    k, a = V('k'), V('a')
    return [('every function has its bounds', FA([k], Imp(within(k, 0, n), And(
        m.has(start(f[k])), m[start(f[k])][0] == start(f[k]), m[start(f[k])][1] == final(f[k]))))),
        ('no other address is the start of a function', FA([a], Imp(m.has(a), ex_(0, n, lambda k: start(f[k]) == a))))]


def flat(f, res, n):
    k, j = V('k'), V('j')
    return FA([k, j], Imp(And(within(k, 0, n), within(j, 0, f[k].instructions.n)),
                          And(OFF(k) + j < res.n, OFF(k) >= 0, res[OFF(k) + j] == f[k].instructions[j])))


def fpost(S):
    f, r, m = S.o.functions, S.r[0], S.r[1]
    k, j, i, i2 = V('k'), V('j'), V('i'), V('i')
    return [('as many instructions as all the functions together', r.n == OFF(f.n)),
            ('every instruction of every function is in the list', FA([k, j], Imp(
                And(within(k, 0, f.n), within(j, 0, f[k].instructions.n)),
                sorted_at(r, OFF(k) + j, r.n, lambda x: r[x] == f[k].instructions[j])))),
            ('in ascending order of address', FA([i, i2], Imp(And(i >= 0, i < i2, i2 < r.n), addr(r[i]) <= addr(r[i2]))))] + starts(f, m, f.n)


def fpre(S):
    f = S.functions
    a, b = V('a'), V('b')
    return [FA([a, b], Imp(And(a >= 0, a < b, b < f.n), start(f[a]) != start(f[b])))]


FLAT = Contract(M + 'from_functions_to_list_and_addr', {'functions': ListOf(FT)}, TupleOf(ListOf(INST), MapOf(Int, TupleOf(Int, Int))),
                name='from_functions_to_list_and_addr', defs=flat_defs, pre=fpre, post=fpost,
                loops=[Loop(types={'result': ListOf(INST), 'fns': MapOf(Int, TupleOf(Int, Int))},
                            inv=lambda L: [('the instructions so far', And(L.result.n == OFF(L.idx), flat(L.o.functions, L.result, L.idx)))] +
                            starts(L.o.functions, L.fns, L.idx)),
                       Loop(types={'result': ListOf(INST)},
                            inv=lambda L: [('the instructions so far', And(L.result.n == OFF(L.up.idx) + L.idx, flat(L.o.functions, L.result, L.up.idx),
                                all_(0, L.idx, lambda j: L.result[OFF(L.up.idx) + j] == L.o.functions[L.up.idx].instructions[j])))])])
CONV = [D2L, L2D, LEN, START, FINAL, FLAT]
ALL = CONV
