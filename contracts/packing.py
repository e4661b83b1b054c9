"""Contracts of the successive-packing order in semantic_codec/interleaver/interleaver2d.py (C06)."""
from .lib import *

M = 'semantic_codec.interleaver.interleaver2d:'
I = z3.IntSort()
P2 = z3.Function('pow2', I, I)                    # the power of two of the language
SP = z3.Function('packing', I, I, I, I)           # SP(n, j, i): the packing of exponent n at row j, column i
RW = z3.Function('packing_row', I, I, I)          # RW(n, v), CL(n, v): where v is in the packing of exponent n
CL = z3.Function('packing_column', I, I, I)
MK = z3.Function('exponent', I, z3.BoolSort())     # marks the exponents at which the equations of the powers are used


def quad(n, j, i):
    """the number of the quadrant of the packing of exponent n + 1"""
    w = P2(n)
    return z3.If(j < w, z3.If(i < w, 0, 2), z3.If(i < w, 3, 1))


def less(n, x):
    return z3.If(x < P2(n), x, x - P2(n))


def sdefs(S=None):
    n, m, j, i, v = V('n'), V('m'), V('j'), V('i'), V('v')
    nn, nx = n >= 0, And(n >= 0, m == n + 1)
    q = v % 4
    return [('packing: single', SP(0, 0, 0) == 0), ('packing: quadrants', FA([n, m, j, i], Imp(nx, SP(m, j, i) == 4 * SP(n, less(n, j), less(n, i)) + quad(n, j, i)), [MK(n), SP(m, j, i)])),
            ('places: single', FA([v], And(RW(0, v) == 0, CL(0, v) == 0), RW(0, v), CL(0, v))),
            ('places: quadrants', FA([n, m, v], Imp(nx, And(RW(m, v) == RW(n, v / 4) + z3.If(Or(q == 1, q == 3), P2(n), 0), CL(m, v) == CL(n, v / 4) + z3.If(Or(q == 1, q == 2), P2(n), 0))), [MK(n), RW(m, v)], [MK(n), CL(m, v)])),
            ('powers', And(P2(0) == 1, FA([n], And(MK(n), Imp(nn, And(P2(n + 1) == 2 * P2(n), P2(n) >= 1, P2(2 * (n + 1)) == 4 * P2(2 * n)))), MK(n))))]


def slemmas(S):
    j, i, v = V('j'), V('i'), V('v')

    def there(n):
        x = SP(n, j, i)
        return And(MK(n), FA([j, i], Imp(And(within(j, 0, P2(n)), within(i, 0, P2(n))), And(x >= 0, x < P2(2 * n), RW(n, x) == j, CL(n, x) == i)), SP(n, j, i)))

    def back(n):
        a, b = RW(n, v), CL(n, v)
        return And(MK(n), FA([v], Imp(within(v, 0, P2(2 * n)), And(a >= 0, a < P2(n), b >= 0, b < P2(n), SP(n, a, b) == v)), RW(n, v), CL(n, v)))
    def mono(n):
        k = V('k')
        return And(MK(n), FA([k], Imp(within(k, 0, n + 1), And(P2(k) <= P2(n), P2(k) >= 1)), P2(k)))
    return [Ind('powers grow', 0, None, mono, pat=MK), Ind('numbers and their places', 0, None, there, pat=MK), Ind('every number has a place', 0, None, back, pat=MK)]


def cells(g, upto, f):
    j, i = V('j'), V('i')
    return FA([j, i], Imp(And(within(j, 0, upto), within(i, 0, upto)), f(j, i)), g[j][i])


def eq(g, j, i, v):
    return g[j][i] == z3.ToReal(v)


def size(L):
    """the exponent the loops stand at"""
    while L.up is not None:
        L = L.up
    return L.idx + 1


def shape(L):
    w = P2(L.m)
    return [('the shape', And(L.matrix.r == w, L.matrix.c == w))] + ([('exponent', And(MK(size(L)), MK(size(L) + 1), MK(L.m)))] if hasattr(L, 'up') and L.up is not None else [('exponent', And(MK(L.idx), MK(L.idx + 1), MK(L.m)))])


def quads(phase, inner):
    """the quadrants while the phase-th of them (upper right, lower left, lower right, upper left) is filled column by column"""
    def inv(L):
        n, w = size(L), P2(size(L))
        j, i = V('j'), V('i')

        def q(name, r, c, k, at):
            """the quadrant at rows r.., columns c..: which of its cells are there"""
            if at < phase:
                done = z3.BoolVal(True)
            elif at > phase:
                done = z3.BoolVal(False)
            else:
                done = Or(i < c + L.up.idx, And(i == c + L.up.idx, j < r + L.idx)) if inner else i < c + L.idx
            here = And(j >= r, j < r + w, i >= c, i < c + w)
            new = eq(L.matrix, j, i, 4 * SP(n, j - r, i - c) + k)
            old = eq(L.matrix, j, i, SP(n, j, i))
            return (name, FA([j, i], Imp(here, z3.If(done, new, old) if k == 0 else Imp(done, new)), L.matrix[j][i]))
        return shape(L) + [q('upper right', 0, w, 2, 0), q('lower left', w, 0, 3, 1), q('lower right', w, w, 1, 2), q('upper left', 0, 0, 0, 3)]
    return inv


CORNER = ((0, 1, 2), (1, 0, 3), (1, 1, 1), (0, 0, 0))      # of the quadrants in the order they are filled: rows, columns, number


def cell(phase):
    def pre(L):
        n, j, i = size(L), L.idx, L.up.idx
        return [('the cell it comes from', eq(L.matrix, j, i, SP(n, j, i)))]

    def end(L):
        n, j, i = size(L), L.idx0, L.up.idx
        r, c, k = CORNER[phase]
        return [('the cell it goes to', eq(L.matrix, j + r * P2(n), i + c * P2(n), 4 * SP(n, j, i) + k))]
    return dict(pre=pre, end=end)


SPK = Contract(M + 'sucesive_packing', {'m': Int}, Grid(), name='sucesive_packing', defs=sdefs, lemmas=slemmas, defs_ok=True, ground_pow2=True,
               post=lambda S: [('the shape', And(S.r.r == P2(z3.If(S.m > 0, S.m, 0)), S.r.c == P2(z3.If(S.m > 0, S.m, 0)))),
                               ('the packing', cells(S.r, P2(z3.If(S.m > 0, S.m, 0)), lambda j, i: eq(S.r, j, i, SP(z3.If(S.m > 0, S.m, 0), j, i))))],
               loops=[Loop(inv=lambda L: shape(L) + [('the packing so far', cells(L.matrix, P2(L.idx + 1), lambda j, i: eq(L.matrix, j, i, SP(L.idx + 1, j, i))))], types={'matrix': Grid()}),
                      *[Loop(inv=quads(ph, inn), types={'matrix': Grid()}, **(cell(ph) if inn else {})) for ph in range(4) for inn in (False, True)]])
SPL = [SPK]

# ------------------------------------------------------------------------------------------ several packings, row by row
R = z3.RealSort()
LOG4 = z3.Function('log_4', R, R)
AR = z3.ArraySort(I, I)
AR2 = z3.ArraySort(I, AR)
sel, st = z3.Select, z3.Store
zero, zero2 = (lambda L: z3.K(I, z3.IntVal(0))), (lambda L: z3.K(I, z3.K(I, z3.IntVal(0))))


def ldefs(S=None):
    p = V('p')
    n = z3.ToInt(LOG4(z3.ToReal(p)))
    return sdefs() + [('the logarithm', FA([p], Imp(p >= 1, And(n >= 0, P2(2 * n) <= p, MK(n))), LOG4(z3.ToReal(p))))]


class G:
    """the ghosts of the matrices: exponents, first numbers, and the matrix of a number"""

    def __init__(self, e, b, mt, n, mats, upto):
        self.e, self.b, self.mt, self.n, self.mats, self.upto = e, b, mt, n, mats, upto

    def size(self, i):
        return P2(sel(self.e, i))

    def count(self, i):
        return P2(2 * sel(self.e, i))

    def cell(self, i, r, c):
        return SP(sel(self.e, i), r, c) + sel(self.b, i)

    def facts(self):
        i, k, r, c, v = V('i'), V('k'), V('r'), V('c'), V('v')
        e, b, mt, m = self.e, self.b, self.mt, self.mats
        here = within(i, 0, self.n)
        t = sel(mt, v)
        return [('number of matrices', And(m.n == self.n, self.n >= 0)),
                ('exponents', FA([i], Imp(here, And(sel(e, i) >= 0, MK(sel(e, i)))), sel(e, i))),
                ('exponents do not grow', FA([i, k], Imp(And(within(i, 0, self.n), within(k, 0, self.n), i <= k), sel(e, i) >= sel(e, k)), [sel(e, i), sel(e, k)])),
                ('shapes', FA([i], Imp(here, And(m[i].r == self.size(i), m[i].c == self.size(i))), sel(e, i))),
                ('cells', FA([i, r, c], Imp(And(here, within(r, 0, self.size(i)), within(c, 0, self.size(i))), m[i][r][c] == z3.ToReal(self.cell(i, r, c))), m[i][r][c])),
                ('numbers of a matrix', FA([i], Imp(here, And(sel(b, i) >= 0, sel(b, i) + self.count(i) <= self.upto)), sel(b, i))),
                ('the matrix of a number', FA([v], Imp(within(v, 0, self.upto), And(t >= 0, t < self.n, sel(b, t) <= v, v < sel(b, t) + self.count(t))), t)),
                ('only one matrix', FA([i, v], Imp(And(here, v >= sel(b, i), v < sel(b, i) + self.count(i)), t == i), [sel(b, i), t]))]


def matrices(L, pre=''):
    g = L.g
    return G(g[pre + 'e'], g[pre + 'b'], g[pre + 'mt'], L.matrices.n, L.matrices, L.current_package_index)


def mark(L, old, i, lo, hi):
    """the numbers from lo to hi are those of matrix i"""
    ctx = L._ctx
    a = z3.Const(ctx.name('mt'), AR)
    v = V('v')
    ctx.assume(('the new numbers', FA([v], sel(a, v) == z3.If(And(v >= lo, v < hi), i, sel(old, v)), sel(a, v))))
    return a


def winv(L):
    g = matrices(L)
    i = V('i')
    return g.facts() + [('packets to go', And(L.packets >= 0, L.current_package_index >= 0, L.current_package_index + L.packets == L.o.packets)), ('the first is a number', sel(g.b, 0) >= 0),
                        ('what is left fits in a matrix', FA([i], Imp(within(i, 0, g.n), L.packets < g.count(i)), sel(g.e, i)))]


def base(L):
    return L.up.start.current_package_index


def kinit(name):
    def f(L):
        u, i, n = L.up.g, L.matrices.n - 1, L['n']
        if name == 'e':
            return st(u['e'], i, n)
        if name == 'b':
            return st(u['b'], i, base(L))
        return mark(L, u['mt'], i, base(L), L.current_package_index)
    return f


def knext(name):
    def f(L, L2):
        i, n, cpi = L.start.matrices.n, L['n'], L.start.current_package_index
        if name == 'e':
            return st(L.g['ke'], i, n)
        if name == 'b':
            return st(L.g['kb'], i, cpi)
        return mark(L, L.g['kmt'], i, cpi, L2.current_package_index)
    return f


def kinv(L):
    g, i, n = matrices(L, 'k'), V('i'), L['n']
    return g.facts() + [('all have at least this exponent', FA([i], Imp(within(i, 0, g.n), sel(g.e, i) >= n), sel(g.e, i))), ('there is a matrix', And(g.n >= 1, n >= 0, MK(n))),
                        ('numbers so far', And(base(L) >= 0, L.current_package_index == base(L) + P2(2 * n) * (L.idx + 1))), ('the first is a number', sel(g.b, 0) >= 0)]


def filled(m, value, inner, before=None):
    """the cells of a matrix of exponent n, row by row"""
    def inv(L):
        g, n = getattr(L, m), L['n']
        r, c = V('r'), V('c')
        done = Or(r < L.up.idx, And(r == L.up.idx, c < L.idx)) if inner else r < L.idx
        here = And(within(r, 0, P2(n)), within(c, 0, P2(n)))
        new = eq(g, r, c, value(L, r, c))
        return [('shape', And(g.r == P2(n), g.c == P2(n))), ('cells so far', FA([r, c], Imp(here, z3.If(done, new, eq(g, r, c, before(L, r, c))) if before is not None else Imp(done, new)), g[r][c]))]
    return inv


def other(L, r, c):
    k = L.up.idx if L.up.up.up is None else L.up.up.idx
    return SP(L['n'], r, c) + base(top(L)) + P2(2 * L['n']) * (k + 1)


def top(L):
    """the loop whose enclosing loop is the outermost one"""
    while L.up.up is not None:
        L = L.up
    return L


FIRSTM = ('m1', lambda L, r, c: SP(L['n'], r, c) + L.current_package_index)
PACK = dict(types={'packets': Int, 'current_package_index': Int, 'matrices': ListOf(Grid()), 'm1': Grid(), 'mi': Grid(), 'result': ListOf(ListOf(Real)), 'flat_result': ListOf(Real)})


def kafter(L):
    n, mc, pim = L['n'], L.matrix_count, L.packets_in_matrix
    return [('a multiple', And(mc >= 1, (mc - 1) * pim >= 0)), ('all packets of this size', L.current_package_index == base(L) + pim * mc)]


def mafter(L):
    n, g, i = L['n'], matrices(L.up), V('i')
    return [('its exponent', And(n >= 0, MK(n), MK(2 * n), P2(2 * n) <= L.packets)),
            ('none is smaller than this', FA([i], Imp(within(i, 0, L.matrices.n), sel(g.e, i) >= n), sel(g.e, i)), Only('its exponent', 'what is left fits in a matrix', 'exponents', 'powers grow'))]


def wend(L):
    n, mc, pim, old, g = L['n'], L.matrix_count, L.packets_in_matrix, L.start.packets, matrices(L)
    i = V('i')
    return [('one matrix is at most all of them', And(mc >= 1, pim == P2(2 * n), pim >= 1, pim <= pim * mc), Only('a multiple', 'powers', 'the logarithm')),
            ('no more than these', And(pim * mc <= old, old < pim * mc + pim), Only('a multiple')),
            ('what is left', And(L.packets == old - pim * mc, L.packets < P2(2 * n)), Only('one matrix is at most all of them', 'no more than these')),
            ('none is smaller', FA([i], Imp(within(i, 0, g.n), P2(2 * n) <= g.count(i)), sel(g.e, i)), Only('powers grow', 'all have at least this exponent', 'powers', 'there is a matrix'))]


MATS = [Loop(inv=winv, end=wend, dec=lambda L: L.packets, ghosts={'e': (Raw(AR), zero, lambda L, L2: L2._ctx.ghosts.get('ke', L.g['e'])), 'b': (Raw(AR), zero, lambda L, L2: L2._ctx.ghosts.get('kb', L.g['b'])), 'mt': (Raw(AR), zero, lambda L, L2: L2._ctx.ghosts.get('kmt', L.g['mt']))}, **PACK),
        Loop(inv=filled(*FIRSTM, False, lambda L, r, c: SP(L['n'], r, c)), after=mafter, **PACK), Loop(inv=filled(*FIRSTM, True, lambda L, r, c: SP(L['n'], r, c)), **PACK),
        Loop(inv=kinv, after=kafter, ghosts={'ke': (Raw(AR), kinit('e'), knext('e')), 'kb': (Raw(AR), kinit('b'), knext('b')), 'kmt': (Raw(AR), kinit('mt'), knext('mt'))}, **PACK),
        Loop(inv=filled('mi', other, False), **PACK), Loop(inv=filled('mi', other, True), **PACK)]


# the rows of the matrices in turn
def mats(L):
    g = (L._ctx if hasattr(L, '_ctx') else L.ctx).ghosts
    return g


def rows(L, g, t, ri, rn, n, i):
    """t[i][n]: where row n of matrix i is in the result; ri, rn: the row at a place. All rows below n and those of the first i matrices at n are there"""
    x, a, r, c = V('x'), V('a'), V('r'), V('c')
    res = L.result
    e = lambda a: sel(g['e'], a)
    cnt = g['cnt']
    here = within(x, 0, res.n)
    A, B = sel(ri, x), sel(rn, x)
    at = sel(sel(t, a), r)
    return [('rows', FA([x], Imp(here, And(A >= 0, A < cnt, B >= 0, B < P2(e(A)), Or(B < n, And(B == n, A < i)), sel(sel(t, A), B) == x)), A, B)), ('their length', FA([x], Imp(here, res[x].n == P2(e(A))), A, B)),
            ('numbers in the rows', FA([x, c], Imp(And(here, within(c, 0, P2(e(A)))), res[x][c] == z3.ToReal(SP(e(A), B, c) + sel(g['b'], A))), res[x][c])),
            ('every row so far', FA([a, r], Imp(And(within(a, 0, cnt), r >= 0, r < P2(e(a)), Or(r < n, And(r == n, a < i))), And(at >= 0, at < res.n, sel(ri, at) == a, sel(rn, at) == r)), at))]


def rinv(L):
    g = dict(L._ctx.ghosts, cnt=L.matrices.n)
    return rows(L, g, L.g['t'], L.g['ri'], L.g['rn'], L.idx, 0)


def rinv2(L):
    g = dict(L._ctx.ghosts, cnt=L.matrices.n)
    return rows(L, g, L.g['t2'], L.g['ri2'], L.g['rn2'], L.up.idx, L.idx)


def rnext(name):
    def f(L, L2):
        e = sel(L._ctx.ghosts['e'], L.idx)
        there, x, old = P2(e) > L.up.idx, L.start.result.n, L.g[name]
        if name == 't2':
            new = st(old, L.idx, st(sel(old, L.idx), L.up.idx, x))
        else:
            new = st(old, x, L.idx if name == 'ri2' else L.up.idx)
        return z3.If(there, new, old)
    return f


def up(name):
    return lambda L: L.up.g[name]


def down(name):
    return lambda L, L2: L2._ctx.ghosts[name]


ROWS = [Loop(inv=rinv, ghosts={'t': (Raw(AR2), zero2, down('t2')), 'ri': (Raw(AR), zero, down('ri2')), 'rn': (Raw(AR), zero, down('rn2'))}, **PACK),
        Loop(inv=rinv2, ghosts={'t2': (Raw(AR2), up('t'), rnext('t2')), 'ri2': (Raw(AR), up('ri'), rnext('ri2')), 'rn2': (Raw(AR), up('rn'), rnext('rn2'))}, **PACK)]


def place(g, v):
    """the row of the result that has number v, and its column"""
    i = sel(g['mt'], v)
    x = v - sel(g['b'], i)
    n = sel(g['e'], i)
    return sel(sel(g['t'], i), RW(n, x)), CL(n, x)


def numbered(g, real, f):
    """the real number is a whole one and has the property"""
    v = z3.ToInt(real)
    return And(z3.ToReal(v) == real, f(v))


def rowfacts(g, res):
    x, c = V('x'), V('c')
    A, B = sel(g['ri'], x), sel(g['rn'], x)
    n = SP(sel(g['e'], A), B, c) + sel(g['b'], A)
    here = And(within(x, 0, res.n), within(c, 0, res[x].n))
    return [('a number of its matrix', FA([x, c], Imp(here, And(z3.ToInt(res[x][c]) == n, res[x][c] == z3.ToReal(n), n >= sel(g['b'], A), n < sel(g['b'], A) + P2(2 * sel(g['e'], A)))), res[x][c])),
            ('of that matrix only', FA([x, c], Imp(here, sel(g['mt'], n) == A), res[x][c]))]


def inrows(g, res, P):
    v, x, c = V('v'), V('x'), V('c')
    r, k = place(g, v)
    return [('every number is in the rows', FA([v], Imp(within(v, 0, P), And(r >= 0, r < res.n, k >= 0, k < res[r].n, res[r][k] == z3.ToReal(v))), sel(g['mt'], v))),
            ('only numbers of packets, each at its place', FA([x, c], Imp(And(within(x, 0, res.n), within(c, 0, res[x].n)), numbered(g, res[x][c], lambda v: And(v >= 0, v < P, place(g, v)[0] == x, place(g, v)[1] == c))), res[x][c]))]


def bhints(S):
    return rowfacts(S.ctx.ghosts, S.r)


def rafter(L):
    g = dict(L._ctx.ghosts, **L.g)
    return rowfacts(g, L.result) + inrows(g, L.result, L.o.packets)


def finv(L):
    g, off, res, fl = L._ctx.ghosts, L.g['off'], L.result, L.flat_result
    x, c, q, v = V('x'), V('c'), V('q'), V('v')
    P = L.o.packets
    return [('rows so far', FA([x], Imp(within(x, 0, L.idx), And(sel(off, x) >= 0, res[x].n >= 0, sel(off, x) + res[x].n <= fl.n)), sel(off, x))),
            ('their numbers', FA([x, c], Imp(And(within(x, 0, L.idx), within(c, 0, res[x].n)), fl[sel(off, x) + c] == res[x][c]), res[x][c])),
            ('only numbers of the rows so far', FA([q], Imp(within(q, 0, fl.n), numbered(g, fl[q], lambda v: And(v >= 0, v < P, place(g, v)[0] < L.idx, sel(off, place(g, v)[0]) + place(g, v)[1] == q))), fl[q]))]


FLAT = [Loop(inv=finv, ghosts={'off': (Raw(AR), zero, lambda L, L2: st(L.g['off'], L.idx, L.start.flat_result.n))}, **PACK)]


def fpost(S):
    g, P, v, q = S.ctx.ghosts, S.o.packets, V('v'), V('q')

    def at(v):
        r, k = place(g, v)
        return sel(g['off'], r) + k
    return [('every number is in the result', FA([v], Imp(within(v, 0, P), And(at(v) >= 0, at(v) < S.r.n, S.r[at(v)] == z3.ToReal(v))), sel(g['mt'], v))),
            ('only numbers of packets, each at its place', FA([q], Imp(within(q, 0, S.r.n), numbered(g, S.r[q], lambda v: And(v >= 0, v < P, at(v) == q))), S.r[q]))]


def bpost(S):
    return inrows(S.ctx.ghosts, S.r, S.o.packets)


BLD = Contract(M + 'build_2d_interleave_sp', {'packets': Int, 'flat': Const(False)}, ListOf(ListOf(Real)), name='build_2d_interleave_sp (rows)', pre=lambda S: [('some packets', S.packets >= 1)],
               defs=ldefs, lemmas=slemmas, hints=bhints, post=bpost, loops=MATS + ROWS, ground_pow2=True)
FROWS = [Loop(inv=rinv, ghosts=ROWS[0].ghosts, after=rafter, **PACK), ROWS[1]]
BLF = Contract(M + 'build_2d_interleave_sp', {'packets': Int, 'flat': Const(True)}, ListOf(Real), name='build_2d_interleave_sp (flat)', pre=lambda S: [('some packets', S.packets >= 1)],
               defs=ldefs, lemmas=slemmas, post=fpost, loops=MATS + FROWS + FLAT, ground_pow2=True)
BL = [BLD]
BF = [BLF]
ALL = SPL + BL + BF
