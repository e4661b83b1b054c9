"""Symbolic interpreter: statements, expressions, loops, calls."""
import copy as _copy
from .engine import *
from . import engine as _E


def has_quant(e, _c={}):
    k = e.get_id()
    if z3.is_quantifier(e):
        return True
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


class Ctx:
    def __init__(self, eng, prefix):
        self.eng, self.th = eng, eng.th
        self.prefix, self.trace, self.pending = list(prefix), [], []
        self.pc = []           # (kind, expr)
        self.local_lemmas = {}
        self.defined_once = []
        self.named = {}       # latest fact assumed under each name
        self.fresh_n = 0
        self.frames = []
        self.loops = []
        self.univ_done = set()
        self.sub_rec = True
        self.depth = 0
        self.aid = 0
        self.top = None
        self.solver = z3.Solver()
        self.solver.set('timeout', eng.feas_ms)
        self.lstates = []
        self.ghosts = {}
        self.files = []
        self.noforks = 0
        self.curline = 0
        self.old_top = {}
        self.cells = []
        self.escaped = []
        self.lamvars = ()

    # ------------------------------------------------------------ path machinery
    def assume(self, e, kind='a'):
        if isinstance(e, W):
            e = e.v
        if isinstance(e, bool):
            if not e:
                raise Kill()
            return
        if isinstance(e, tuple):
            n, e = e[0], e[-1]
            self.named[n] = e.v if isinstance(e, W) else e
            return self.assume(e, kind)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Kill()
        self.pc.append((kind, e))
        if not has_quant(e):
            self.solver.add(e)

    def feasible(self, e):
        r = self.solver.check(e)
        return r != z3.unsat

    def choose(self, n):
        """n-way nondeterministic choice"""
        pos = len(self.trace)
        if pos < len(self.prefix):
            c = self.prefix[pos]
        else:
            c = 0
            for a in range(1, n):
                self.pending.append(self.trace + [a])
        self.trace.append(c)
        return c

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        pos = len(self.trace)
        if pos < len(self.prefix):
            c = self.prefix[pos]
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond))
            if not t and not f:
                raise Kill()
            if t and f:
                self.pending.append(self.trace + [0])
            c = 1 if t else 0
        self.trace.append(c)
        self.assume(cond if c else z3.Not(cond), 'd')
        return bool(c)

    @property
    def recording(self):
        return self.sub_rec and len(self.trace) >= len(self.prefix)

    def oblige(self, name, goal, line=None, kind='vc', assume=True):
        if isinstance(goal, W):
            goal = goal.v
        base = only = label = None
        if isinstance(goal, tuple):
            label = goal[0]
            if len(goal) > 2 and isinstance(goal[2], Only):
                # the other quantified facts are left out
                only = [e for _, e in self.pc if not has_quantifier(e)] if goal[2].ground else []
                for st in goal[2].names:
                    e = self.local_lemmas.get(st, self.named.get(st))
                    if e is None:
                        continue        # not assumed on this path
                    only.append(e if not isinstance(e, bool) else z3.BoolVal(e))
            elif len(goal) > 2:
                # steps are proved (or local lemmas recalled) for this goal only
                base = len(self.pc)
                for st in goal[2]:
                    if isinstance(st, str):
                        self.assume(self.local_lemmas[st])
                    else:
                        self.oblige(name + ':' + goal[0], st, line, kind)
            name, goal = name + ':' + goal[0], goal[1]
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.recording:
            self.eng.add_obligation(Obligation(name, only if only is not None else [e for _, e in self.pc], goal, line or self.curline,
                                               self.eng.cur.name, ''.join(map(str, self.trace)), kind))
        if base is not None:
            del self.pc[base:]
        if assume:
            if z3.is_false(z3.simplify(goal)):
                raise Kill()
            self.assume((label, goal) if label else goal)

    def require(self, cond, exc, why=''):
        """cond must hold or `exc` is raised"""
        if isinstance(cond, bool):
            if cond:
                return
            raise PyRaise(exc, self.curline)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PyRaise(exc, self.curline)
        if self.caught(exc):
            if not self.branch(cond):
                raise PyRaise(exc, self.curline)
            return
        self.oblige('no %s%s' % (exc, ' (%s)' % why if why else ''), cond, kind='safety')

    def caught(self, exc):
        for f in self.frames:
            for names in f.catch:
                if any(exc_matches(exc, n) for n in names):
                    return True
        return exc in self.eng.cur.raises if self.eng.cur else False

    def name(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    def newsym(self, T, base):
        """fresh value; inside an abstraction it depends on the bound variables"""
        return self.fresh(T, self.name(base), self.lamvars)

    def univ(self, key, args, build):
        """fact about an uninterpreted function, for all its arguments"""
        if key in self.univ_done:
            return
        self.univ_done.add(key)
        if not args:
            e = build(())
            self.assume(e[0] if isinstance(e, tuple) else e)
            return
        vs = [z3.Const('u!%d_%s' % (i, key), a.sort()) for i, a in enumerate(args)]
        body = build(tuple(vs))
        if isinstance(body, tuple):
            body, pat = body
        else:
            pat = None
        self.assume(z3.ForAll(vs, body, patterns=[pat]) if pat is not None else z3.ForAll(vs, body))

    def fresh(self, T, name, args=()):
        th = self.th
        if isinstance(T, TupleOf):
            return tuple(self.fresh(e, '%s.%d' % (name, i), args) for i, e in enumerate(T.els))
        if isinstance(T, TupleUpTo):
            n = self.fresh(Int, name + '.n', args)
            self.univ(name + '.n', args, lambda a: (z3.And(self.fresh(Int, name + '.n', a) >= th.ival(T.lo), self.fresh(Int, name + '.n', a) <= th.ival(len(T.els))), self.fresh(Int, name + '.n', a)))
            return VTuple(n, [self.fresh(e, '%s.%d' % (name, i), args) for i, e in enumerate(T.els)])
        if isinstance(T, ListOf):
            n = self.fresh(Int, name + '.n', args)
            self.univ(name + '.n', args, lambda a: (self.fresh(Int, name + '.n', a) >= th.ival(0),
                                                    self.fresh(Int, name + '.n', a)) if a else
                      self.fresh(Int, name + '.n', a) >= th.ival(0))
            l = SList(n, lambda i: self.fresh(T.el, name + '.e', tuple(args) + (th.lift(i),)), T.el)
            l.src = (name, tuple(args))
            return l
        if isinstance(T, (MapOf, SetOf)):
            kt = T.k if isinstance(T, MapOf) else T.el
            vt = T.v if isinstance(T, MapOf) else Bool
            n = self.fresh(Int, name + '.n', args)

            def fl(k):
                return tuple(th.lift(x) for x in k) if isinstance(k, tuple) else (th.lift(k),)

            def dom(k):
                return self.fresh(Bool, name + '.dom', tuple(args) + fl(k))

            def get(k):
                return self.fresh(vt, name + '.v', tuple(args) + fl(k))

            def key(i):
                return self.fresh(kt, name + '.key', tuple(args) + (th.lift(i),))

            def pos(k):
                return self.fresh(Int, name + '.pos', tuple(args) + fl(k))
            m = SMap(n, dom, get, key, pos, kt, vt)
            if name not in self.univ_done:
                self.univ_done.add(name)
                avs = [z3.Const('m!%d_%s' % (i, name), a.sort()) for i, a in enumerate(args)]
                m2 = self.fresh(T, name, tuple(avs)) if avs else m
                i = z3.Const('mi_' + name, th.isort)
                ks = [z3.Const('mk%d_%s' % (j, name), self.th.sort(t)) for j, t in
                      enumerate(kt.els if isinstance(kt, TupleOf) else [kt])]
                kk = tuple(ks) if isinstance(kt, TupleOf) else ks[0]
                nn = m2.n
                ki = m2.key(i)
                kpat = ki[0] if isinstance(ki, tuple) else ki
                f1 = z3.Implies(z3.And(i >= 0, i < nn), z3.And(m2.dom(ki), m2.pos(ki) == i))
                f2 = z3.Implies(m2.dom(kk), z3.And(m2.pos(kk) >= 0, m2.pos(kk) < nn, B(keyeq(th, m2.key(m2.pos(kk)), kk))))
                self.assume(z3.ForAll(avs, nn >= 0) if avs else nn >= 0)
                self.assume(z3.ForAll(avs + [i], f1, patterns=[kpat]))
                self.assume(z3.ForAll(avs + ks, f2, patterns=[m2.dom(kk)]))
            return m
        if isinstance(T, Opt):
            return OptVal(self.fresh(Bool, name + '.none', args), self.fresh(T.el, name, args))
        if isinstance(T, ObjOf):
            return ObjVal(self.eng.class_by_name(T.cls), {f: self.fresh(t, name + '.' + f, args) for f, t in T.fields.items()})
        if isinstance(T, PureFn):
            return Builtin(T.fname, lambda ctx, *a: ctx.fresh(T.ret, T.fname, tuple(ctx.th.lift(x) for x in a)))
        if isinstance(T, Grid):
            r, c = self.fresh(Int, name + '.r', args), self.fresh(Int, name + '.c', args)
            return GridVal(r, c, lambda i, j: self.fresh(Real, name + '.g', tuple(args) + (th.lift(i), th.lift(j))))
        if T is NoneT:
            return None
        s = th.sort(T)
        if args:
            return z3.Function(name, *([a.sort() for a in args] + [s]))(*args)
        return z3.Const(name, s)

    # ------------------------------------------------------------ freeze / thaw
    def freeze(self, v):
        if isinstance(v, (MList, MMap, MSet, MGrid)):
            return self.freeze(v.val)
        if isinstance(v, CList):
            return CList([self.freeze(x) for x in v.items])
        if isinstance(v, CMap):
            return CMap({k: self.freeze(x) for k, x in v.d.items()})
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, VTuple):
            return VTuple(v.n, [self.freeze(x) for x in v.items])
        if isinstance(v, MObj):
            return ObjVal(v.cls, {k: self.freeze(x) for k, x in self.attrs(v).items()})
        if isinstance(v, OptVal):
            return OptVal(v.isnone, self.freeze(v.val))
        if isinstance(v, RowVal):
            g = v.ref.val if getattr(v, 'ref', None) is not None else v.g
            return SList(self.th.lift(g.c), lambda j: g.get(self.th.lift(v.i), self.th.lift(j)), Real)
        return v

    def put(self, v, ref):
        """freeze v for storage in a symbolic container; v must not be changed through its old name afterwards"""
        r = self.freeze(v)
        if isinstance(v, RowVal) and getattr(v, 'ref', None) is not None:      # a row shares its table
            g = v.ref
            while g.parent is not None:
                g = g.parent[0]
            g.escaped = True
            self.escaped.append((g, ref))
            return r
        if r is not v and isinstance(v, (MCont, MObj)):
            if v.parent is not None:
                raise Unsupported('storing an element of one container in another')
            v.escaped = True
            self.escaped.append((v, ref))
        return r

    def thaw(self, v):
        if isinstance(v, (CList, SList)):
            return self.newref(MList(v))
        if isinstance(v, (CMap, SMap)):
            return self.newref(MMap(v))
        if isinstance(v, ObjVal):
            return self.newref(MObj(v.cls, {k: self.thaw(x) for k, x in v.attrs.items()}))
        if isinstance(v, GridVal):
            return self.newref(MGrid(v))
        if isinstance(v, tuple):
            return tuple(self.thaw(x) for x in v)
        if isinstance(v, VTuple):
            return VTuple(v.n, [self.thaw(x) for x in v.items])
        if isinstance(v, OptVal):
            return OptVal(v.isnone, self.thaw(v.val))
        return v

    def newref(self, r):
        self.aid += 1
        r.aid = self.aid
        return r

    def attrs(self, o):
        if isinstance(o, ObjVal):
            return o.attrs
        if o.parent is not None:
            p, key, ver, fetch = o.parent
            if p.sver != ver:
                raise Unsupported('object used after its container was restructured')
            x = fetch(p.val, key)
            return x.attrs
        return o.attrs

    def view(self, parent, key, val, fetch):
        """value read out of a container: containers become write-through views"""
        if isinstance(val, (CList, SList)):
            r = MList(None)
        elif isinstance(val, (CMap, SMap)):
            r = MMap(None)
        elif isinstance(val, ObjVal):
            r = MObj(val.cls, None)
        elif isinstance(val, GridVal):
            r = MGrid(None)
        elif isinstance(val, OptVal) and isinstance(val.val, (CList, SList, CMap, SMap, ObjVal, GridVal)):
            return OptVal(val.isnone, self.view(parent, key, val.val,
                                                lambda pv, k: (lambda x: x.val if isinstance(x, OptVal) else x)(fetch(pv, k))))
        elif isinstance(val, tuple):
            return tuple(self.view(parent, key, x, (lambda j: lambda pv, k: fetch(pv, k)[j])(j)) for j, x in enumerate(val))
        else:
            return val
        r.parent = (parent, key, parent.sver, fetch)
        return self.newref(r)

    def setval(self, ref, nv):
        if ref.parent is not None:
            p, key, ver, _ = ref.parent
            if p.sver != ver:
                raise Unsupported('element written after its container was restructured')
            self.poison(p)
            if hasattr(p, 'o'):
                self.set_attr(p.o, p.a, nv)
            elif isinstance(p, MList):
                self.setval(p, self.list_set(p.val, key, nv))
            elif isinstance(p, MMap):
                self.setval(p, map_set(self.th, p.val, key, nv))
            else:
                raise Unsupported('write through %r' % p)
            return
        self.on_mutate(ref)
        ref._val = nv

    def bump(self, ref):
        """the container was restructured: views of its elements are stale"""
        ref.sver += 1
        if ref.parent is None:
            for lp in self.loops:
                path = lp['reach'].get(id(ref))
                if path is not None and path + '#struct' not in lp['mod']:
                    lp['mod'].add(path)
                    lp['mod'].add(path + '#struct')
                    raise Restart()

    def poison(self, p):
        for v, r in self.escaped:
            if r is p:
                v.poisoned = True
        if getattr(raw(p) if not hasattr(p, 'o') else None, 'live', False):
            raise Unsupported('write through a list of shared objects')

    def set_attr(self, o, name, v):
        if o.parent is not None:
            p, key, ver, _ = o.parent
            self.poison(p)
            at = dict(self.attrs(o))
            at[name] = self.freeze(v)
            nv = ObjVal(o.cls, at)
            if isinstance(p, MList):
                self.setval(p, self.list_set(p.val, key, nv))
            else:
                self.setval(p, map_set(self.th, p.val, key, nv))
            return
        self.on_mutate(o, name)
        o.attrs[name] = v

    def on_mutate(self, ref, attr=None):
        if getattr(ref, 'escaped', False):
            raise Unsupported('an object is changed after it was stored in a symbolic container')
        for lp in self.loops:
            path = lp['reach'].get(id(ref))
            if path is not None:
                key = path if attr is None else path + '.' + attr
                if key not in lp['mod']:
                    lp['mod'].add(key)
                    raise Restart()
            if lp.get('pure') and ref.aid is not None and ref.aid <= lp['aid0']:
                raise Unsupported('side effect inside a pure expression')

    def list_set(self, lv, i, v):
        th = self.th
        ci = conc(i)
        if isinstance(lv, CList) and isinstance(ci, int):
            it = list(lv.items)
            it[ci] = v
            return CList(it)
        s = to_slist(th, lv)
        v = self.freeze(v)
        ii = th.lift(i)
        return SList(s.n, lambda j: ITE(th, th.lift(j) == ii, v, s.get(j)), s.ety)

    def list_append(self, lv, v):
        th = self.th
        if isinstance(lv, CList):
            return CList(lv.items + (v,))
        v = self.freeze(v)
        n = th.lift(lv.n)
        return SList(z3.simplify(n + 1), lambda j: ITE(th, th.lift(j) == n, v, lv.get(j)), lv.ety)

    def list_concat(self, a, b):
        if isinstance(a, CList) and isinstance(b, CList):
            return CList(a.items + b.items)
        if isinstance(a, CList) and a.n == 0:
            return b
        if isinstance(b, CList) and b.n == 0:
            return a
        th = self.th
        na = th.lift(a.n)
        a2, b2 = a, b
        return SList(z3.simplify(na + th.lift(b.n)), lambda j: ITE(th, th.lift(j) < na, lget(th, a2, th.lift(j)), lget(th, b2, th.lift(j) - na)),
                     getattr(a, 'ety', None) or getattr(b, 'ety', None))

    def list_pop(self, ref, i):
        th = self.th
        lv = ref.val
        if isinstance(lv, CList):
            ci = -1 if i is None else conc(i)
            if isinstance(ci, int):
                if not (-lv.n <= ci < lv.n):
                    raise PyRaise('IndexError', self.curline)
                it = list(lv.items)
                x = it.pop(ci)
                self.setval(ref, CList(it))
                self.bump(ref)
                return x
            lv = to_slist(th, lv)
        n = th.lift(lv.n)
        if i is None or conc(i) == -1:
            self.require(n > 0, 'IndexError', 'pop from empty list')
            x = lget(th, lv, n - 1)
            x = self.thaw(x)
            self.setval(ref, SList(n - 1, lv.get, lv.ety))
            self.bump(ref)
            return x
        ii = th.lift(i)
        self.require(z3.And(ii >= 0, ii < n), 'IndexError', 'pop index')
        x = self.thaw(lget(th, lv, ii))
        self.setval(ref, SList(n - 1, lambda j: ITE(th, th.lift(j) < ii, lv.get(th.lift(j)), lv.get(th.lift(j) + 1)), lv.ety))
        self.bump(ref)
        return x

    def list_insert(self, ref, i, v):
        th = self.th
        lv = ref.val
        ci = conc(i)
        if isinstance(lv, CList) and isinstance(ci, int):
            it = list(lv.items)
            it.insert(ci, v)
            self.setval(ref, CList(it))
            self.bump(ref)
            return
        lv = to_slist(th, lv)
        v = self.freeze(v)
        ii = th.lift(i)
        n = th.lift(lv.n)
        ii = z3.If(ii > n, n, ii)
        if not (isinstance(ci, int) and ci >= 0):
            self.oblige('insert index not negative', th.lift(i) >= 0, kind='model')
        self.setval(ref, SList(n + 1, lambda j: ITE(th, th.lift(j) < ii, lv.get(th.lift(j)),
                                                    ITE(th, th.lift(j) == ii, v, lv.get(th.lift(j) - 1))), lv.ety))
        self.bump(ref)

    # ------------------------------------------------------------ summarising pure code
    def summarize(self, thunk):
        """run thunk on all its paths and merge the results into one value; no side effects allowed"""
        base = len(self.pc)
        saved = (self.prefix, self.trace, self.pending, self.sub_rec, self.solver)
        rec = self.recording
        base_pc = list(self.pc)
        self.noforks += 1
        results, facts = [], []
        stack = [[]]
        mark = {'reach': {}, 'mod': set(), 'pure': True, 'aid0': self.aid, 'frame': None}
        self.loops.append(mark)
        count = 0
        try:
            while stack:
                pre = stack.pop()
                count += 1
                if count > 200:
                    raise Unsupported('too many paths in a pure expression')
                self.prefix, self.trace, self.pending, self.sub_rec = pre, [], [], rec
                self.pc = list(base_pc)
                self.solver = z3.Solver()
                self.solver.set('timeout', self.eng.feas_ms)
                for _, e in base_pc:
                    if not has_quant(e):
                        self.solver.add(e)
                try:
                    v = thunk()
                    new = self.pc[base:]
                    dec = [e for k, e in new if k == 'd']
                    cond = z3.And(*dec) if dec else z3.BoolVal(True)
                    for k, e in new:
                        if k == 'a':
                            facts.append(z3.Implies(cond, e) if dec else e)
                    results.append((cond, v))
                except Kill:
                    pass
                except PyRaise as ex:
                    self.oblige('no %s' % ex.name, False, kind='safety', assume=False)
                stack.extend(self.pending)
        finally:
            self.loops.remove(mark)
            self.prefix, self.trace, self.pending, self.sub_rec, self.solver = saved
            self.pc = base_pc
            self.noforks -= 1
        if not results:
            raise Kill()
        v = results[-1][1]
        for c, x in reversed(results[:-1]):
            v = ITE(self.th, c, x, v)
        return v, facts

    def lam(self, fn, T, var=None, guard=None):
        """abstract fn over one variable of sort T: returns closure x -> value, plus quantified facts.
        guard(x) restricts the domain on which fn is evaluated."""
        th = self.th
        x = var if var is not None else z3.Const(self.name('lam'), th.sort(T))
        base = len(self.pc)
        saved_solver = self.solver
        g = guard(x) if guard else z3.BoolVal(True)

        def thunk():
            self.assume(g, 'a')
            return fn(x)
        # evaluate with the guard in force; facts are generalised over x
        pc0 = list(self.pc)
        lv0 = self.lamvars
        self.lamvars = lv0 + (x,)
        try:
            v, facts = self.summarize(thunk)
        finally:
            self.lamvars = lv0
        self.pc = pc0
        self.solver = saved_solver
        facts = [f for f in facts if not f.eq(g)]
        for f in facts:
            if uses(f, x):
                self.assume(z3.ForAll([x], z3.Implies(g, f)))
            else:
                self.assume(f)

        def clo(y):
            return subst(v, x, th.lift(y))
        return clo, v, x


def uses(e, x):
    seen, st = set(), [e]
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(x):
            return True
        if z3.is_quantifier(y):
            st.append(y.body())
        else:
            st.extend(y.children())
    return False


def subst(v, x, y):
    if is_z3(v):
        return z3.substitute(v, (x, y))
    if isinstance(v, tuple):
        return tuple(subst(a, x, y) for a in v)
    if isinstance(v, VTuple):
        return VTuple(subst(v.n, x, y), [subst(a, x, y) for a in v.items])
    if isinstance(v, OptVal):
        return OptVal(subst(v.isnone, x, y), subst(v.val, x, y))
    if isinstance(v, CList):
        return CList([subst(a, x, y) for a in v.items])
    if isinstance(v, SList):
        return SList(subst(v.n, x, y), lambda i: subst(v.get(i), x, y), v.ety)
    if isinstance(v, SMap):
        return SMap(subst(v.n, x, y), lambda k: subst(v.dom(k), x, y), lambda k: subst(v.get(k), x, y),
                    lambda i: subst(v.key(i), x, y), lambda k: subst(v.pos(k), x, y), v.kty, v.vty)
    if isinstance(v, CMap):
        return CMap({k: subst(a, x, y) for k, a in v.d.items()})
    if isinstance(v, MCont):
        return subst(v.val, x, y)
    if isinstance(v, ObjVal):
        return ObjVal(v.cls, {k: subst(a, x, y) for k, a in v.attrs.items()})
    if isinstance(v, RowVal):
        return RowVal(v.g, subst(v.i, x, y))
    return v
