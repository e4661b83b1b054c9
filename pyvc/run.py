"""Statement / expression execution and calls."""
import ast
import math as _math
from fractions import Fraction
import z3
from .engine import *
from .interp import Ctx, has_quant, subst, uses
from .ops import Ops, FmtVal, KeysView, fn
from .builtins_ import Builtins

NOOP_CALLS = {'print'}


class Run(Builtins, Ops, Ctx):
    MAXDEPTH = 12
    site = None

    @property
    def frame(self):
        return self.frames[-1]

    # ------------------------------------------------------------ names
    def lookup(self, name):
        env = self.frame.env
        if name not in self.frame.globals:
            while env is not None:
                if name in env:
                    v = env[name]
                    if isinstance(v, Undef):
                        if self.caught('UnboundLocalError'):
                            raise PyRaise('UnboundLocalError', self.curline)
                        raise Unsupported('local %s may be unset here: %s' % (name, v.why))
                    if getattr(v, 'poisoned', False):
                        raise Unsupported('%s was also changed through the container it was stored in' % name)
                    return v
                env = env.parent
        v = self.eng.global_name(self, self.frame.module, name)
        if v is None:
            b = self.builtin(name)
            if b is None:
                raise Unsupported('unknown name %s' % name)
            return b
        return v[0]

    def setname(self, name, v):
        fr = self.frame
        if name in fr.globals:
            raise Unsupported('assignment to a global')
        env = fr.env
        if name in fr.nonlocals:
            env = env.parent
            while env is not None and name not in env:
                env = env.parent
        for lp in self.loops:
            if lp.get('frame') is fr and name in lp['names'] and name not in lp['mod']:
                lp['mod'].add(name)
                raise Restart()
            if lp.get('pure') and fr.env is not env:
                raise Unsupported('nonlocal assignment in a pure expression')
        env[name] = v

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.curline = s.lineno
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %d' % (type(s).__name__, s.lineno))
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            self.setname(a.asname or a.name.split('.')[0], self.eng.import_module(a.name if a.asname else a.name.split('.')[0]))

    def s_ImportFrom(self, s):
        for a in s.names:
            self.setname(a.asname or a.name, self.eng.import_from(self, s.module, a.name))

    def s_Global(self, s):
        self.frame.globals |= set(s.names)

    def s_Nonlocal(self, s):
        self.frame.nonlocals |= set(s.names)

    def s_FunctionDef(self, s):
        self.setname(s.name, FuncVal(s, self.frame.module, None, self.frame.env, self.frame.qual + '.' + s.name,
                                     defaults=self.defaults(s)))

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        raise ReturnEx(v)

    def s_Raise(self, s):
        if s.exc is None:
            raise PyRaise(getattr(self.frame, 'handling', 'RuntimeError'), s.lineno)
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        raise PyRaise(e.id if isinstance(e, ast.Name) else e.attr, s.lineno)

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if not self.branch(c) if self.caught('AssertionError') else False:
            raise PyRaise('AssertionError', s.lineno)
        self.require(c, 'AssertionError')

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.ev(s.value)
            if isinstance(cur, MList) and isinstance(s.op, ast.Add):
                self.list_extend(cur, v)
                return
            self.setname(t.id, self.binop(s.op, cur, v))
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value)
            if isinstance(cur, MList) and isinstance(s.op, ast.Add):
                self.list_extend(cur, v)
                return
            self.setattr(o, t.attr, self.binop(s.op, cur, v))
            return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_index(t.slice)
            cur = self.subscript(o, i)
            v = self.ev(s.value)
            if isinstance(cur, MList) and isinstance(s.op, ast.Add):
                self.list_extend(cur, v)
                return
            self.store(o, i, self.binop(s.op, cur, v))
            return
        raise Unsupported('augmented assignment')

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), t.elts)
            for x, y in zip(t.elts, vals):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            self.store(o, self.ev_index(t.slice), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, elts=None):
        if isinstance(v, OptVal):
            self.require(NOT(v.isnone), 'TypeError', 'unpack None')
            v = v.val
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise('ValueError', self.curline)
            return v
        if isinstance(v, VTuple):
            if n > len(v.items):
                raise PyRaise('ValueError', self.curline)
            self.require(self.th.lift(v.n) == n, 'ValueError', 'number of values')
            return v.items[:n]
        r = raw(v)
        if isinstance(r, (CList, SList)):
            ln = self.length(v)
            self.require(self.eq(ln, n), 'ValueError', 'unpack')
            return [self.subscript(v, i) for i in range(n)]
        raise Unsupported('unpack %s' % type(v).__name__)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                if isinstance(t.slice, ast.Slice):
                    self.del_slice(o, t.slice)
                else:
                    self.del_item(o, self.ev_index(t.slice))
            elif isinstance(t, ast.Name):
                self.setname(t.id, Undef('deleted'))
            else:
                raise Unsupported('del')

    def s_If(self, s):
        if self.cond(s.test):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def cond(self, e):
        """evaluate a condition, forking; returns a python bool"""
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                for v in e.values:
                    if not self.cond(v):
                        return False
                return True
            for v in e.values:
                if self.cond(v):
                    return True
            return False
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand)
        return self.branch(self.truth(self.ev(e)))

    def s_Try(self, s):
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append(None)
            elif isinstance(h.type, ast.Tuple):
                names += [x.id if isinstance(x, ast.Name) else x.attr for x in h.type.elts]
            else:
                names.append(h.type.id if isinstance(h.type, ast.Name) else h.type.attr)

        def fin():
            self.block(s.finalbody)
        try:
            try:
                self.frame.catch.append(names)
                fr = self.frame
                depth = len(self.frames)
                try:
                    self.block(s.body)
                finally:
                    if len(self.frames) >= depth:
                        fr.catch.pop()
            except PyRaise as ex:
                del self.frames[depth:]
                for h in s.handlers:
                    hn = [None] if h.type is None else [x.id if isinstance(x, ast.Name) else x.attr for x in
                                                        (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if any(exc_matches(ex.name, n) for n in hn):
                        if h.name:
                            self.setname(h.name, NoEffect('exception'))
                        old = getattr(self.frame, 'handling', None)
                        self.frame.handling = ex.name
                        self.block(h.body)
                        self.frame.handling = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            fin()
            raise
        fin()

    def s_With(self, s):
        exits = []
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            exits.append(v)
        self.block(s.body)
        for v in exits:
            if hasattr(v, 'py_exit'):
                v.py_exit(self)

    def s_Break(self, s):
        raise BreakEx()

    def s_Continue(self, s):
        raise ContinueEx()

    # ------------------------------------------------------------ loops
    def s_While(self, s):
        spec, key = self.loop_spec(s)
        if spec is None:
            # try to unroll when the condition stays concrete
            k = 0
            while True:
                c = self.peek_conc(s.test)
                if c is None:
                    break
                if not c:
                    self.block(s.orelse)
                    return
                k += 1
                if k > 300:
                    raise Unsupported('unrolling limit')
                try:
                    self.block(s.body)
                except BreakEx:
                    return
                except ContinueEx:
                    pass
        self.loop(s, spec, key, None, lambda: self.cond(s.test), s.body)

    def peek_conc(self, e):
        """value of a condition when it is decided without forking, else None"""
        saved = (list(self.trace), list(self.pending), len(self.pc))
        n0 = len(self.trace)
        if n0 < len(self.prefix):
            pass
        try:
            names = [n.id for n in ast.walk(e) if isinstance(n, ast.Name)]
            for n in ast.walk(e):
                if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == 'len'):
                    return None
            for nm in names:
                if nm in ('len', 'True', 'False', 'None'):
                    continue
                v = raw(self.lookup(nm))
                if isinstance(v, (CList, CMap, bool, int, str, float, tuple)) or v is None:
                    continue
                return None
            if any(isinstance(n, (ast.Attribute, ast.Subscript)) for n in ast.walk(e)):
                return None
            v = self.ev(e)
            t = self.truth(v)
            return t if isinstance(t, bool) else None
        except (Unsupported, PyRaise):
            return None

    def s_For(self, s):
        it = self.iterate(self.ev(s.iter))
        spec, key = self.loop_spec(s)
        n = it.n() if callable(it.n) else it.n
        cn = conc(n)
        if spec is None and isinstance(cn, int) and cn <= 300:
            i = 0
            while True:
                n = it.n() if callable(it.n) else it.n
                cn = conc(n)
                if not isinstance(cn, int):
                    raise Unsupported('list grows symbolically while iterated')
                if i >= cn:
                    break
                self.assign(s.target, it.item(i))
                i += 1
                try:
                    self.block(s.body)
                except BreakEx:
                    return
                except ContinueEx:
                    pass
            self.block(s.orelse)
            return
        self.loop(s, spec, key, it, None, s.body)

    def loop_spec(self, node):
        return self.eng.loop_spec(self, node)

    def reach(self):
        """paths of the mutable objects reachable from the active frames"""
        out = {}

        def visit(v, path, d):
            if isinstance(v, (MList, MMap, MSet, MGrid)):
                if id(v) in out:
                    return
                if v.parent is not None:
                    return
                out[id(v)] = path
                self._keep.append(v)
                val = v._val
                if isinstance(val, CList):
                    for i, x in enumerate(val.items):
                        visit(x, '%s[%d]' % (path, i), d)
                elif isinstance(val, CMap):
                    for k, x in val.d.items():
                        visit(x, '%s[%r]' % (path, k), d)
            elif isinstance(v, MObj):
                if id(v) in out or v.parent is not None:
                    return
                out[id(v)] = path
                for k, x in v.attrs.items():
                    visit(x, path + '.' + k, d)
            elif isinstance(v, tuple):
                for i, x in enumerate(v):
                    visit(x, '%s(%d)' % (path, i), d)
            elif isinstance(v, OptVal):
                visit(v.val, path + '?', d)
            elif isinstance(v, FuncVal) and v.bound is not None:
                visit(v.bound, path + '@', d)
        self._keep = getattr(self, '_keep', [])
        byid = {}
        for d, f in enumerate(self.frames):
            env = f.env
            lvl = 0
            while env is not None:
                for k, v in env.items():
                    visit(v, '%d%s:%s' % (d, '^' * lvl, k), d)
                env = env.parent
                lvl += 1
        for c in self.cells:
            visit(c, 'cell%d' % c.aid, 0)
        return out

    def objs_by_path(self):
        r = {}

        def visit(v, path):
            if isinstance(v, (MList, MMap, MSet, MGrid)):
                if v.parent is not None or id(v) in seen:
                    return
                seen.add(id(v))
                r[path] = v
                if isinstance(v._val, CList):
                    for i, x in enumerate(v._val.items):
                        visit(x, '%s[%d]' % (path, i))
                elif isinstance(v._val, CMap):
                    for k, x in v._val.d.items():
                        visit(x, '%s[%r]' % (path, k))
            elif isinstance(v, MObj):
                if v.parent is not None or id(v) in seen:
                    return
                seen.add(id(v))
                for k, x in v.attrs.items():
                    r[path + '.' + k] = (v, k)
                    visit(x, path + '.' + k)
                r['obj:' + path] = v
            elif isinstance(v, tuple):
                for i, x in enumerate(v):
                    visit(x, '%s(%d)' % (path, i))
            elif isinstance(v, OptVal):
                visit(v.val, path + '?')
            elif isinstance(v, FuncVal) and v.bound is not None:
                visit(v.bound, path + '@')
        seen = set()
        for d, f in enumerate(self.frames):
            env, lvl = f.env, 0
            while env is not None:
                for k, v in env.items():
                    visit(v, '%d%s:%s' % (d, '^' * lvl, k))
                env = env.parent
                lvl += 1
        for c in self.cells:
            visit(c, 'cell%d' % c.aid)
        return r

    def shape(self, v, hint=None):
        """type to use when havocking a value"""
        if hint is not None:
            return hint
        if isinstance(v, bool):
            return Bool
        if isinstance(v, int):
            return Int
        if isinstance(v, (float, Fraction)):
            return Real
        if isinstance(v, str):
            return Str
        if is_z3(v):
            if z3.is_bool(v):
                return Bool
            if z3.is_int(v) or z3.is_bv(v):
                return Int
            if z3.is_real(v):
                return Real
            return Opaque(v.sort().name()) if v.sort().name() != 'Str' else Str
        if isinstance(v, tuple):
            return TupleOf(*[self.shape(x) for x in v])
        if isinstance(v, VTuple):
            return TupleUpTo(0, *[self.shape(x) for x in v.items])
        if isinstance(v, OptVal):
            return Opt(self.shape(v.val))
        if isinstance(v, MCont):
            return self.shape(v.val)
        if isinstance(v, SList):
            return ListOf(v.ety if v.ety is not None else self.shape(v.get(z3.Const('shape!i', self.th.isort))))
        if isinstance(v, CList):
            if v.n == 0:
                raise Unsupported('type of an empty list that a loop changes is not known')
            return ListOf(self.shape(v.items[0]))
        if isinstance(v, SMap):
            if v.kty is not None and v.vty is not None:
                return MapOf(v.kty, v.vty)
            raise Unsupported('type of a dict is not known')
        if isinstance(v, CMap):
            if not v.d:
                raise Unsupported('type of an empty dict that a loop changes is not known')
            k = next(iter(v.d))
            return MapOf(self.shape(k), self.shape(v.d[k]))
        if isinstance(v, GridVal):
            return Grid()
        if isinstance(v, (MObj, ObjVal)):
            at = self.attrs(v) if isinstance(v, MObj) else v.attrs
            return ObjOf(v.cls.name, **{k: self.shape(x) for k, x in at.items()})
        raise Unsupported('cannot generalise a %s' % type(v).__name__)

    def havoc(self, mod, frame, spec, dpre):
        objs = self.objs_by_path()
        rename = {frame.rename.get(k, k): k for k in (spec.types if spec else {})}

        def hint_for(path):
            # path like '0:name' or '0:self._bytes'
            nm = path.split(':', 1)[1] if ':' in path else path
            d = path.split(':', 1)[0]
            if spec:
                for k, t in spec.types.items():
                    kk = frame.rename.get(k.split('.')[0], k.split('.')[0]) + ('.' + k.split('.', 1)[1] if '.' in k else '')
                    if kk == nm:
                        return t
            return None
        for m in sorted(mod):
            if m.endswith('#struct'):
                continue
            if m in frame.env or ':' not in m and not m.startswith('cell'):
                v = frame.env.get(m)
                if v is None and m not in frame.env:
                    continue
                if m in objs or True:
                    hint = hint_for(dpre + m)
                    if hint is None and (isinstance(v, (MCont, MObj)) and v.parent is not None or isinstance(v, (Undef, FuncVal, NoEffect))
                                         or v is None):
                        frame.env[m] = Undef('%s is reassigned by a loop' % m)
                        continue
                    if hint is None and isinstance(v, MObj):
                        frame.env[m] = Undef('%s is reassigned by a loop' % m)
                        continue
                    try:
                        T = self.shape(v, hint)
                    except Unsupported as u:
                        frame.env[m] = Undef(str(u))
                        continue
                    frame.env[m] = self.thaw(self.newsym(T, m))
                continue
            o = objs.get(m)
            if o is None:
                if m.rsplit('.', 1)[0] and ('obj:' + m.rsplit('.', 1)[0]) in objs:
                    ob = objs['obj:' + m.rsplit('.', 1)[0]]
                    a = m.rsplit('.', 1)[1]
                    h = hint_for(m)
                    if h is None:
                        ob.attrs[a] = Undef('attribute %s is set by a loop' % a)
                    else:
                        ob.attrs[a] = self.thaw(self.newsym(h, a))
                    continue
                raise Unsupported('cannot generalise %s' % m)
            if isinstance(o, tuple):
                ob, a = o
                v = ob.attrs[a]
                h = hint_for(m)
                if isinstance(v, MCont):
                    # the attribute may have been rebound or its content changed
                    T = self.shape(v, h)
                    nv = self.thaw(self.newsym(T, a))
                    if m + '#rebind' in mod:
                        ob.attrs[a] = nv
                    else:
                        v._val = nv._val
                        if m + '#struct' in mod:
                            v.sver += 1
                    continue
                ob.attrs[a] = self.thaw(self.newsym(self.shape(v, h), a))
            else:
                T = self.shape(o, hint_for(m))
                nv = self.newsym(T, m.split(':')[-1])
                o._val = nv
                if m + '#struct' in mod:
                    o.sver += 1
        # views of elements of elements of a changed container may be stale
        roots = [objs.get(m) for m in mod]
        roots = [r[0].attrs.get(r[1]) if isinstance(r, tuple) else r for r in roots if r is not None]
        for k, v in list(frame.env.items()):
            p, d = getattr(v, 'parent', None) and v.parent[0], 0
            while p is not None and getattr(p, 'parent', None) is not None:
                p, d = p.parent[0], d + 1
            if d and any(p is r for r in roots):
                frame.env[k] = Undef('%s is a view into a container a loop changes' % k)

    def type_empty(self, fr, spec):
        """an empty container the loop fills gets the element type the loop contract gives it"""
        for k, T in spec.types.items():
            parts = k.split('.')
            v = fr.env.get(fr.rename.get(parts[0], parts[0]))
            for a in parts[1:]:
                v = v.attrs.get(a) if isinstance(v, MObj) and v.parent is None else None
            self.type_one(v, T)

    def type_one(self, v, T):
        if not isinstance(v, MCont) or v.parent is not None or not isinstance(T, (ListOf, MapOf, SetOf)):
            return
        x = v._val
        if isinstance(x, CMap) and not x.d and isinstance(T, (MapOf, SetOf)):
            t = self.fresh(T, self.name('empty'))
            self.assume(t.n == self.th.ival(0))
            v._val = SMap(self.th.ival(0), lambda q: z3.BoolVal(False), t.get, t.key, t.pos, t.kty, t.vty)
        elif isinstance(x, CList) and not x.items and isinstance(T, ListOf):
            t = self.fresh(T, self.name('empty'))
            v._val = SList(self.th.ival(0), t.get, T.el)

    def loop(self, node, spec, key, it, condf, body):
        fr = self.frame
        mod = self.eng.modsets.setdefault(key, set())
        up = self.lstates[-1] if self.lstates else None
        th = self.th
        if self.noforks:
            raise Unsupported('loop inside a pure expression')
        pre = {k: self.freeze(v) for k, v in fr.env.items() if not isinstance(v, (FuncVal, ClassVal, ModVal, Builtin, NoEffect, Undef))}
        spre = dict(pre)
        for k, a in fr.rename.items():
            if a in pre:
                spre[k] = pre[a]
        names = set(fr.env.keys())
        mem = {}
        nm = (spec and getattr(spec, 'name', None)) or 'loop@%s' % self.eng.loop_name(key)
        itv = raw(it.ref) if it is not None and it.ref is not None else None
        pre_it = self.freeze(it.ref) if it is not None and it.ref is not None else None

        def state(idx):
            L = LoopState(th, fr, self.old_top, spre, idx, (it.ref if it else None), up, dict(mem), self)
            L._it_n = (it.n() if callable(it.n) else it.n) if it else 0
            L._pre_it = pre_it
            return L

        def invs(L):
            if spec is None or spec.inv is None:
                return []
            r = spec.inv(L)
            r = r if isinstance(r, list) else [r]
            return [x if isinstance(x, tuple) else ('inv%d' % i, x) for i, x in enumerate(r)]
        idx0 = th.ival(0)
        if spec is not None:
            self.type_empty(fr, spec)
            for g, (T, init, nxt) in spec.ghosts.items():
                mem[g] = init(state(idx0))
            if spec.before is not None:
                for e in aslist(spec.before(state(idx0))):
                    self.oblige('%s before' % nm, e, kind='hint')
        for n_, e in invs(state(idx0)):
            self.oblige('%s invariant holds on entry: %s' % (nm, n_), e, node.lineno, kind='inv-init', assume=False)
        which = self.choose(2)    # 0 = arbitrary iteration, 1 = exit
        dpre = '%d:' % (len(self.frames) - 1)
        self.havoc(mod, fr, spec, dpre)
        reach = self.reach()
        idx = None
        if spec is not None:
            for g, (T, init, nxt) in spec.ghosts.items():
                mem[g] = self.newsym(T, 'ghost_' + g)
        if it is not None:
            idx = self.newsym(Int, 'idx')
            self.assume(idx >= th.ival(0))
        L = state(idx)
        for n_, e in invs(L):
            self.assume((n_, e))
        if which == 0:
            start = {k: self.freeze(v) for k, v in fr.env.items() if not isinstance(v, (FuncVal, ClassVal, ModVal, Builtin, NoEffect, Undef))}
            for k, a in fr.rename.items():
                if a in start:
                    start[k] = start[a]
            L.start = NS(th, start, fr.qual)
            rec = {'reach': reach, 'mod': mod, 'names': names, 'frame': fr, 'aid0': self.aid}
            self.loops.append(rec)
            self.lstates.append(L)
            broke = False
            try:
                if it is not None:
                    n = it.n() if callable(it.n) else it.n
                    self.assume(idx < th.lift(n))
                    if not self.feasible(z3.BoolVal(True)):
                        raise Kill()
                    self.assign(node.target, it.item(idx))
                else:
                    if not condf():
                        raise Kill()
                if spec is not None and spec.pre is not None:
                    for e in aslist(spec.pre(L)):
                        self.oblige('%s step' % nm, e, kind='hint')
                d0 = spec.dec(L) if spec is not None and spec.dec is not None else None
                try:
                    self.block(body)
                except ContinueEx:
                    pass
                except BreakEx:
                    broke = True
                if not broke:
                    if it is not None:
                        L2 = state(z3.simplify(idx + th.ival(1)))
                    else:
                        L2 = state(None)
                    L2.prev = L
                    L2.idx0 = idx
                    L2.start = L.start
                    if spec is not None:
                        for g, (T, init, nxt) in spec.ghosts.items():
                            L2.g[g] = nxt(L, L2)
                    if spec is not None and spec.end is not None:
                        for e in aslist(spec.end(L2)):
                            self.oblige('%s step' % nm, e, kind='hint')
                    for n_, e in invs(L2):
                        self.oblige('%s invariant is preserved: %s' % (nm, n_), e, node.lineno, kind='inv-step', assume=False)
                    if d0 is not None:
                        d1 = spec.dec(L2)
                        self.oblige('%s terminates' % nm, z3.And(d0 >= 0, d1 < d0) if not isinstance(d0, tuple) else lexdec(d0, d1),
                                    node.lineno, kind='term', assume=False)
                    raise Kill()
            finally:
                self.loops.remove(rec)
                self.lstates.pop()
            return      # break: continue after the loop
        # exit path
        if it is not None:
            n = it.n() if callable(it.n) else it.n
            self.assume(idx >= th.lift(n))
            # a for loop leaves exactly at the end of a sequence that does not shrink below the index
            if not getattr(it, 'shrinks', False):
                self.assume(idx == th.lift(n))
            L = state(idx)
            # the loop variable keeps its last value; unset if the loop never ran
            for t in ast.walk(node.target):
                if isinstance(t, ast.Name) and t.id not in names:
                    fr.env[t.id] = Undef('loop variable %s after its loop' % t.id)
        else:
            self.lstates.append(L)
            try:
                if condf():
                    raise Kill()
            finally:
                self.lstates.pop()
        if not self.feasible(z3.BoolVal(True)):
            raise Kill()
        for g in (spec.ghosts if spec is not None else ()):
            self.ghosts[g] = mem[g]
        if spec is not None and spec.after is not None:
            for e in aslist(spec.after(L)):
                self.oblige('%s after' % nm, e, kind='hint')
        self.block(node.orelse)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %d' % (type(e).__name__, e.lineno))
        if hasattr(e, 'lineno'):
            self.curline = e.lineno
        return m(e)

    def e_Constant(self, e):
        return e.value if not isinstance(e.value, bytes) else e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Tuple(self, e):
        return tuple(self.ev_items(e.elts))

    def ev_items(self, elts):
        r = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = raw(self.ev(x.value))
                if isinstance(v, CList):
                    r += v.items
                elif isinstance(v, tuple):
                    r += v
                else:
                    raise Unsupported('* of a symbolic list')
            else:
                r.append(self.ev(x))
        return r

    def e_List(self, e):
        return self.newref(MList(CList(self.ev_items(e.elts))))

    def e_Set(self, e):
        return self.newref(MSet(CMap({self.key(self.ev(x)): True for x in e.elts})))

    def e_Dict(self, e):
        m = self.newref(MMap(CMap()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('** in a dict display')
            kk = self.ev(k)
            m._val = map_set(self.th, m._val, self.key(kk), self.ev(v))
        return m

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def e_UnaryOp(self, e):
        return self.unop(e.op, self.ev(e.operand))

    def simple_expr(self, e):
        """an expression that can be evaluated eagerly without risk of raising"""
        for n in ast.walk(e):
            if isinstance(n, (ast.Name, ast.Constant, ast.Load, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.And, ast.Or, ast.Not,
                              ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.In, ast.NotIn, ast.Is, ast.IsNot,
                              ast.USub, ast.Attribute)):
                continue
            return False
        return True

    def e_BoolOp(self, e):
        # value semantics: `a and b` is a or b; fork on the truth of each operand unless all are plain booleans
        isand = isinstance(e.op, ast.And)
        if all(self.simple_bool(x) for x in e.values):
            vs = []
            for x in e.values:
                v = self.ev(x)
                vs.append(v)
            if all(is_boolish(v) for v in vs):
                return AND(*vs) if isand else OR(*vs)
            ts = [self.truth(v) for v in vs]
            r = vs[-1]
            for v, t in list(zip(vs, ts))[-2::-1]:
                r = ITE(self.th, t, r, v) if isand else ITE(self.th, t, v, r)
            return r
        for x in e.values[:-1]:
            v = self.ev(x)
            t = self.branch(self.truth(v))
            if t != isand:
                return v if not is_boolish(v) else t
        return self.ev(e.values[-1])

    def simple_bool(self, e):
        if not self.simple_expr(e):
            return False
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute):
                return False
        return True

    def e_IfExp(self, e):
        if self.cond(e.test):
            return self.ev(e.body)
        return self.ev(e.orelse)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = []
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r)
            c = self.compare(op, left, right)
            if i < len(e.ops) - 1:
                # chained: later operands are evaluated only if this holds
                if not all(self.simple_expr(x) for x in e.comparators[i + 1:]):
                    if not self.branch(c):
                        return False
                    left = right
                    continue
            res.append(c)
            left = right
        return AND(*res)

    def e_Lambda(self, e):
        return FuncVal(e, self.frame.module, None, self.frame.env, self.frame.qual + '.<lambda>', defaults=self.defaults(e))

    def e_JoinedStr(self, e):
        return FmtVal('f', None)

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return s
        return self.ev(s)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            return self.slice(o, e.slice)
        return self.subscript(o, self.ev(e.slice))

    def e_Starred(self, e):
        raise Unsupported('starred')

    def e_ListComp(self, e):
        return self.comp(e, 'list')

    def e_SetComp(self, e):
        return self.comp(e, 'set')

    def e_GeneratorExp(self, e):
        return self.comp(e, 'list')

    def e_DictComp(self, e):
        return self.comp(e, 'dict')

    def comp(self, e, kind):
        if kind == 'list' and self.eng.cur is not None and self.eng.cur.comps and isinstance(e, ast.ListComp):
            st = self.eng.comp_loop(e)
            if st is not None:
                return self.comp_loop(e, st)
        # run in a child scope
        fr = self.frame
        outer = fr.env
        fr.env = Env(outer)
        try:
            if len(e.generators) == 1:
                g = e.generators[0]
                it = self.iterate(self.ev(g.iter))
                n = it.n() if callable(it.n) else it.n
                cn = conc(n)
                if isinstance(cn, int) and cn <= 300:
                    return self.comp_conc(e, kind, 0)
                return self.comp_sym(e, kind, g, it, n)
            return self.comp_conc(e, kind, 0)
        finally:
            fr.env = outer

    def comp_loop(self, e, st):
        env = self.frame.env
        names = ['comp_result'] + [n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)]
        old = {n: env[n] for n in names if n in env}
        self.setname('comp_result', self.newref(MList(CList())))
        self.stmt(st)
        r = env['comp_result']
        for n in names:
            env.pop(n, None)
        env.update(old)
        return r

    def comp_conc(self, e, kind, gi):
        out = []

        def rec(k):
            if k == len(e.generators):
                if kind == 'dict':
                    out.append((self.ev(e.key), self.ev(e.value)))
                else:
                    out.append(self.ev(e.elt))
                return
            g = e.generators[k]
            it = self.iterate(self.ev(g.iter))
            n = conc(it.n() if callable(it.n) else it.n)
            if not isinstance(n, int):
                raise Unsupported('nested comprehension over a symbolic sequence')
            for i in range(n):
                self.assign(g.target, it.item(i))
                if all(self.cond(c) for c in g.ifs):
                    rec(k + 1)
        rec(0)
        if kind == 'dict':
            m = self.newref(MMap(CMap()))
            for k, v in out:
                m._val = map_set(self.th, m._val, self.key(k), v)
            return m
        if kind == 'set':
            m = self.newref(MSet(CMap()))
            for k in out:
                m._val = map_set(self.th, m._val, self.key(k), True)
            return m
        return self.newref(MList(CList(out)))

    def comp_sym(self, e, kind, g, it, n):
        th = self.th
        n = th.lift(n)

        def guard(i):
            return z3.And(i >= th.ival(0), i < n)

        def elt(i):
            self.assign(g.target, it.item(i))
            return self.freeze(self.ev(e.elt))

        def test(i):
            self.assign(g.target, it.item(i))
            r = []
            for c in g.ifs:
                t = self.truth(self.ev(c))
                if not self.branch(t) if not isinstance(t, bool) else not t:
                    return False
            return True
        if kind == 'list':
            live = []
            elt0 = elt

            def elt(i):
                self.assign(g.target, it.item(i))
                v = self.ev(e.elt)
                w = v.val if isinstance(v, OptVal) else v
                if isinstance(w, (MObj, MCont)) and w.parent is not None and isinstance(w.parent[0], (MMap, MList)) and w.parent[0].parent is None:
                    # elements that alias the elements of another container: keep the key, read through it
                    live.append(w.parent[0])
                    return self.freeze(w.parent[1])
                if isinstance(w, (MObj, MCont)) and w.aid is not None and w.aid <= aid0:
                    raise Unsupported('a list of shared objects')
                if live:
                    raise Unsupported('mixed list of shared objects')
                return self.freeze(v)
            aid0 = self.aid

            def reader(clo):
                if not live:
                    return clo
                src = live[0]
                if any(x is not src for x in live):
                    raise Unsupported('mixed list of shared objects')
                return lambda q: lget(th, src.val, clo(q)) if isinstance(src, MList) else to_smap(th, src.val).get(tuplelift(th, clo(q)))
            if not g.ifs:
                clo, v, x = self.lam(elt, Int, guard=guard)
                if live:
                    r = SList(n, lambda i: reader(clo)(th.lift(i)))
                    r.live = True
                    return self.newref(MList(r))
                return self.newref(MList(SList(n, lambda i: clo(th.lift(i)))))
            tclo, tv, x = self.lam(test, Int, guard=guard)
            clo, v, _ = self.lam(elt, Int, guard=lambda i: z3.And(guard(i), B(tclo(i))))
            r = self.filtered(n, tclo, reader(clo))
            if live:
                r.live = True
            return self.newref(MList(r))
        if kind == 'dict':
            # distinct keys are required for the model
            if g.ifs:
                raise Unsupported('filtered dict comprehension over a symbolic sequence')

            def kv(i):
                self.assign(g.target, it.item(i))
                return (self.freeze(self.ev(e.key)), self.freeze(self.ev(e.value)))
            clo, v, x = self.lam(kv, Int, guard=guard)
            return self.map_from_pairs(n, clo)
        raise Unsupported('symbolic %s comprehension' % kind)

    def map_from_pairs(self, n, clo):
        """dict built from n (key, value) pairs; later pairs win.  w(k) is the last index with key k."""
        th = self.th
        kv0 = clo(z3.Const('kv!0', th.isort))
        kt = self.shape(kv0[0])
        vt = self.shape(kv0[1])
        m = self.newsym(MapOf(kt, vt), 'dictcomp')
        nm = self.name('last')
        ksorts = [th.sort(t) for t in (kt.els if isinstance(kt, TupleOf) else [kt])]
        w = z3.Function(nm, *(ksorts + [th.isort]))
        ks = [z3.Const('dk%d' % i, s) for i, s in enumerate(ksorts)]
        kk = tuple(ks) if isinstance(kt, TupleOf) else ks[0]
        i = z3.Const('di', th.isort)
        wk = w(*ks)
        self.assume(z3.ForAll(ks, z3.Implies(m.dom(kk), z3.And(wk >= th.ival(0), wk < n, B(keyeq(th, clo(wk)[0], kk)))),
                              patterns=[m.dom(kk)]))
        ki = clo(i)[0]
        kl = list(ki) if isinstance(ki, tuple) else [ki]
        pat = [w(*[th.lift(x) for x in kl])]
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= th.ival(0), i < n), z3.And(m.dom(tuplelift(th, ki)), i <= w(*[th.lift(x) for x in kl])))))
        gv = m.get(kk)
        val = clo(wk)[1]
        e = B(equal_val(th, gv, val))
        self.assume(z3.ForAll(ks, z3.Implies(m.dom(kk), e), patterns=[m.dom(kk)]))
        return self.newref(MMap(m))

    def filtered(self, n, tclo, clo):
        """[clo(i) for i in range(n) if tclo(i)] : sigma enumerates the kept indices in order, rho is its inverse"""
        th = self.th
        m = self.newsym(Int, 'flen')
        sg, rh = self.name('sigma'), self.name('rho')
        lv = self.lamvars
        asort = [a.sort() for a in lv]
        S = z3.Function(sg, *(asort + [th.isort, th.isort]))
        R = z3.Function(rh, *(asort + [th.isort, th.isort]))
        i, j = z3.Const('fi', th.isort), z3.Const('fj', th.isort)
        zero = th.ival(0)
        self.assume(z3.And(m >= zero, m <= n))
        sj = S(*lv, j)
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= zero, j < m),
                                              z3.And(sj >= zero, sj < n, sj >= j, B(tclo(sj)), R(*lv, sj) == j)), patterns=[sj]))
        ri = R(*lv, i)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= zero, i < n, B(tclo(i))),
                                              z3.And(ri >= zero, ri < m, S(*lv, ri) == i)), patterns=[ri]))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= zero, i < n, B(tclo(i))), z3.And(ri >= zero, ri < m, S(*lv, ri) == i))))
        self.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= zero, i < j, j < m), S(*lv, i) < S(*lv, j)),
                              patterns=[z3.MultiPattern(S(*lv, i), S(*lv, j))]))
        return SList(m, lambda q: clo(S(*lv, th.lift(q))))

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id in NOOP_CALLS and self.eng.global_name(self, self.frame.module, e.func.id) is None:
            return None
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            return self.call_super(e)
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = raw(self.ev(a.value))
                if isinstance(v, CList):
                    args += v.items
                elif isinstance(v, tuple):
                    args += v
                else:
                    args.append(StarArg(v))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('** in a call')
            kw[k.arg] = self.ev(k.value)
        self.curline = e.lineno
        self.site = id(e)
        try:
            return self.call(f, args, kw)
        finally:
            self.site = None

    def call_super(self, e):
        fr = self.frame
        cls = getattr(fr.fn, 'cls', None)
        env = fr.env
        selfname = fr.fn.node.args.args[0].arg if fr.fn.node.args.args else None
        sup = e.func.value
        unbound = len(sup.args) == 1      # super(X).m(): not bound to self
        o = self.lookup(selfname)
        start = cls
        if len(sup.args) == 2:
            s0 = self.ev(sup.args[0])
            start = s0 if isinstance(s0, ClassVal) else cls
        args = [self.ev(a) for a in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords}
        if unbound:
            return None if e.func.attr == '__init__' else self.unsupported('unbound super')
        for b in start.bases:
            if isinstance(b, ClassVal):
                r = b.lookup(e.func.attr)
                if r is not None:
                    return self.call(self.member(r[0], r[1], o), args, kw)
            else:
                if e.func.attr == '__init__':
                    return None
                return NoEffect('super')
        return None

    def unsupported(self, m):
        raise Unsupported(m)

    def member(self, f, cls, o):
        return f.bind(o) if isinstance(f, FuncVal) and not f.static else f

    def call(self, f, args, kw):
        if isinstance(f, OptVal):
            self.require(NOT(f.isnone), 'TypeError', 'call of None')
            f = f.val
        if isinstance(f, Builtin):
            return f.fn(self, *( [f.bound] if f.bound is not None else []), *args, **kw)
        if isinstance(f, NoEffect):
            return NoEffect(f.name + '()')
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExtClass):
            m = self.eng.ext_ctor(f.name)
            if m is not None:
                return m(self, *args, **kw)
            raise Unsupported('call of external %s' % f.name)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if f is None or isinstance(f, (int, str)):
            raise PyRaise('TypeError', self.curline)
        if is_z3(f) and f.sort().name() == 'Fn':
            raise Unsupported('call of an opaque function')
        if callable(f):
            return f(self, *args, **kw)
        raise Unsupported('call of %s' % type(f).__name__)

    def instantiate(self, c, args, kw):
        m = self.eng.ctor_model(c.name)
        if m is not None:
            return m(self, *args, **kw)
        o = self.newref(MObj(c, {}))
        r = c.lookup('__init__')
        if r is not None:
            self.call(self.member(r[0], r[1], o), args, kw)
        elif args or kw:
            if all(isinstance(b, ClassVal) for b in c.bases):
                raise PyRaise('TypeError', self.curline)
        return o

    def defaults(self, node):
        a = node.args
        return ([self.ev(d) for d in a.defaults], [self.ev(d) if d is not None else None for d in a.kw_defaults])

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = Env(f.env)
        if f.bound is not None:
            args = [f.bound] + list(args)
        if any(isinstance(x, StarArg) for x in args):
            raise Unsupported('* argument')
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise('TypeError', self.curline)
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        kw = dict(kw)
        for k in list(kw):
            if k in names and k not in env or k in [x.arg for x in a.kwonlyargs]:
                env[k] = kw.pop(k)
        if kw:
            raise PyRaise('TypeError', self.curline)
        dl = f.defaults[0] if f.defaults else []
        for n, d in zip(names[len(names) - len(dl):], dl):
            if n not in env:
                env[n] = d
        if a.kwonlyargs:
            for n, d in zip(a.kwonlyargs, f.defaults[1]):
                if n.arg not in env:
                    env[n.arg] = d
        for n in names:
            if n not in env:
                raise PyRaise('TypeError', self.curline)
        return env, names

    def call_func(self, f, args, kw):
        con = self.eng.contract_for(f)
        if con is not None and not (self.eng.cur is con and not self.frames):
            return self.call_contract(con, f, args, kw)
        if self.depth >= self.MAXDEPTH:
            raise Unsupported('call depth (recursion without a contract): %s' % f.qual)
        env, names = self.bind_args(f, args, kw)
        return self.run_body(f, env)

    def run_body(self, f, env, rename=None):
        fr = Frame(env, f.module, f, f.qual, rename)
        fr.site, self.site = self.site, None
        self.frames.append(fr)
        self.depth += 1
        line = self.curline
        depth = len(self.frames)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(f.node)):
                raise Unsupported('generator function')
            try:
                self.block(f.node.body)
                return None
            except ReturnEx as r:
                return r.v
        finally:
            del self.frames[depth - 1:]
            self.depth -= 1
            self.curline = line

    def call_method(self, o, name, args, kw):
        return self.call(self.getattr(o, name), args, kw)

    def call_contract(self, con, f, args, kw):
        th = self.th
        env, names = self.bind_args(f, args, kw)
        self.eng.note_used(con)
        snames = list(con.params)
        cur = {}
        for i, n in enumerate(names):
            cur[snames[i] if i < len(snames) else n] = env[n]
        cur0 = dict(cur)
        if con.checks is not None:
            con.checks(self, cur)
        for sn, T in con.params.items():
            if sn in cur and type(T).__name__ == 'Const' and not callable(T.v) and (type(cur[sn]) is not type(T.v) or cur[sn] != T.v):
                raise Unsupported('%s is under contract for %s=%r only' % (con.qual, sn, T.v))
            if sn in cur:
                cur[sn] = self.coerce(cur[sn], T)
        old = {k: self.freeze(v) for k, v in cur.items()}
        S = Spec(th, cur, old, eng=self.eng)
        S.ctx = self
        if con.defs is not None and con.callpost is None:
            give = self.assume
            if con.defs_ok == 'once' and not self.loops and self.eng.cur.defs is None and con not in self.defined_once:
                self.defined_once.append(con)      # the functions are new here: nothing else on this path speaks of them
            elif con.defs_ok is not True:          # the contract holds for any functions with these properties: prove that the caller's have them
                give = lambda e: self.oblige('call of %s: definitions' % con.name.split('.')[-1], e[-1] if isinstance(e, tuple) else e, kind='pre')
            for e in aslist(con.defs(S)):
                give(e)
        if con.pre is not None:
            for i, e in enumerate(aslist(con.pre(S))):
                n_, ex = e if isinstance(e, tuple) else ('pre%d' % i, e)
                self.oblige('call of %s: precondition %s' % (con.name.split('.')[-1], n_), ex, kind='pre')
        for exc, c in con.raises.items():
            cond = c(S) if c is not None else None
            if cond is None:
                if self.choose(2):
                    raise PyRaise(exc, self.curline)
            elif self.caught(exc):
                if self.branch(cond):
                    raise PyRaise(exc, self.curline)
            else:
                self.oblige('call of %s: does not raise %s' % (con.name.split('.')[-1], exc), NOT(cond), kind='pre')
        if con.effects is not None:
            r = con.effects(self, cur)
            if r is not None:
                return r
        for path in con.modifies:
            parts = path.split('.')
            v = cur[parts[0]]
            T = con.params[parts[0]]
            if isinstance(v, OptVal):
                v = v.val
            if isinstance(T, Opt):
                T = T.el
            if len(parts) == 1 and not isinstance(v, MObj):
                nv = self.newsym(T, con.name.split('.')[-1] + '.' + path)
                self.setval(v, nv)
                continue
            for a in parts[1:-1]:
                v, T = self.attrs(v)[a], T.fields[a]
            fields = parts[-1:] if len(parts) > 1 else list(T.fields)
            for fl in fields:
                nv = self.newsym(T.fields[fl], '%s.%s' % (con.name.split('.')[-1], fl))
                self.set_attr(v, fl, self.thaw(nv))
        res = None
        if con.ret is not None:
            if isinstance(con.ret, str):
                res = cur0[con.ret[1:]]
            else:
                res = self.thaw(self.newsym(con.ret, con.name.split('.')[-1] + '.result'))
        S = Spec(th, cur, old, res, eng=self.eng)
        S.ctx = self
        post = con.callpost or con.post
        if post is not None:
            for e in aslist(post(S)):
                if con.anyof is not None and con.callpost is not None:
                    e = generalised(e, *con.anyof)
                self.assume(('%s: %s' % (con.name, e[0]), e[1]) if isinstance(e, tuple) else e)
        if not self.feasible(z3.BoolVal(True)):
            self.eng.vacuous.append('contract of %s contradicts its call at line %s' % (con.name, self.curline))
            raise Kill()
        return res

    def coerce(self, v, T):
        """adapt an argument to the type a contract expects (None / int / float distinctions)"""
        if isinstance(T, Opt) and not isinstance(v, OptVal):
            if v is None:
                return OptVal(True, UNDEF)
            return OptVal(False, v)
        if isinstance(T, ObjOf) and isinstance(v, MObj) and v.parent is None:
            for a, t in T.fields.items():
                self.type_one(v.attrs.get(a), t)
        if isinstance(v, OptVal) and not isinstance(T, Opt):
            self.require(NOT(v.isnone), 'TypeError', 'None argument')
            return v.val
        if T is Int and (is_boolish(v)):
            return self.num(v)
        if T is Int and isinstance(v, float) and v.is_integer():
            return int(v)
        if T is Int and is_z3(v) and z3.is_real(v):
            self.oblige('integral argument', z3.IsInt(v), kind='model')
            return z3.ToInt(v)
        if T is Real and isint(v):
            v = self.th.lift(v)
            return z3.ToReal(v) if z3.is_int(v) else v
        return v


class StarArg:
    def __init__(self, v):
        self.v = v


def generalised(e, c, mark):
    """a contract that is proved with the arbitrary constant c holds for every value"""
    n, ex = e if isinstance(e, tuple) else (None, e)
    w = z3.Const('any_' + c.decl().name(), c.sort())
    new = z3.substitute(ex, (c, w))
    if not new.eq(ex):
        ex = z3.ForAll([w], z3.And(mark(w), new), patterns=[mark(w)])
    return ex if n is None else (n, ex)


def aslist(x):
    if x is None:
        return []
    return x if isinstance(x, list) else [x]


def lexdec(a, b):
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        r = z3.Or(z3.And(y < x, x >= 0), z3.And(y == x, r))
    return r
