"""The verification engine: resolves functions in /repo, explores their paths, collects obligations."""
import ast
import os
import sys
import time
from fractions import Fraction
import z3
from .engine import *
from .interp import has_quant
from .run import Run, aslist
from .ops import fn, FmtVal
from .builtins_ import PackVal


class Const:
    """parameter fixed to a value"""

    def __init__(self, v):
        self.v = v


class ContractResult:
    def __init__(self, con):
        self.con = con
        self.obls = []
        self.error = None
        self.paths = 0
        self.exits = []          # (hyps) of normal exits, for the vacuity check
        self.raised = 0
        self.pre_hyps = None
        self.axioms = set()
        self.used = []
        self.renames = {}
        self.lines = 0


EXT_MODULES = ('math', 'struct', 'random', 'json', 'sys', 'copy', 'collections', 'numpy', 're', 'capstone', 'os', 'heapq')


class Engine:
    def __init__(self, root='/repo', contracts=(), feas_ms=400):
        self.root = root
        self.repo = Repo(root)
        self.contracts = {}
        for c in contracts:
            self.contracts.setdefault(c.qual, []).append(c)
        self.th = Theory('int')
        self.feas_ms = feas_ms
        self.cur = None
        self.modsets = {}
        self.vacuous = []
        self.ns = {}
        self.classes = {}
        self.loading = set()
        self.static = 0
        self.opaque = {}
        self.objattrs = {}
        self.ext = {}
        self.ctors = {}
        self.extmethods = {}
        self.res = None
        self.rename = {}
        self._loops = {}
        self._inst_has = {}
        self.parse = None
        install_models(self)

    # ------------------------------------------------------------ name resolution
    def module_ns(self, name):
        if name in self.ns:
            return self.ns[name]
        m = self.repo.load(name)
        if m is None:
            return None
        ns = Env()
        self.ns[name] = ns
        ctx = Run(self, [])
        ctx.frames.append(Frame(ns, name, None, name))
        self.static += 1
        cur, self.cur = self.cur, None
        th, self.th = self.th, Theory('int')
        ctx.th = self.th
        try:
            for s in m.tree.body:
                self.static_stmt(ctx, ns, name, s)
        finally:
            self.static -= 1
            self.cur = cur
            self.th = th
        return ns

    def static_stmt(self, ctx, ns, mod, s):
        try:
            if isinstance(s, ast.ClassDef):
                ns[s.name] = self.make_class(ctx, ns, mod, s)
            elif isinstance(s, ast.FunctionDef):
                ns[s.name] = self.make_func(ctx, mod, s, None, ns)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    ns[a.asname or a.name.split('.')[0]] = self.import_module(a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == '*':
                        other = self.module_ns(s.module)
                        if other is not None:
                            for k, v in other.items():
                                if not k.startswith('_'):
                                    ns[k] = v
                    else:
                        ns[a.asname or a.name] = self.import_from(ctx, s.module, a.name)
            else:
                ctx.stmt(s)
        except (Unsupported, PyRaise, Kill) as e:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    ns[n.id] = Undef('module level: %s' % e)

    def make_func(self, ctx, mod, s, cls, env):
        static = prop = classm = False
        for d in s.decorator_list:
            nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if nm == 'staticmethod':
                static = True
            elif nm == 'property':
                prop = True
            elif nm == 'classmethod':
                classm = True
            elif nm == 'setter':
                pass
            else:
                return Undef('decorator')
        try:
            dfl = ctx.defaults(s)
        except (Unsupported, PyRaise):
            dfl = None
        q = '%s:%s%s' % (mod, cls.name + '.' if cls else '', s.name)
        return FuncVal(s, mod, cls, None, q, static, None, prop, classm, dfl)

    def make_class(self, ctx, ns, mod, s):
        c = ClassVal(s, mod, '%s:%s' % (mod, s.name))
        for b in s.bases:
            try:
                v = ctx.ev(b)
            except Unsupported:
                v = ExtClass(b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '?'))
            if not isinstance(v, (ClassVal, ExtClass)):
                v = ExtClass(getattr(v, 'name', 'object'))
            c.bases.append(v)
        env = Env(ns, {})
        c.ns = env
        fr = Frame(env, mod, None, c.qual)
        ctx.frames.append(fr)
        try:
            for x in s.body:
                if isinstance(x, ast.FunctionDef):
                    f = self.make_func(ctx, mod, x, c, env)
                    setter = any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in x.decorator_list)
                    env[x.name + ('.setter' if setter else '')] = f
                else:
                    self.static_stmt(ctx, env, mod, x)
        finally:
            ctx.frames.pop()
        self.classes[s.name] = c
        return c

    def class_by_name(self, name):
        if ':' in name:
            mod, cn = name.split(':')
            return self.module_ns(mod)[cn]
        if name in self.classes:
            return self.classes[name]
        raise Unsupported('class %s not found' % name)

    def inst_has(self, *names):
        """does an instruction class of the repository define one of these special methods?"""
        if names not in self._inst_has:
            self._inst_has[names] = False
            for m, c in (('instruction', 'Instruction'), ('capstone_instruction', 'CAPSInstruction'), ('arm_instruction', 'ARMInstruction'), ('darm_instruction', 'DARMInstruction')):
                ns = self.module_ns('semantic_codec.architecture.' + m)
                k = ns.get(c) if ns is not None else None
                if isinstance(k, ClassVal) and any(k.lookup(x) for x in names):
                    self._inst_has[names] = True
        return self._inst_has[names]

    def global_name(self, ctx, module, name):
        ns = self.module_ns(module)
        if ns is not None and name in ns:
            v = ns[name]
            if isinstance(v, Undef):
                raise Unsupported('module name %s: %s' % (name, v.why))
            return (v,)
        return None

    def import_module(self, name):
        return ModVal(name, name)

    def import_from(self, ctx, module, name):
        ns = self.module_ns(module) if self.repo.path_of(module) else None
        if ns is not None:
            if name in ns:
                return ns[name]
            sub = module + '.' + name
            if self.repo.path_of(sub):
                return ModVal(sub, sub)
            return Undef('%s has no %s' % (module, name))
        k = '%s.%s' % (module, name)
        if k in self.ext:
            v = self.ext[k]
            return Builtin(k, v) if callable(v) else v
        return ExtClass(k)

    def mod_attr(self, ctx, m, a):
        if self.repo.path_of(m.name):
            ns = self.module_ns(m.name)
            if a in ns:
                return ns[a]
            if self.repo.path_of(m.name + '.' + a):
                return ModVal(m.name + '.' + a)
        k = '%s.%s' % (m.name, a)
        if k in self.ext:
            v = self.ext[k]
            return Builtin(k, v) if callable(v) else v
        return ExtClass(k)

    def ext_ctor(self, name):
        return self.ctors.get(name)

    def ctor_model(self, name):
        if self.static:
            return None
        return self.ctors.get(name)

    def ext_method(self, cls, a):
        return self.extmethods.get((cls, a))

    def obj_attr(self, ctx, o, a):
        t = self.objattrs.get(o.cls.name)
        if t and a in t:
            return (t[a](ctx, o),)
        return None

    def opaque_attr(self, ctx, o, a):
        t = self.opaque.get(o.sort().name())
        if not t or a not in t:
            return None
        sp = t[a]
        if callable(sp) and not isinstance(sp, Ty):
            return (sp(ctx, o),)
        kind, T = sp[0], sp[1]
        facts = sp[2] if len(sp) > 2 else None
        nm = '%s.%s' % (o.sort().name(), a)

        def val(*extra):
            v = ctx.fresh(T, nm, (o,) + tuple(ctx.th.lift(e) for e in extra))
            if facts is not None:
                for f in aslist(facts(ctx, o, v)):
                    ctx.assume(f)
            return ctx.thaw(v)
        if kind == 'attr':
            return (val(),)
        return (Builtin(a, lambda c, *x: val(*x)),)

    def parse_int(self, ctx, v, base):
        return self.parse(ctx, v, base) if self.parse else None

    # ------------------------------------------------------------ contracts
    def contract_for(self, f):
        if self.static or self.cur is None:
            return None
        cs = self.contracts.get(f.qual)
        if not cs and f.cls is not None:
            # an inherited method is verified where it is defined
            cs = None
        if not cs:
            return None
        for c in cs:
            if c.inline:
                return None
            if c.mode == self.cur.mode or c.mode == 'any':
                if c.qual in (self.cur.inline_ or ()):
                    return None
                return c
        return None

    def note_used(self, con):
        if self.res is not None and con.name not in self.res.used:
            self.res.used.append(con.name)

    def use_lemma(self, name):
        if self.res is not None:
            self.res.axioms.add(name)

    def add_obligation(self, o):
        o.seq = len(self.res.obls)
        self.res.obls.append(o)

    # ------------------------------------------------------------ loops
    def loop_list(self, f):
        key = id(f.node)
        if key in self._loops:
            return self._loops[key]
        out, seen = [], set()
        sites = self.cur is not None and self.cur.sites
        comps = self.cur is not None and self.cur.comps

        def visit(node, fv, depth, chain=()):
            for ch in ast.iter_child_nodes(node):
                if comps and isinstance(ch, ast.ListComp):
                    ch = self.comp_loop(ch) or ch
                if isinstance(ch, (ast.For, ast.While)):
                    if (chain, id(ch)) not in seen:
                        seen.add((chain, id(ch)))
                        out.append((chain, ch))
                if isinstance(ch, ast.Call) and depth < 4:
                    visit(ch, fv, depth, chain)
                    g = self.static_callee(ch, fv)
                    if g is not None and (sites or id(g.node) not in seen) and not self.contract_for(g):
                        seen.add(id(g.node))
                        visit(g.node, g, depth + 1, chain + (id(ch),) if sites else ())
                    continue
                visit(ch, fv, depth, chain)
        for st in f.node.body if not isinstance(f.node, ast.Lambda) else []:
            w = ast.Module(body=[st], type_ignores=[])
            visit(w, f, 0)
        self._loops[key] = out
        return out

    def comp_loop(self, e):
        """the loop that a comprehension stands for: the value is left in a local named comp_result"""
        if len(e.generators) != 1 or not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) for n in ast.walk(e.elt)):
            return None
        if not hasattr(e, 'pyvc_loop'):
            g = e.generators[0]
            st = ast.parse('for _ in _:\n    comp_result.append(_)').body[0]
            st.target, st.iter = g.target, g.iter
            st.body[0].value.args = [e.elt]
            if g.ifs:
                st.body = [ast.If(test=ast.BoolOp(op=ast.And(), values=g.ifs) if len(g.ifs) > 1 else g.ifs[0], body=st.body, orelse=[])]
            for n in ast.walk(st):
                if not hasattr(n, 'lineno') or n.lineno < 3:
                    n.lineno, n.col_offset = e.lineno, e.col_offset
            e.pyvc_loop = st
        return e.pyvc_loop

    def static_callee(self, call, fv):
        x = call.func
        try:
            if isinstance(x, ast.Name):
                g = self.global_name(None, fv.module, x.id)
                g = g[0] if g else None
            elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                if x.value.id == 'self' and fv.cls is not None:
                    r = fv.cls.lookup(x.attr)
                    g = r[0] if r else None
                else:
                    c = self.global_name(None, fv.module, x.value.id)
                    c = c[0] if c else None
                    r = c.lookup(x.attr) if isinstance(c, ClassVal) else None
                    g = r[0] if r else None
            else:
                return None
        except Unsupported:
            return None
        return g if isinstance(g, FuncVal) else None

    def loop_spec(self, ctx, node):
        lst = self.loop_list(self.curf) if self.curf is not None else []
        chain = tuple(f.site for f in ctx.frames[1:]) if self.cur is not None and self.cur.sites else ()
        for i, (c, n) in enumerate(lst):
            if n is node and c == chain:
                spec = self.cur.loops[i] if self.cur is not None and i < len(self.cur.loops) else None
                return spec, (self.cur.name if self.cur else '', i)
        return None, (self.cur.name if self.cur else '', 'x%d' % node.lineno)

    def loop_name(self, key):
        return str(key[1])

    # ------------------------------------------------------------ verification
    def resolve(self, con):
        mod, q = con.qual.split(':')
        ns = self.module_ns(mod)
        if ns is None:
            raise Unsupported('module %s not found' % mod)
        parts = q.split('.')
        v = ns.get(parts[0])
        if len(parts) == 2 and isinstance(v, ClassVal):
            r = v.lookup(parts[1])
            v = r[0] if r else None
        if not isinstance(v, FuncVal):
            raise Unsupported('function %s not found' % con.qual)
        return v

    def verify(self, con, maxpaths=MAXPATHS, budget=120):
        t0 = time.time()
        ren = {}
        best = None
        tried = 0
        queue = [{}]
        while queue:
            ren = queue.pop(0)
            tried += 1
            r = self.verify1(con, ren, maxpaths, budget)
            if r.error and isinstance(r.error, tuple) and r.error[0] == 'name':
                _, name, avail = r.error
                taken = set(ren.values())
                cands = [a for a in avail if a not in taken and not a.startswith('__')]
                cands.sort(key=lambda a: -similar(a, name))
                queue = [dict(ren, **{name: a}) for a in cands[:8]] + queue
                if best is None:
                    best = r
                if tried > 40 or time.time() - t0 > budget:
                    break
                continue
            r.renames = ren
            if not ren:
                return r
            return r
        best.error = 'specification name %s is not a local of %s' % (best.error[1], con.qual)
        return best

    def verify1(self, con, ren, maxpaths, budget):
        res = ContractResult(con)
        self.res = res
        t0 = time.time()
        try:
            f = self.resolve(con)
        except Unsupported as e:
            res.error = str(e)
            return res
        except SyntaxError as e:
            res.error = 'syntax error: %s' % e
            return res
        res.lines = (f.node.end_lineno or 0) - f.node.lineno + 1
        self.cur, self.curf = con, f
        con.inline_ = getattr(con, 'inline_', None)
        self.modsets = {}
        self.vacuous = []
        self._loops = {}
        try:
            for ci, case in enumerate(con.cases or [None]):
                nob0 = len(res.obls)
                restarts = 0
                stack = [[]]
                ex0 = len(res.exits)
                while stack:
                    pre = stack.pop()
                    res.paths += 1
                    if res.paths > maxpaths or time.time() - t0 > budget:
                        raise Unsupported('too many paths (%d, %.0f s)' % (res.paths, time.time() - t0))
                    self.th = Theory(con.mode if con.mode != 'any' else 'int', con.W)
                    ctx = Run(self, pre)
                    try:
                        self.run_path(ctx, con, f, case, ren, res)
                    except Kill:
                        pass
                    except Restart:
                        restarts += 1
                        if restarts > 200:
                            raise Unsupported('loop modification sets do not stabilise')
                        del res.obls[nob0:]
                        del res.exits[ex0:]
                        stack = [[]]
                        continue
                    stack.extend(ctx.pending)
                if case is not None:
                    for o in res.obls[nob0:]:
                        o.name = '[case %s] %s' % (case.get('name', ci), o.name)
        except SpecNameError as e:
            res.error = ('name', e.name, e.avail)
        except Unsupported as e:
            res.error = 'not supported: %s (line %s)' % (e, getattr(locals().get('ctx'), 'curline', '?'))
        except PyRaise as e:
            res.error = 'escaped %s at line %s' % (e.name, e.line)
        except RecursionError:
            res.error = 'recursion limit'
        except z3.Z3Exception as e:
            if os.environ.get('PYVC_DEBUG'):
                raise
            res.error = 'internal: %s (line %s)' % (e, getattr(locals().get('ctx'), 'curline', '?'))
        except (AttributeError, TypeError, KeyError, IndexError, AssertionError, ValueError) as e:
            if os.environ.get('PYVC_DEBUG'):
                raise
            res.error = 'internal: %s: %s (line %s)' % (type(e).__name__, e, getattr(locals().get('ctx'), 'curline', '?'))
        if self.vacuous and not res.error:
            res.error = '; '.join(self.vacuous)
        if not res.error and not res.exits and not res.raised:
            res.error = 'no path reaches the end of the function'
        self.res = None
        return res

    def run_path(self, ctx, con, f, case, ren, res):
        th = self.th
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        snames = list(con.params)
        frame_ren = dict(ren)
        vals = []
        for i, sn in enumerate(snames):
            T = con.params[sn]
            if case is not None and sn in case:
                v = case[sn]
                v = v(ctx) if callable(v) and not isinstance(v, Ty) else v
            elif isinstance(T, Const):
                v = T.v(ctx) if callable(T.v) else T.v
            else:
                v = ctx.thaw(ctx.newsym(T, sn))
            vals.append(v)
        static = f.static
        if f.bound is None and len(vals) > len(names) and a.vararg is None:
            raise Unsupported('the function lost parameters')
        env = Env(f.env)
        for n, v in zip(names, vals):
            env[n] = v
        for sn, n in zip(snames, names):
            if sn != n:
                frame_ren[sn] = n
        if len(names) > len(vals):
            dl = f.defaults[0] if f.defaults else []
            for n, d in zip(names[len(names) - len(dl):], dl):
                if n not in env:
                    env[n] = d
            for n in names:
                if n not in env:
                    raise Unsupported('unknown parameter %s' % n)
        cur = dict(zip(snames, vals))
        old = {k: ctx.freeze(v) for k, v in cur.items() if not isinstance(v, (FuncVal, ClassVal, NoEffect))}
        # views in the old state must not alias live references
        ctx.old_top = old
        ctx.top = cur
        S = Spec(th, cur, old, eng=self)
        S.ctx = ctx
        S.case = case
        ctx.case = case
        if con.defs is not None:
            for e in aslist(con.defs(S)):
                ctx.assume(e)
        if con.pre is not None:
            for e in aslist(con.pre(S)):
                ctx.assume(e)
        if con.lemmas is not None:
            for lm in aslist(con.lemmas(S)):
                self.induct(ctx, lm)
        if res.pre_hyps is None:
            res.pre_hyps = [e for _, e in ctx.pc]
        init = {k: snapshot(v) for k, v in cur.items()}
        try:
            r = ctx.run_body(f, env, frame_ren)
        except PyRaise as ex:
            S = Spec(th, cur, old, eng=self)
            S.ctx = ctx
            for nm, c in con.raises.items():
                if exc_matches(ex.name, nm):
                    if c is not None:
                        ctx.oblige('%s (line %s) is raised only when documented' % (ex.name, ex.line), c(S), kind='raises', assume=False)
                    res.raised += 1
                    return
            ctx.oblige('no %s (line %s)' % (ex.name, ex.line), False, kind='safety', assume=False)
            return
        if isinstance(con.ret, (Opt,)) and not isinstance(r, OptVal):
            r = OptVal(True, UNDEF) if r is None else OptVal(False, r)
        if con.ret is Real and (isinstance(r, int) or (is_z3(r) and z3.is_int(r))):
            r = z3.ToReal(th.lift(int(r) if isinstance(r, bool) else r))
        if con.ret is Int and not isinstance(r, OptVal) and is_boolish(r):
            r = ctx.num(r)
        if con.ret is Int and isinstance(r, float) and r.is_integer():
            r = int(r)
        if con.ret is Bool and not is_boolish(r):
            r = ctx.truth(r)
        if isinstance(con.ret, Grid):
            r = as_grid(ctx, r)
        S = Spec(th, cur, old, r, eng=self)
        S.ctx = ctx
        S.case = case
        ctx.curline = f.node.lineno
        res.exits.append([e for _, e in ctx.pc])
        for exc, c in con.raises.items():
            if c is not None:
                ctx.oblige('returns normally only when no %s is due' % exc, NOT(c(S)), kind='raises', assume=False)
        if con.hints is not None:
            for e in aslist(con.hints(S)):
                ctx.oblige('lemma', e, kind='hint')
        if con.post is not None:
            for i, e in enumerate(aslist(con.post(S))):
                n_, ex = e if isinstance(e, tuple) else ('post%d' % i, e)
                ctx.oblige('postcondition %s' % n_, ex, kind='post', assume=True)
        if con.callpost is not None:
            for e in aslist(con.callpost(S)):
                n_, ex = e if isinstance(e, tuple) else ('for callers', e)
                ctx.oblige('postcondition for callers: %s' % n_, ex, kind='post', assume=False)
        if isinstance(con.ret, Ty) and not isinstance(con.ret, (Opt,)) and con.ret is not NoneT:
            why = type_mismatch(con.ret, r)
            if why:
                raise Unsupported('result type: %s' % why)
        # frame: parameters not listed in modifies keep their value
        mods = set(con.modifies)
        for k, v in cur.items():
            for path, changed, now, before in diff(k, init[k], v, ctx):
                if any(path == m or path.startswith(m + '.') or path.startswith(m + '[') for m in mods):
                    continue
                if changed:
                    ctx.oblige('frame: %s is not modified' % path, ctx.eq(now, before), kind='frame', assume=False)


def flat(ctx, q, rng, P):
    """for all q: rng => P, with the quantifiers of the conjuncts of P pulled out where their triggers mention q"""
    if z3.is_and(P):
        return z3.And([flat(ctx, q, rng, c) for c in P.children()])
    if z3.is_quantifier(P) and P.is_forall() and P.num_patterns():
        vs = [z3.Const(ctx.name('v'), P.var_sort(i)) for i in range(P.num_vars())]
        sub = lambda e: z3.substitute_vars(e, *reversed(vs))
        pats = [P.pattern(i) for i in range(P.num_patterns())]
        keep = [[sub(c) for c in p.children()] for p in pats]      # z3.MultiPattern does not hold its arguments while it builds
        pats = [z3.MultiPattern(*p) for p in keep]
        if all(any(mentions(c, q) for c in p.children()) for p in pats):
            return z3.ForAll([q] + vs, z3.Implies(rng, sub(P.body())), patterns=pats)
    return z3.ForAll([q], z3.Implies(rng, P))


def mentions(e, q):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.eq(x, q):
            return True
        st.extend(x.children())
    return False


def _induct(self, ctx, lm):
    """base and step become obligations, the conclusion an assumption"""
    th = ctx.th
    lo, hi = th.lift(lm.lo), th.lift(lm.hi) if lm.hi is not None else None
    below = lambda x: [x < hi] if hi is not None else []
    k = z3.Const(ctx.name('ind'), th.isort)
    if not isinstance(lm, Ind):
        raise Unsupported('lemma')
    a, b = (lm.P(k + 1), lm.P(k)) if lm.down else (lm.P(k), lm.P(k + 1))
    ctx.oblige('lemma %s: base' % lm.name, z3.Implies(lo <= hi if hi is not None else z3.BoolVal(True), B(lm.P(hi if lm.down else lo))), kind='lemma', assume=False)
    ctx.oblige('lemma %s: step' % lm.name, z3.Implies(z3.And(k >= lo, *below(k), B(a)), B(b)), kind='lemma', assume=False)
    q = z3.Const(ctx.name('indq'), th.isort)
    rng = z3.And(q >= lo, q <= hi) if hi is not None else q >= lo
    body = z3.Implies(rng, B(lm.P(q)))
    e = z3.ForAll([q], body, patterns=[f(q) for f in (lm.pat if isinstance(lm.pat, (list, tuple)) else [lm.pat])]) if lm.pat is not None else flat(ctx, q, rng, B(lm.P(q)))
    if lm.local:
        ctx.local_lemmas[lm.name] = e
    else:
        ctx.assume((lm.name, e))


Engine.induct = _induct


def as_grid(ctx, r):
    """a list of rows of the same length is a table, too"""
    l = raw(r)
    if isinstance(l, CList) and l.items and all(isinstance(raw(x), CList) for x in l.items) and len({len(raw(x).items) for x in l.items}) == 1:
        rows = [[ctx.th.lift(ctx.num(x)) for x in raw(row).items] for row in l.items]
        rows = [[z3.ToReal(x) if z3.is_int(x) else x for x in row] for row in rows]

        def get(i, j):
            v = rows[-1][-1]
            for a, row in reversed(list(enumerate(rows))):
                for b, x in reversed(list(enumerate(row))):
                    if a < len(rows) - 1 or b < len(row) - 1:
                        v = z3.If(z3.And(i == a, j == b), x, v)
            return v
        return ctx.newref(MGrid(GridVal(ctx.th.ival(len(rows)), ctx.th.ival(len(rows[0])), get)))
    return r


def type_mismatch(T, r):
    r = raw(r)
    if isinstance(T, ListOf) and not isinstance(r, (CList, SList)):
        return 'a list was expected'
    if isinstance(T, MapOf) and not isinstance(r, (CMap, SMap)):
        return 'a dict was expected'
    if isinstance(T, TupleOf) and not (isinstance(r, tuple) and len(r) == len(T.els)):
        return 'a tuple of %d was expected' % len(T.els)
    return None


def snapshot(v):
    if isinstance(v, MObj):
        return ('obj', dict(v.attrs), {k: snapshot(x) for k, x in v.attrs.items()})
    if isinstance(v, MCont):
        return ('cont', v._val)
    if isinstance(v, tuple):
        return ('tuple', [snapshot(x) for x in v])
    if isinstance(v, OptVal):
        return ('opt', snapshot(v.val))
    return ('val', v)


def diff(path, snap, v, ctx):
    if snap[0] == 'obj':
        for k, x in v.attrs.items():
            if k not in snap[1]:
                continue
            old = snap[1][k]
            if isinstance(old, (MCont, MObj, OptVal, tuple)) and x is old:
                yield from diff(path + '.' + k, snap[2][k], x, ctx)
            elif x is not old and not same(x, old):
                s = snap[2][k]
                yield (path + '.' + k, True, x, s[1] if s[0] in ('cont', 'val') else old)
    elif snap[0] == 'cont':
        if v._val is not snap[1]:
            yield (path, True, v, snap[1])
    elif snap[0] == 'tuple':
        for i, (a, b) in enumerate(zip(snap[1], v)):
            yield from diff('%s[%d]' % (path, i), a, b, ctx)
    elif snap[0] == 'opt' and isinstance(v, OptVal):
        yield from diff(path, snap[1], v.val, ctx)


def similar(a, b):
    import difflib
    return difflib.SequenceMatcher(None, a, b).ratio()


# ------------------------------------------------------------------------------ models of external code
INST_ATTRS = {
    'encoding': ('attr', Int, lambda c, o, v: [v >= 0, v < 2 ** 32] if not c.th.bv else []),
    'address': ('attr', Int),
    'ignore': ('attr', Bool),
    'is_undefined': ('attr', Bool),
    'conditional_field': ('attr', Int),
    'opcode_field': ('attr', Int),
    'is_branch': ('attr', Bool),
    'is_push_pop': ('attr', Bool),
    'jumping_address': ('attr', Opt(Int)),
    'storages_used': ('method', ListOf(Int)),
    'storages_read': ('method', ListOf(Int)),
    'storages_written': ('method', ListOf(Int)),
    'registers_used': ('method', ListOf(Int)),
    'registers_read': ('method', ListOf(Int)),
    'registers_written': ('method', ListOf(Int)),
    'modifies_flags': ('method', Bool),
    'is_a': ('method', Bool),
    'score': ('method', Real),
    '__str__': ('attr', Str),
    'link_instruction': ('attr', Opt(Opaque('Inst'))),
}


def field_code(fmt, strict=True):
    """number of bytes, twice, plus one for big-endian fields; unsigned fields of a standard size only"""
    if isinstance(fmt, str) and len(fmt) == 2 and fmt[0] in '<>!' and fmt[1] in 'BHILQ':
        return 2 * {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}[fmt[1]] + (fmt[0] != '<')
    if strict:
        raise Unsupported('field format %r' % (fmt,))
    return None


class FileBytes:
    """what a read returned: one field, or too few bytes"""

    def __init__(self, n, t):
        self.n, self.t = n, t

    def py_unpack(self, ctx, fmt):
        if self.t is None or field_code(fmt) // 2 != conc(self.n):
            raise PyRaise('struct.error', ctx.curline)
        ctx.oblige('fields are read in the format they were written in', ctx.th.lift(ctx.num(self.t[0])) == field_code(fmt), kind='model')
        return (self.t[1],)


def install_models(eng):
    E = eng.ext

    def num1(name):
        return E

    def floor(ctx, v):
        v = ctx.num(v)
        if isinstance(v, (int, float, Fraction)):
            import math
            return math.floor(v)
        if z3.is_int(v):
            return v
        # the floor of an integer over a positive integer constant is the integer quotient
        d = z3.simplify(v.arg(1)) if v.decl().kind() == z3.Z3_OP_DIV else None
        if d is not None and z3.is_rational_value(d) and d.denominator_as_long() == 1 and d.numerator_as_long() > 0 and v.arg(0).decl().kind() == z3.Z3_OP_TO_REAL:
            return v.arg(0).arg(0) / z3.IntVal(d.numerator_as_long())
        if d is not None and all(v.arg(k).decl().kind() == z3.Z3_OP_TO_REAL for k in (0, 1)) and conc(v.arg(1)) is None:
            a, b = v.arg(0).arg(0), v.arg(1).arg(0)
            q = ctx.newsym(Int, 'quotient')
            ctx.assume(z3.Implies(b > 0, z3.And(q * b <= a, a < q * b + b, z3.Implies(a >= b, q >= 1), z3.Implies(a >= 0, q >= 0))))
            ctx.assume(z3.Implies(b <= 0, q == z3.ToInt(v)))
            return q
        return z3.ToInt(v)

    def ceil(ctx, v):
        v = ctx.num(v)
        if isinstance(v, (int, float, Fraction)):
            import math
            return math.ceil(v)
        return v if z3.is_int(v) else -z3.ToInt(-v)

    def fmod(ctx, a, b):
        a, b = ctx.num(a), ctx.num(b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            import math
            if b == 0:
                raise PyRaise('ValueError', ctx.curline)
            r = math.fmod(a, b)
            return int(r) if r.is_integer() else r
        la, lb = ctx.th.lift(a), ctx.th.lift(b)
        ctx.require(lb != 0, 'ValueError', 'fmod by zero')
        if z3.is_int(la) and z3.is_int(lb) and conc(b) is None:
            q, r = ctx.newsym(Int, 'quotient'), ctx.newsym(Int, 'remainder')
            ctx.assume(z3.Implies(z3.And(la >= 0, lb > 0), z3.And(la == q * lb + r, r >= 0, r < lb, q >= 0, z3.Implies(la < lb, q == 0), z3.Implies(z3.And(la >= lb, la < 2 * lb), q == 1))))
            ctx.assume(z3.Implies(z3.Not(z3.And(la >= 0, lb > 0)), r == z3.If(la >= 0, la % z3.If(lb >= 0, lb, -lb), -((-la) % z3.If(lb >= 0, lb, -lb)))))
            return r
        if z3.is_int(la) and z3.is_int(lb):
            ab = z3.If(lb >= 0, lb, -lb) if not isinstance(conc(b), int) else z3.IntVal(abs(conc(b)))
            return z3.If(la >= 0, la % ab, -((-la) % ab))
        la = z3.ToReal(la) if z3.is_int(la) else la
        lb = z3.ToReal(lb) if z3.is_int(lb) else lb
        q = la / lb
        t = z3.If(q >= 0, z3.ToInt(q), -z3.ToInt(-q))
        return la - lb * z3.ToReal(t)
    E['math.floor'], E['math.ceil'], E['math.fmod'] = floor, ceil, fmod

    def log(ctx, v, b=None):
        v = ctx.num(v)
        lv = ctx.th.lift(v)
        lv = z3.ToReal(lv) if z3.is_int(lv) else lv
        ctx.require(lv > 0, 'ValueError', 'log of a non positive number')
        f = z3.Function('log_%s' % (conc(b) if b is not None else 'e'), z3.RealSort(), z3.RealSort())
        return f(lv)
    E['math.log'] = log
    E['sys.maxsize'] = 2 ** 63 - 1

    def randint(ctx, a, b):
        a, b = ctx.th.lift(ctx.num(a)), ctx.th.lift(ctx.num(b))
        ctx.require(a <= b, 'ValueError', 'empty range for randint')
        r = ctx.newsym(Int, 'rand')
        ctx.assume(z3.And(r >= a, r <= b))
        return r
    E['random.randint'] = randint
    E['copy.deepcopy'] = lambda ctx, v: ctx.thaw(ctx.freeze(v))
    E['copy.copy'] = lambda ctx, v: ctx.thaw(ctx.freeze(v))

    def zeros(ctx, shape=None, **k):
        shape = shape if isinstance(shape, tuple) else (shape, shape)
        return ctx.newref(MGrid(GridVal(ctx.th.lift(shape[0]), ctx.th.lift(shape[1]), lambda i, j: z3.RealVal(0))))
    E['numpy.zeros'] = zeros

    def pack(ctx, fmt, *vals):
        if isinstance(fmt, str) and len(vals) == 1 and field_code(fmt, False) is not None and not ctx.th.bv:
            v = ctx.th.lift(ctx.num(vals[0]))
            ctx.require(z3.And(v >= 0, v < z3.IntVal(1 << (8 * (field_code(fmt) // 2)))), 'struct.error', 'value does not fit its field')
        r = PackVal(fmt, vals)
        r.words = packed_words(ctx, fmt, vals)
        return r

    def packed_words(ctx, fmt, vals):
        """struct.pack('%dI' % len(l), *l): the list of words and whether they are big-endian"""
        if not (isinstance(fmt, FmtVal) and isinstance(fmt.fmt, str) and len(vals) == 1 and hasattr(vals[0], 'v') and isinstance(vals[0].v, (CList, SList))) or ctx.th.bv:
            return None
        f, args = fmt.fmt, fmt.args if isinstance(fmt.args, tuple) else (fmt.args,)
        order = f[0] if f[:1] in '<>!=@' else ''
        if f[len(order):] not in ('%sI', '%dI', '%iI', '%sL' if order in ('<', '>', '!', '=') else '%sI') or len(args) != 1:
            return None
        th = ctx.th
        l = to_slist(th, vals[0].v)
        n, i = th.lift(l.n), z3.Const(ctx.name('pw'), th.isort)
        ctx.require(th.lift(ctx.num(args[0])) == n, 'struct.error', 'number of words')
        ctx.require(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(th.lift(ctx.num(l.get(i))) >= 0, th.lift(ctx.num(l.get(i))) < 2 ** 32))), 'struct.error', 'value does not fit its field')
        return l, order in ('>', '!')

    def bits_new(ctx, initial=None, endian='big', *a, **k):
        if initial is not None or a or k or endian not in ('big', 'little'):
            raise Unsupported('bitarray with initial contents')
        r = MBits(SList(ctx.th.ival(0), lambda i, nm=ctx.name('bit'): ctx.fresh(Int, nm, (i,)), Int))
        r.big = endian == 'big'
        return ctx.newref(r)
    eng.ctors['bitarray.bitarray'] = bits_new

    def unpack(ctx, fmt, data):
        if isinstance(data, PackVal):
            return unpack_model(ctx, fmt, data)
        if hasattr(data, 'py_unpack'):
            return data.py_unpack(ctx, fmt)
        raise Unsupported('unpack of %s' % type(data).__name__)
    E['struct.pack'], E['struct.unpack'] = pack, unpack

    # ---- binary files: a list of fields, each with the format it was written in
    def token(ctx, data):
        if not isinstance(data, PackVal):
            raise Unsupported('writing something else than a packed number')
        return (field_code(data.fmt), ctx.num(data.vals[0]))

    def field(ctx, n, t):
        ctx.oblige('whole fields are read', ctx.th.lift(ctx.num(t[0])) / 2 == ctx.th.lift(ctx.num(n)), kind='model')
        return FileBytes(n, t)

    def short(ctx):
        return FileBytes(None, None)
    E['pyvc.token'], E['pyvc.field'], E['pyvc.short'] = token, field, short

    def byteswap(ctx, v):
        th = ctx.th
        if th.bv:
            b = [(v >> th.ival(8 * i)) & th.ival(255) for i in range(4)]
            return (b[0] << th.ival(24)) | (b[1] << th.ival(16)) | (b[2] << th.ival(8)) | b[3]
        raise Unsupported('byte swap outside bit-vector mode')

    def unpack_model(ctx, fmt, data):
        th = ctx.th
        if len(data.vals) == 1 and fmt[-1] in 'IL' and data.fmt[-1] in 'IL' and len(fmt) == 2 and len(data.fmt) == 2:
            v = th.lift(ctx.num(data.vals[0]))
            ctx.require(z3.And(v >= th.ival(0), v <= th.ival(2 ** 32 - 1)), 'struct.error', 'value does not fit 4 bytes')
            big = lambda f: f[0] in '>!'
            if big(fmt) == big(data.fmt):
                return (v,)
            return (byteswap(ctx, v),)
        raise Unsupported('unpack %s of %s' % (fmt, data.fmt))

    eng.opaque['Inst'] = dict(INST_ATTRS)

    def scores(ctx, o):
        """the table of partial scores of an instruction: an entry of the ghost table `ghost_scores` of the object under proof"""
        f0 = ctx.frames[0]
        me = f0.env.get(f0.fn.node.args.args[0].arg) if f0.fn.node.args.args else None
        h = ctx.attrs(me).get('ghost_scores') if isinstance(me, MObj) else None
        if h is None:
            raise Unsupported('scores of an instruction')
        return ctx.elem(h, o)
    eng.opaque['Inst']['scores_by_rule'] = scores
    eng.opaque_ignored = {'Inst': ('score_function',)}

    def mkinst(ctx, enc, pos=0, *a):
        x = ctx.newsym(Opaque('Inst'), 'inst')
        e = ctx.eng.opaque_attr(ctx, x, 'encoding')[0]
        ad = ctx.eng.opaque_attr(ctx, x, 'address')[0]
        ctx.assume(e == ctx.th.lift(ctx.num(enc)))
        ctx.assume(ad == ctx.th.lift(ctx.num(pos)))
        return x
    eng.ctors['CAPSInstruction'] = mkinst

    def counter(ctx, v):
        """a dictionary from every element of a list to the number of its occurrences"""
        th = ctx.th
        l = v.val if isinstance(v, MList) else v
        if isinstance(l, (CList, tuple)):
            items = [th.lift(ctx.num(x)) for x in (l.items if isinstance(l, CList) else l)]
            total = lambda k: sum([z3.If(k == x, th.ival(1), th.ival(0)) for x in items], th.ival(0))
        elif isinstance(l, SList) and l.ety is Int:
            n = th.lift(ctx.num(l.n))
            name, args = l.src if l.src is not None else (ctx.name('list'), ctx.lamvars)
            occ = z3.Function('occ:' + name, *([a.sort() for a in args] + [th.isort, th.isort, th.isort]))
            el = (lambda i, a: ctx.fresh(Int, name + '.e', tuple(a) + (i,))) if l.src is not None else (lambda i, a: th.lift(ctx.num(l.get(i))))
            k, j = z3.Const('ck_' + name, th.isort), z3.Const('cj_' + name, th.isort)
            av = [z3.Const('ca%d_%s' % (i, name), a.sort()) for i, a in enumerate(args)]
            if l.src is None:
                av = list(args)
            q = av if l.src is not None else []
            o = lambda j: occ(*av, j, k)
            if 'occ:' + name not in ctx.univ_done:
                ctx.univ_done.add('occ:' + name)
                ctx.assume(z3.ForAll(q + [k], o(th.ival(0)) == 0, patterns=[o(th.ival(0))]))
                ctx.assume(z3.ForAll(q + [j, k], z3.Implies(j >= 0, o(j) >= 0), patterns=[o(j)]))     # follows from the two others
                ctx.assume(z3.ForAll(q + [j, k], z3.Implies(j >= 0, o(j + 1) == o(j) + z3.If(el(j, tuple(av)) == k, th.ival(1), th.ival(0))),
                                     patterns=[o(j), o(j + 1)]))
            total = lambda k: occ(*args, n, k)
        else:
            raise Unsupported('Counter of this')
        m = ctx.newsym(MapOf(Int, Int), 'counter')
        k = z3.Const('ck!' + ctx.name('k'), th.isort)
        ctx.assume(z3.ForAll([k], z3.And(m.dom(k) == (total(k) > 0), z3.Implies(m.dom(k), m.get(k) == total(k))), patterns=[m.dom(k), m.get(k)]))
        r = MMap(m)
        r.default = 0
        return r
    eng.ctors['collections.Counter'] = counter
