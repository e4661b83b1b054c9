"""Attribute access, containers and library models."""
import ast
import math as _math
from fractions import Fraction
import z3
from .engine import *
from .interp import Ctx, has_quant, subst, uses
from .ops import FmtVal, KeysView, fn


class PackVal:
    """bytes produced by struct.pack / read from a modelled file: (fmt, values)"""

    def __init__(self, fmt, vals):
        self.fmt, self.vals, self.words = fmt, vals, None


class Builtins:
    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        th = self.th
        if isinstance(v, Iter):
            return v
        if isinstance(v, OptVal):
            self.require(NOT(v.isnone), 'TypeError', 'iterate over None')
            v = v.val
        if isinstance(v, RangeVal):
            n = self.range_len(v)
            a, c = v.a, conc(v.c)

            def item(i):
                if isinstance(i, int) and isinstance(a, int):
                    return a + c * i
                return z3.simplify(th.lift(a) + th.ival(c) * th.lift(i))
            return Iter(n, item)
        if isinstance(v, tuple):
            v = self.newref(MList(CList(v)))
        if isinstance(v, str):
            return Iter(len(v), lambda i: v[i])
        if isinstance(v, (CList, SList)):
            v = self.thaw(v)
        if isinstance(v, MList):
            return Iter(lambda: self.length(v), lambda i: self.elem(v, i), v, True)
        if isinstance(v, (MMap, MSet)):
            v = KeysView(v, 'keys')
        if isinstance(v, KeysView):
            m = v.m
            mv = m.val
            if isinstance(mv, CMap):
                ks = list(mv.d)

                def citem(i):
                    k = ks[i]
                    return k if v.kind == 'keys' else self.elem(m, k) if v.kind == 'values' else (k, self.elem(m, k))
                return Iter(len(ks), citem, m)

            def item(i):
                k = m.val.key(th.lift(i))
                return k if v.kind == 'keys' else self.elem(m, k) if v.kind == 'values' else (k, self.elem(m, k))
            return Iter(mv.n, item, m)
        if isinstance(v, RowVal):
            return Iter(v.g.c, lambda i: v.g.get(th.lift(v.i), th.lift(i)))
        if isinstance(v, MGrid):
            return Iter(v.val.r, lambda i: RowVal(v.val, i), v)
        if isinstance(v, MObj):
            r = v.cls.lookup('__iter__')
            if r is not None:
                return self.iterate(self.call(self.member(r[0], r[1], v), [], {}))
        raise Unsupported('iteration over %s' % type(v).__name__)

    def elem(self, ref, i):
        """element of a list / map reference, in range, as a view"""
        th = self.th
        if isinstance(ref, MList):
            lv = ref.val
            if isinstance(lv, CList) and isinstance(conc(i), int):
                i = conc(i)
                x = lv.items[i]
                if isinstance(x, (MCont, MObj)) or not isinstance(x, (CList, SList, CMap, SMap, ObjVal, GridVal, OptVal, tuple)):
                    return x
            x = lget(th, lv, i)
            return self.view(ref, i, x, lambda pv, k: lget(th, pv, k))
        if isinstance(ref, MMap):
            mv = ref.val
            if isinstance(mv, CMap) and conc_key(i) and i in mv.d:
                x = mv.d[i]
                if isinstance(x, (MCont, MObj)):
                    return x
            x = mv.d[i] if isinstance(mv, CMap) and conc_key(i) else to_smap(th, mv).get(tuplelift(th, i))
            return self.view(ref, i, x, lambda pv, k: pv.d[k] if isinstance(pv, CMap) and conc_key(k) else to_smap(th, pv).get(tuplelift(th, k)))
        raise Unsupported('element of %s' % type(ref).__name__)

    # ------------------------------------------------------------ subscripts
    def norm_index(self, i, n):
        """python index -> 0 <= i < n, or IndexError"""
        th = self.th
        i = self.num(i)
        ci, cn = conc(i), conc(n)
        if isinstance(ci, Fraction) or isinstance(ci, float) or (is_z3(i) and z3.is_real(i)):
            raise PyRaise('TypeError', self.curline)
        if isinstance(ci, int) and isinstance(cn, int):
            if not (-cn <= ci < cn):
                raise PyRaise('IndexError', self.curline)
            return ci % cn
        n = th.lift(n)
        if isinstance(ci, int):
            if ci < 0:
                self.require(n >= th.ival(-ci), 'IndexError', 'index out of range')
                return z3.simplify(n + th.ival(ci))
            self.require(n > th.ival(ci), 'IndexError', 'index out of range')
            return ci
        zero = th.ival(0)
        self.require(z3.And(i < n, i >= -n), 'IndexError', 'index out of range')
        if not self.feasible(i < zero):
            return i
        return z3.If(i < zero, i + n, i)

    def subscript(self, o, i):
        th = self.th
        self.defined(o), self.defined(i)
        if isinstance(o, OptVal):
            self.require(NOT(o.isnone), 'TypeError', 'subscript of None')
            o = o.val
        if o is None:
            raise PyRaise('TypeError', self.curline)
        if isinstance(o, (CList, SList, CMap, SMap)):
            o = self.thaw(o)
        if isinstance(o, tuple):
            ci = conc(i)
            if isinstance(ci, int):
                if not -len(o) <= ci < len(o):
                    raise PyRaise('IndexError', self.curline)
                return o[ci]
            return self.subscript(self.newref(MList(CList(o))), i)
        if isinstance(o, VTuple):
            ci = conc(i)
            if not isinstance(ci, int) or ci < 0:
                raise Unsupported('place in a tuple of unknown length')
            if ci >= len(o.items):
                raise PyRaise('IndexError', self.curline)
            self.require(th.lift(o.n) > ci, 'IndexError', 'tuple index')
            return o.items[ci]
        if isinstance(o, MList):
            return self.elem(o, self.norm_index(i, self.length(o)))
        if isinstance(o, MMap):
            k = self.key(i)
            mv = o.val
            if isinstance(mv, CMap) and conc_key(k):
                if k in mv.d:
                    return self.elem(o, k)
                if o.default is not None:
                    return o.default(self)
                if all(conc_key(x) for x in mv.d):
                    raise PyRaise('KeyError', self.curline)
            if o.default is not None:
                if not self.branch(self.contains(o, k)):
                    return o.default(self)
            else:
                self.require(self.contains(o, k), 'KeyError', 'key not present')
            if isinstance(mv, CMap) and not conc_key(k):
                # a symbolic key in a concrete dict: split
                items = list(mv.d)
                if any(isinstance(x, (MCont, MObj, FuncVal)) for x in mv.d.values()):
                    for kk in items[:-1]:
                        if self.branch(keyeq(th, k, kk)):
                            return self.elem(o, kk)
                    return self.elem(o, items[-1])
            return self.elem(o, k)
        if isinstance(o, str):
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise PyRaise('IndexError', self.curline)
        if isinstance(o, MGrid):
            g = o.val
            if isinstance(i, tuple):
                a = self.norm_index(i[0], g.r)
                b = self.norm_index(i[1], g.c)
                return g.get(th.lift(a), th.lift(b))
            a = self.norm_index(i, g.r)
            r = RowVal(g, a)
            r.ref = o
            return r
        if isinstance(o, RowVal):
            b = self.norm_index(i, o.g.c)
            g = o.ref.val if getattr(o, 'ref', None) is not None else o.g
            return g.get(th.lift(o.i), th.lift(b))
        if isinstance(o, MObj):
            r = o.cls.lookup('__getitem__')
            if r is not None:
                return self.call(self.member(r[0], r[1], o), [i], {})
        raise Unsupported('subscript of %s' % type(o).__name__)

    def store(self, o, i, v):
        th = self.th
        if isinstance(o, OptVal):
            self.require(NOT(o.isnone), 'TypeError', 'store into None')
            o = o.val
        if isinstance(o, MList):
            if isinstance(o, MBits):
                w = th.lift(self.num(v))
                self.require(z3.Or(w == 0, w == 1), 'ValueError', 'a bit is 0 or 1')
            ii = self.norm_index(i, self.length(o))
            if o.parent is not None or isinstance(o.val, SList) or not isinstance(conc(ii), int):
                v = self.put(v, o)
            self.setval(o, self.list_set(o.val, ii, v))
            if isinstance(v, (MCont, MObj, CList, SList, CMap, SMap, ObjVal)):
                self.bump(o)
            return
        if isinstance(o, MMap):
            k = self.key(i)
            mv = o.val
            if o.parent is not None or isinstance(mv, SMap) or not conc_key(k):
                v = self.put(v, o)
                if isinstance(mv, CMap):
                    mv = CMap({a: self.freeze(b) for a, b in mv.d.items()})
            self.setval(o, map_set(th, mv, k, v))
            if isinstance(v, (MCont, MObj, CList, SList, CMap, SMap, ObjVal)):
                self.bump(o)
            return
        if isinstance(o, MGrid):
            g = o.val
            if not isinstance(i, tuple):
                raise Unsupported('row store')
            a, b = th.lift(self.norm_index(i[0], g.r)), th.lift(self.norm_index(i[1], g.c))
            self.gridset(o, a, b, v)
            return
        if isinstance(o, RowVal) and getattr(o, 'ref', None) is not None:
            b = th.lift(self.norm_index(i, o.g.c))
            self.gridset(o.ref, th.lift(o.i), b, v)
            return
        if isinstance(o, tuple):
            raise PyRaise('TypeError', self.curline)
        raise Unsupported('store into %s' % type(o).__name__)

    def gridset(self, ref, a, b, v):
        th = self.th
        g = ref.val
        v = th.lift(self.num(v))
        if z3.is_int(v):
            v = z3.ToReal(v)
        self.setval(ref, GridVal(g.r, g.c, lambda i, j: ITE(th, z3.And(th.lift(i) == a, th.lift(j) == b), v, g.get(i, j))))

    def sl_bounds(self, s, n):
        th = self.th
        if s.step is not None:
            raise Unsupported('slice step')

        def fix(e, d):
            if e is None:
                return d
            v = self.num(self.ev(e))
            cv, cn = conc(v), conc(n)
            if isinstance(cv, int) and isinstance(cn, int):
                return max(0, min(cn, cv if cv >= 0 else cn + cv))
            x, nn = th.lift(v), th.lift(n)
            z = th.ival(0)
            if isinstance(cv, int):
                if cv >= 0:
                    return z3.If(nn < x, nn, x)
                return z3.If(nn + x < z, z, nn + x)
            x = z3.If(x < z, z3.If(x + nn < z, z, x + nn), z3.If(x > nn, nn, x))
            return x
        return fix(s.lower, 0), fix(s.upper, n)

    def slice(self, o, s):
        th = self.th
        if isinstance(o, OptVal):
            self.require(NOT(o.isnone), 'TypeError', 'slice of None')
            o = o.val
        r = raw(o)
        if s.lower is None and s.upper is None and s.step is None and isinstance(r, (CList, SList)):
            return self.newref(MList(r))
        if isinstance(r, (str, tuple)):
            parts = [None if x is None else self.ev(x) for x in (s.lower, s.upper, s.step)]
            if all(x is None or isinstance(x, int) for x in parts):
                return r[slice(*parts)]
            raise Unsupported('symbolic slice of a string')
        if not isinstance(r, (CList, SList)):
            raise Unsupported('slice of %s' % type(o).__name__)
        n = self.length(o)
        a, b = self.sl_bounds(s, n)
        ca, cb = conc(a), conc(b)
        if isinstance(r, CList) and isinstance(ca, int) and isinstance(cb, int):
            return self.newref(MList(CList(r.items[ca:cb])))
        rr = to_slist(th, r)
        a, b = th.lift(a), th.lift(b)
        z = th.ival(0)
        ln = z3.simplify(z3.If(b > a, b - a, z))
        return self.newref(MList(SList(ln, lambda j: rr.get(th.lift(j) + a), rr.ety)))

    def del_slice(self, o, s):
        if hasattr(o, 'py_del_slice'):
            return o.py_del_slice(self, s)
        th = self.th
        if not isinstance(o, MList):
            raise Unsupported('del slice')
        r = o.val
        n = self.length(o)
        a, b = self.sl_bounds(s, n)
        if isinstance(r, CList) and isinstance(conc(a), int) and isinstance(conc(b), int):
            it = list(r.items)
            del it[conc(a):conc(b)]
            self.setval(o, CList(it))
        else:
            r = to_slist(th, r)
            a, b = th.lift(a), th.lift(b)
            b = z3.If(b > a, b, a)
            self.setval(o, SList(z3.simplify(th.lift(n) - (b - a)),
                                 lambda j: ITE(th, th.lift(j) < a, r.get(th.lift(j)), r.get(th.lift(j) + (b - a))), r.ety))
        self.bump(o)

    def del_item(self, o, i):
        th = self.th
        if isinstance(o, MList):
            self.list_pop(o, self.norm_index(i, self.length(o)))
            return
        if isinstance(o, MMap):
            k = self.key(i)
            mv = o.val
            self.require(self.contains(o, k), 'KeyError', 'del of a missing key')
            if isinstance(mv, CMap) and conc_key(k):
                d = dict(mv.d)
                del d[k]
                self.setval(o, CMap(d))
            else:
                m = to_smap(th, mv)
                p = m.pos(tuplelift(th, k))
                self.setval(o, SMap(m.n - 1, lambda q: AND(NOT(keyeq(th, q, k)), m.dom(q)), m.get,
                                    lambda i: ITE(th, th.lift(i) < p, m.key(th.lift(i)), m.key(th.lift(i) + 1)),
                                    lambda q: ITE(th, m.pos(q) < p, m.pos(q), m.pos(q) - 1), m.kty, m.vty))
            self.bump(o)
            return
        raise Unsupported('del item')

    def key(self, v):
        self.defined(v)
        if isinstance(v, OptVal):
            raise Unsupported('optional key')
        if isinstance(v, (MList, MMap)):
            raise PyRaise('TypeError', self.curline)
        if isinstance(v, tuple):
            return tuple(self.key(x) for x in v)
        if isinstance(v, float) and v.is_integer():
            return int(v)
        if is_z3(v) and z3.is_real(v):
            # floats with integral values hash like ints; modelled keys are integers
            if 'key-real' not in self.univ_done:
                self.univ_done.add('key-real')
            return v
        if is_z3(v):
            c = conc(v)
            return c if c is not None and not isinstance(c, bool) and not self.th.bv else v
        return v

    # ------------------------------------------------------------ attributes
    def getattr(self, o, a):
        self.defined(o)
        if isinstance(o, OptVal):
            self.require(NOT(o.isnone), 'AttributeError', 'attribute %s of None' % a)
            o = o.val
        if o is None:
            raise PyRaise('AttributeError', self.curline)
        if isinstance(o, (MObj, ObjVal)):
            at = self.attrs(o)
            if a == '__class__':
                return o.cls
            if a in at:
                x = at[a]
                if isinstance(x, Undef):
                    if self.caught('AttributeError'):
                        raise Unsupported('attribute %s may be unset' % a)
                    raise Unsupported('attribute %s may be unset: %s' % (a, x.why))
                if o.parent is not None if isinstance(o, MObj) else False:
                    return self.attr_view(o, a, x)
                return x
            m = self.eng.obj_attr(self, o, a)
            if m is not None:
                return m[0]
            r = o.cls.lookup(a)
            if r is None:
                ext = [b for b in self.all_bases(o.cls) if not isinstance(b, ClassVal) and getattr(b, 'name', 'object') != 'object']
                if ext:
                    mm = self.eng.ext_method(ext[0].name, a)
                    if mm is not None:
                        return Builtin(a, mm, o)
                    return NoEffect(a)
                raise PyRaise('AttributeError', self.curline)
            v, c = r
            if isinstance(v, FuncVal):
                if v.prop:
                    return self.call(v.bind(o), [], {})
                if v.static:
                    return v
                if v.classm:
                    return v.bind(o.cls)
                return v.bind(o)
            return v
        if isinstance(o, ClassVal):
            if a == '__name__':
                return o.name
            r = o.lookup(a)
            if r is None:
                raise PyRaise('AttributeError', self.curline)
            v = r[0]
            if isinstance(v, FuncVal) and v.classm:
                return v.bind(o)
            return v
        if isinstance(o, ModVal):
            return self.eng.mod_attr(self, o, a)
        if isinstance(o, (MList, MMap, MSet, str, KeysView, tuple, CList, SList, CMap, SMap, PackVal, bytes)):
            if a == '__class__':
                return ExtClass('list' if isinstance(o, MList) else 'dict' if isinstance(o, MMap) else type(o).__name__)
            m = getattr(self, 'm_%s_%s' % (self.kind(o), a), None)
            if m is None:
                raise Unsupported('method %s of %s' % (a, self.kind(o)))
            if isinstance(o, (CList, SList, CMap, SMap)):
                o = self.thaw(o)
            return Builtin(a, lambda ctx, *x, **k: m(o, *x, **k))
        if isinstance(o, NoEffect):
            return NoEffect(o.name + '.' + a)
        if isinstance(o, (int, bool)) and not isinstance(o, float) or (is_z3(o) and (z3.is_int(o) or z3.is_bv(o))):
            if a == 'bit_length':
                return Builtin(a, lambda ctx: self.bit_length(o))
            if a == 'to_bytes':
                return Builtin(a, lambda ctx, *x, **k: NoEffect('bytes'))
        if is_z3(o) and o.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
            r = self.eng.opaque_attr(self, o, a)
            if r is not None:
                return r[0]
        if isinstance(o, FuncVal) and a == '__name__':
            return o.node.name
        if hasattr(o, 'py_attr'):
            return o.py_attr(self, a)
        raise Unsupported('attribute %s of %s' % (a, type(o).__name__ if not is_z3(o) else o.sort()))

    def all_bases(self, c):
        out = []
        for b in c.bases:
            out.append(b)
            if isinstance(b, ClassVal):
                out += self.all_bases(b)
        return out

    def attr_view(self, o, a, x):
        """container attribute of an object that lives inside a container"""
        if not isinstance(x, (CList, SList, CMap, SMap, ObjVal, GridVal)):
            return x
        r = AttrView(o, a)
        if isinstance(x, (CList, SList)):
            ref = MList(None)
        elif isinstance(x, (CMap, SMap)):
            ref = MMap(None)
        else:
            raise Unsupported('nested object attribute')
        ref.parent = (r, a, 0, lambda pv, k: self.attrs(o)[k])
        return self.newref(ref)

    def setattr(self, o, a, v):
        if isinstance(o, OptVal):
            self.require(NOT(o.isnone), 'AttributeError', 'attribute of None')
            o = o.val
        if isinstance(o, NoEffect):
            return
        if isinstance(o, MObj):
            r = o.cls.lookup(a)
            if r is not None and isinstance(r[0], FuncVal) and r[0].prop and a not in self.attrs(o):
                st = o.cls.lookup(a + '.setter')
                if st is None:
                    raise PyRaise('AttributeError', self.curline)
                self.call(st[0].bind(o), [v], {})
                return
            old = self.attrs(o).get(a)
            if isinstance(old, MCont) and isinstance(v, MCont) and old is not v and o.parent is None:
                for lp in self.loops:
                    path = lp['reach'].get(id(o))
                    if path is not None and path + '.' + a + '#rebind' not in lp['mod']:
                        lp['mod'].add(path + '.' + a)
                        lp['mod'].add(path + '.' + a + '#rebind')
                        raise Restart()
            self.set_attr(o, a, v)
            return
        if is_z3(o) and a in self.eng.opaque_ignored.get(o.sort().name(), ()):
            return
        raise Unsupported('attribute store on %s' % type(o).__name__)

    def kind(self, o):
        o = o if not isinstance(o, MCont) else o
        if isinstance(o, MBits):
            return 'bits'
        if isinstance(o, (MList, CList, SList)):
            return 'list'
        if isinstance(o, MSet):
            return 'set'
        if isinstance(o, (MMap, CMap, SMap)):
            return 'dict'
        if isinstance(o, str):
            return 'str'
        if isinstance(o, KeysView):
            return 'view'
        if isinstance(o, tuple):
            return 'tuple'
        if isinstance(o, bytes):
            return 'bytes'
        return type(o).__name__

    # ------------------------------------------------------------ list methods
    def m_list_append(self, o, v):
        if isinstance(o.val, SList) or o.parent is not None:
            v = self.put(v, o)
        self.setval(o, self.list_append(o.val, v))

    def list_extend(self, o, v):
        r = self.as_list(v)
        self.setval(o, self.list_concat(o.val, self.freeze(r) if isinstance(o.val, SList) or o.parent is not None or isinstance(r, SList) else r))

    m_list_extend = list_extend

    def as_list(self, v):
        """immutable list value of an iterable"""
        th = self.th
        r = raw(v)
        if isinstance(r, (CList, SList)):
            return r
        if isinstance(r, tuple):
            return CList(r)
        it = self.iterate(v)
        n = it.n() if callable(it.n) else it.n
        cn = conc(n)
        if isinstance(cn, int) and cn <= 4096:
            return CList([it.item(i) for i in range(cn)])
        return SList(th.lift(n), lambda i: self.freeze(it.item(th.lift(i))))

    def m_list_pop(self, o, i=None):
        n = self.length(o)
        if i is not None:
            i = self.norm_index(i, n)
        return self.list_pop(o, i)

    def m_list_insert(self, o, i, v):
        self.list_insert(o, i, v)

    def m_list_remove(self, o, v):
        th = self.th
        i = self.list_index(o, v, 'remove')
        self.list_pop(o, i)

    def m_list_index(self, o, v, *a):
        if a:
            raise Unsupported('index with bounds')
        return self.list_index(o, v, 'index')

    def list_index(self, o, v, why):
        th = self.th
        r = raw(o)
        if isinstance(r, CList):
            eqs = [self.eq(x, v) for x in r.items]
            self.require(OR(*eqs), 'ValueError', '%s of a missing element' % why)
            if all(isinstance(e, bool) for e in eqs):
                return eqs.index(True)
            res = th.ival(r.n - 1)
            for k in range(r.n - 2, -1, -1):
                res = ITE(th, eqs[k], th.ival(k), res)
            return res
        self.require(self.contains(o, v), 'ValueError', '%s of a missing element' % why)
        k = self.newsym(Int, 'index')
        j = z3.Const(self.name('ij'), th.isort)
        self.assume(z3.And(k >= 0, k < th.lift(r.n), B(self.eq(lget(th, r, k), v))))
        e = lget(th, r, j)
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), NOT(B(self.eq(e, v))))))
        return k

    def m_list_count(self, o, v):
        th = self.th
        r = raw(o)
        if isinstance(r, CList):
            return self.sum_list(CList([self.num(self.eq(x, v)) for x in r.items]), 0)
        raise Unsupported('count on a symbolic list')

    def m_list_sort(self, o, key=None, reverse=False):
        self.setval(o, self.sorted_list(o.val, key, reverse))
        self.bump(o)

    def m_list_reverse(self, o):
        th = self.th
        r = o.val
        if isinstance(r, CList):
            self.setval(o, CList(r.items[::-1]))
        else:
            n = th.lift(r.n)
            self.setval(o, SList(n, lambda i: r.get(n - 1 - th.lift(i)), r.ety))
        self.bump(o)

    def m_list_copy(self, o):
        return self.newref(MList(o.val))

    def m_list_clear(self, o):
        self.setval(o, CList())
        self.bump(o)

    def m_list_hideValue(self, o, v):
        """constraint.Domain.hideValue: the first occurrence leaves the list (and is kept aside)"""
        self.m_list_remove(o, v)

    def keyf(self, key, x):
        return x if key is None else self.call(key, [x], {})

    def leq(self, a, b):
        if isinstance(a, tuple):
            return self.lex(ast.LtE, a, b)
        return self.compare(ast.LtE(), a, b)

    def sorted_list(self, r, key, reverse):
        th = self.th

        def trig(r, i):
            e = r.get(i)
            while isinstance(e, (tuple, VTuple)):
                e = e[0] if isinstance(e, tuple) else e.items[0]
            return [e] if is_z3(e) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(c.eq(i) for c in e.children()) else []
        sym = self.truth(reverse)
        rev = conc(sym)
        if isinstance(r, CList):
            ks = [self.keyf(key, x) for x in r.items]
            if all(isinstance(k, (int, float, str, Fraction)) or (isinstance(k, tuple) and conc_key(k)) for k in ks) and rev is not None:
                return CList([r.items[i] for i in sorted(range(r.n), key=lambda i: ks[i], reverse=rev)])
            if r.n <= 1:
                return r
            r = to_slist(th, CList([self.freeze(x) for x in r.items]))
        n = th.lift(r.n)
        p = z3.Function(self.name('perm'), th.isort, th.isort)
        q = z3.Function(self.name('perm_inv'), th.isort, th.isort)
        i, j = z3.Const(self.name('si'), th.isort), z3.Const(self.name('sj'), th.isort)
        z = th.ival(0)
        self.assume(('sort: places', z3.ForAll([i], z3.Implies(z3.And(i >= z, i < n), z3.And(p(i) >= z, p(i) < n, q(p(i)) == i)), patterns=[p(i)])))
        self.assume(('sort: places of all', z3.ForAll([i], z3.Implies(z3.And(i >= z, i < n), z3.And(q(i) >= z, q(i) < n, p(q(i)) == i)), patterns=[q(i)] + trig(r, i))))

        def kf(idx):
            return self.keyf(key, self.thaw(r.get(idx)))
        kclo, kv, kx = self.lam(lambda idx: kf(idx), Int, guard=lambda x: z3.And(x >= z, x < n))
        ki, kj = kclo(p(i)), kclo(p(j))
        up, down = B(self.leq(ki, kj)), B(self.leq(kj, ki))
        le = z3.If(sym, down, up) if rev is None else down if rev else up
        eqk = B(self.eq(ki, kj))
        self.assume(('sort: order', z3.ForAll([i, j], z3.Implies(z3.And(i >= z, i < j, j < n), z3.And(le, z3.Implies(eqk, p(i) < p(j)))),
                                              patterns=[z3.MultiPattern(p(i), p(j))])))
        # a stable sort leaves a list that is in order already as it is
        ai, aj = kclo(i), kclo(j)
        up, down = B(self.leq(ai, aj)), B(self.leq(aj, ai))
        le0 = z3.If(sym, down, up) if rev is None else down if rev else up
        self.assume(z3.Implies(z3.ForAll([i, j], z3.Implies(z3.And(i >= z, i < j, j < n), le0)), z3.ForAll([i], z3.Implies(z3.And(i >= z, i < n), p(i) == i), patterns=[p(i)])))
        out = SList(n, lambda k: r.get(p(th.lift(k))), r.ety)
        out.perm, out.perm_inv = p, q
        return out

    # ------------------------------------------------------------ bit arrays
    def m_bits_frombytes(self, o, data):
        th = self.th
        if not isinstance(data, PackVal) or data.words is None:
            raise Unsupported('bits of these bytes')
        l, big = data.words
        n, old = th.lift(o.val.n), to_slist(th, o.val)

        def item(p):
            p = th.lift(p) - n
            k = (p % 32) / 8
            return z3.If(bitf(th.lift(self.num(l.get(p / 32))), 8 * ((3 - k) if big else k) + ((7 - p % 8) if o.big else p % 8)), z3.IntVal(1), z3.IntVal(0))
        self.setval(o, SList(n + 32 * th.lift(l.n), lambda p: ITE(th, th.lift(p) < n, old.get(th.lift(p)), item(p)) if not z3.is_int_value(z3.simplify(n)) or conc(n) != 0 else item(p), Int))

    def m_bits_tobytes(self, o):
        th = self.th
        if not o.big:
            raise Unsupported('bytes of a little-endian bit array')
        r = to_slist(th, o.val)
        n = th.lift(r.n)
        return BitBytes(SList(z3.simplify(8 * ((n + 7) / 8)), lambda p: z3.If(th.lift(p) < n, th.lift(self.num(r.get(th.lift(p)))), z3.IntVal(0)), Int))

    # ------------------------------------------------------------ dict methods
    def m_dict_keys(self, o):
        return KeysView(o, 'keys')

    def m_dict_values(self, o):
        return KeysView(o, 'values')

    def m_dict_items(self, o):
        return KeysView(o, 'items')

    def m_dict_get(self, o, k, d=None):
        c = self.contains(o, self.key(k))
        if self.branch(c):
            return self.subscript(o, k)
        return d

    def m_dict_setdefault(self, o, k, d=None):
        if not self.branch(self.contains(o, self.key(k))):
            self.store(o, k, d)
        return self.subscript(o, k)

    def m_dict_pop(self, o, k, *d):
        if d and not self.branch(self.contains(o, self.key(k))):
            return d[0]
        v = self.subscript(o, k)
        v = self.thaw(self.freeze(v)) if isinstance(v, (MCont, MObj)) else v
        self.del_item(o, k)
        return v

    def m_dict_copy(self, o):
        return self.newref(MMap(o.val))

    def m_dict_clear(self, o):
        self.setval(o, CMap())
        self.bump(o)

    def m_dict_update(self, o, other):
        r = raw(other)
        if isinstance(r, CMap):
            for k, v in r.d.items():
                self.store(o, k, v)
            return
        raise Unsupported('update with a symbolic dict')

    def m_set_add(self, o, v):
        self.setval(o, map_set(self.th, o.val, self.key(v), True))

    def m_set_discard(self, o, v):
        if self.branch(self.contains(o, self.key(v))):
            m = MMap(o.val)
            self.del_item(m, v)
            self.setval(o, m._val)

    # ------------------------------------------------------------ str methods
    def m_str_format(self, o, *a, **k):
        if all(conc_key(x) and x is not None for x in a) and not k:
            return o.format(*a)
        return FmtVal(o, a)

    def m_str_join(self, o, v):
        r = self.as_list(v)
        if isinstance(r, CList) and all(isinstance(x, str) for x in r.items):
            return o.join(r.items)
        return FmtVal('join', None)

    def m_str_split(self, o, *a):
        return self.newref(MList(CList(o.split(*a))))

    def m_str_lower(self, o):
        return o.lower()

    def m_str_upper(self, o):
        return o.upper()

    def m_str_strip(self, o, *a):
        return o.strip(*a)

    def m_str_startswith(self, o, a):
        return o.startswith(a)

    # ------------------------------------------------------------ builtins
    def builtin(self, name):
        f = getattr(self, 'b_' + name, None)
        if f is not None:
            return Builtin(name, lambda ctx, *a, **k: f(*a, **k))
        if name in EXC_PARENTS or name in ('Exception', 'BaseException', 'object', 'IOError', 'FileNotFoundError', 'ArithmeticError',
                                           'LookupError', 'NameError', 'KeyboardInterrupt', 'OSError'):
            return ExtClass(name)
        if name == '__name__':
            return 'module'
        return None

    def b_open(self, name, mode='r', **kw):
        if mode not in ('rb', 'wb') or kw:
            raise Unsupported('open with mode %r' % (mode,))
        c = self.eng.module_ns('pyvc.stubs')['File']
        T = TupleOf(Int, Int)
        if mode == 'rb':
            l = self.file_content().v
        else:
            l = SList(self.th.ival(0), lambda i, T=T, nm=self.name('field'): self.fresh(T, nm, (i,)), T)
        o = self.instantiate(c, [self.newref(MList(l)), mode == 'wb'], {})
        self.files.append(o)
        return o

    def file_content(self):
        """the fields of the file that is read: (format, value)"""
        if getattr(self, '_content', None) is None:
            self._content = self.fresh(ListOf(TupleOf(Int, Int)), 'file_content')
        return wrap(self.th, self._content)

    def b_len(self, v):
        if isinstance(v, MObj):
            return self.call_method(v, '__len__', [], {})
        if hasattr(v, 'py_len'):
            return v.py_len(self)
        return self.length(v)

    def b_range(self, *a):
        a = [self.num(x) for x in a]
        for x in a:
            if isinstance(x, (float, Fraction)) or (is_z3(x) and z3.is_real(x)):
                raise PyRaise('TypeError', self.curline)
        a = [conc(x) if isinstance(conc(x), int) and not isinstance(x, int) else x for x in a]
        if len(a) == 1:
            return RangeVal(0, a[0], 1)
        return RangeVal(a[0], a[1], a[2] if len(a) > 2 else 1)

    def b_print(self, *a, **k):
        return None

    def b_int(self, v=0, base=None):
        th = self.th
        if base is not None or isinstance(v, str):
            if isinstance(v, str):
                try:
                    return int(v, base) if base is not None else int(v)
                except ValueError:
                    raise PyRaise('ValueError', self.curline)
            r = self.eng.parse_int(self, v, base)
            if r is None:
                raise Unsupported('int of a string')
            return r
        if is_z3(v) and v.sort().name() == 'Str':
            r = self.eng.parse_int(self, v, 10)
            if r is None:
                raise Unsupported('int of a string')
            return r
        v = self.num(v)
        if isinstance(v, (int, float, Fraction)):
            return int(v)
        if z3.is_real(v):
            if v.decl().kind() == z3.Z3_OP_TO_REAL:
                return v.arg(0)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        return v

    def b_float(self, v=0.0):
        v = self.num(v)
        if isinstance(v, (int, float, Fraction)):
            return float(v)
        return z3.ToReal(v) if z3.is_int(v) else v

    def b_bool(self, v=False):
        return self.truth(v)

    def b_str(self, v=''):
        if isinstance(v, (str,)):
            return v
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return str(v)
        if is_z3(v) and v.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
            r = self.eng.opaque_attr(self, v, '__str__')
            if r is not None:
                return r[0]
        if isinstance(v, MObj):
            m = self.eng.obj_attr(self, v, '__str__')
            if m is not None:
                return m[0]
        if is_z3(v) and z3.is_int(v):
            # decimal representation: injective
            f = z3.Function('str_of_int', z3.IntSort(), opaque_sort('Str'))
            g = z3.Function('int_of_str', opaque_sort('Str'), z3.IntSort())
            self.assume(g(f(v)) == v)
            return f(v)
        return FmtVal('str', (v,))

    b_repr = b_str

    def b_hex(self, v):
        return hex(v) if isinstance(v, int) else FmtVal('hex', (v,))

    def b_abs(self, v):
        v = self.num(v)
        if isinstance(v, (int, float, Fraction)):
            return abs(v)
        z = self.th.ival(0) if not z3.is_real(v) else z3.RealVal(0)
        return z3.If(v >= z, v, -v)

    def b_round(self, v, nd=None):
        v = self.num(v)
        if isinstance(v, (int, float, Fraction)) and nd is None:
            return round(v)
        if nd is None and is_z3(v) and z3.is_int(v):
            return v
        if nd is None:
            f = z3.ToInt(v)
            d = v - z3.ToReal(f)
            return z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1)))
        raise Unsupported('round to digits')

    def minmax(self, a, key, op, default=None):
        th = self.th
        if len(a) == 1:
            r = self.as_list(a[0])
            if isinstance(r, SList):
                n = th.lift(r.n)
                self.require(n > 0, 'ValueError', 'min/max of an empty sequence')
                w = self.newsym(Int, 'argm')
                self.assume(z3.And(w >= 0, w < n))
                if key is not None:
                    raise Unsupported('min/max with key of a symbolic sequence')
                res = lget(th, r, w)
                j = z3.Const(self.name('mj'), th.isort)
                self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), B(self.compare(op, res, lget(th, r, j))))))
                return res
            a = list(r.items)
            if not a:
                if default is not None:
                    return default
                raise PyRaise('ValueError', self.curline)
        res = a[0]
        kr = self.keyf(key, res)
        for x in a[1:]:
            kx = self.keyf(key, x)
            c = self.compare(ast.Lt() if isinstance(op, ast.LtE) else ast.Gt(), kx, kr)
            if key is None:
                res = ITE(th, c, self.num(x), self.num(res))
                kr = res
            else:
                if self.branch(c):
                    res, kr = x, kx
        return res

    def b_min(self, *a, key=None, default=None):
        return self.minmax(a, key, ast.LtE(), default)

    def b_max(self, *a, key=None, default=None):
        return self.minmax(a, key, ast.GtE(), default)

    def b_sum(self, v, start=0):
        return self.sum_list(self.as_list(v), start)

    def sum_list(self, r, start):
        th = self.th
        if isinstance(r, CList):
            s = start
            for x in r.items:
                s = self.binop(ast.Add(), s, x)
            return s
        x0 = lget(th, r, z3.Const(self.name('sx'), th.isort))
        real = is_z3(x0) and z3.is_real(x0)
        s = z3.Function(self.name('prefix_sum'), z3.IntSort(), z3.RealSort() if real else z3.IntSort())
        j = z3.Const(self.name('sj'), th.isort)
        st = th.lift(start)
        self.assume(s(0) == (z3.ToReal(st) if real and z3.is_int(st) else st))
        e = self.num(lget(th, r, j))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < th.lift(r.n)), s(j + 1) == s(j) + th.lift(e)), patterns=[s(j + 1)]))
        return s(th.lift(r.n))

    def b_any(self, v):
        th = self.th
        r = self.as_list(v)
        if isinstance(r, CList):
            return OR(*[self.truth(x) for x in r.items])
        j = z3.Const(self.name('aj'), th.isort)
        return z3.Exists([j], z3.And(j >= th.ival(0), j < th.lift(r.n), B(self.truth(lget(th, r, j)))))

    def b_all(self, v):
        th = self.th
        r = self.as_list(v)
        if isinstance(r, CList):
            return AND(*[self.truth(x) for x in r.items])
        j = z3.Const(self.name('aj'), th.isort)
        return z3.ForAll([j], z3.Implies(z3.And(j >= th.ival(0), j < th.lift(r.n)), B(self.truth(lget(th, r, j)))))

    def b_sorted(self, v, key=None, reverse=False):
        return self.newref(MList(self.sorted_list(self.as_list(v), key, reverse)))

    def b_list(self, v=()):
        return self.newref(MList(self.as_list(v)))

    def b_tuple(self, v=()):
        r = self.as_list(v)
        if isinstance(r, CList):
            return tuple(r.items)
        return self.newref(MList(r))

    def b_set(self, v=()):
        r = self.as_list(v)
        m = self.newref(MSet(CMap()))
        if isinstance(r, CList):
            for x in r.items:
                m._val = map_set(self.th, m._val, self.key(x), True)
            return m
        th = self.th
        T = self.shape(lget(th, r, z3.Const(self.name('sx'), th.isort)))
        s = self.newsym(SetOf(T), 'setof')
        j = z3.Const(self.name('sj'), th.isort)
        e = lget(th, r, j)
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < th.lift(r.n)), s.dom(e))))
        w = z3.Function(self.name('setw'), th.sort(T), th.isort)
        k = z3.Const(self.name('sk'), th.sort(T))
        self.assume(z3.ForAll([k], z3.Implies(s.dom(k), z3.And(w(k) >= 0, w(k) < th.lift(r.n), B(keyeq(th, lget(th, r, w(k)), k)))),
                              patterns=[s.dom(k)]))
        m._val = s
        return m

    def b_dict(self, v=None, **k):
        m = self.newref(MMap(CMap()))
        if v is not None:
            r = raw(v)
            if isinstance(r, (CMap, SMap)):
                m._val = r
            else:
                for x in self.as_list(v).items:
                    a, b = self.unpack(x, 2)
                    self.store(m, a, b)
        for a, b in k.items():
            self.store(m, a, b)
        return m

    def b_enumerate(self, v, start=0):
        it = self.iterate(v)
        return Iter(it.n, lambda i: (i if start == 0 else self.binop(ast.Add(), i, start), it.item(i)), it.ref, it.live)

    def b_zip(self, *vs):
        its = [self.iterate(v) for v in vs]
        th = self.th

        def n():
            ns = [i.n() if callable(i.n) else i.n for i in its]
            if all(isinstance(conc(x), int) for x in ns):
                return min(conc(x) for x in ns)
            r = th.lift(ns[0])
            for x in ns[1:]:
                x = th.lift(x)
                r = z3.If(x < r, x, r)
            return r
        return Iter(n, lambda i: tuple(x.item(i) for x in its))

    def b_reversed(self, v):
        th = self.th
        it = self.iterate(v)
        n = it.n() if callable(it.n) else it.n
        cn = conc(n)
        if isinstance(cn, int):
            return Iter(cn, lambda i: it.item(cn - 1 - i if isinstance(i, int) else z3.simplify(th.ival(cn - 1) - th.lift(i))), it.ref)
        return Iter(n, lambda i: it.item(z3.simplify(th.lift(n) - 1 - th.lift(i))), it.ref)

    def b_map(self, f, v):
        it = self.iterate(v)
        return Iter(it.n, lambda i: self.call(f, [it.item(i)], {}), it.ref)

    def b_filter(self, f, v):
        r = self.as_list(v)
        if isinstance(r, CList):
            return self.newref(MList(CList([x for x in r.items if self.branch(self.truth(x if f is None else self.call(f, [x], {})))])))
        raise Unsupported('filter of a symbolic sequence')

    def b_divmod(self, a, b):
        return (self.binop(ast.FloorDiv(), a, b), self.binop(ast.Mod(), a, b))

    def b_pow(self, a, b):
        return self.binop(ast.Pow(), a, b)

    def b_callable(self, v):
        return isinstance(v, (FuncVal, ClassVal, Builtin))

    def b_id(self, v):
        raise Unsupported('id')

    def b_iter(self, v):
        return self.iterate(v)

    def b_type(self, v):
        if isinstance(v, MObj):
            return v.cls
        return ExtClass(self.pytype(v))

    def pytype(self, v):
        if isinstance(v, OptVal):
            raise Unsupported('type of an optional')
        if v is None:
            return 'NoneType'
        if is_boolish(v):
            return 'bool'
        if isint(v):
            return 'int'
        if isinstance(v, (float, Fraction)) or (is_z3(v) and z3.is_real(v)):
            return 'float'
        if isinstance(v, (str, FmtVal)) or (is_z3(v) and v.sort().name() == 'Str'):
            return 'str'
        if isinstance(v, (MList, CList, SList)):
            return 'list'
        if isinstance(v, (MMap, CMap, SMap)):
            return 'dict'
        if isinstance(v, MSet):
            return 'set'
        if isinstance(v, tuple):
            return 'tuple'
        if isinstance(v, (MObj, ObjVal)):
            return v.cls.name
        if is_z3(v):
            return v.sort().name()
        return type(v).__name__

    def b_isinstance(self, v, c):
        cs = c if isinstance(c, tuple) else (c,)
        if isinstance(v, OptVal):
            return AND(NOT(v.isnone), self.b_isinstance(v.val, c))
        names = []
        for x in cs:
            if isinstance(x, ClassVal):
                names.append(x.name)
            else:
                names.append(getattr(x, 'name', str(x)))
        if isinstance(v, (MObj, ObjVal)):
            return any(v.cls.is_sub(n) for n in names)
        if is_z3(v) and v.sort().name() == 'Inst':
            return any(n in ('Instruction', 'CAPSInstruction') for n in names)
        t = self.pytype(v)
        return t in names or (t == 'bool' and 'int' in names) or 'object' in names

    def b_hasattr(self, o, a):
        if isinstance(o, (MObj, ObjVal)):
            return a in self.attrs(o) or o.cls.lookup(a) is not None
        raise Unsupported('hasattr')

    def bit_length(self, v):
        th = self.th
        if isinstance(v, int):
            return v.bit_length()
        if th.bv:
            raise Unsupported('bit_length in bit-vector mode')
        f = fn('bit_length', z3.IntSort(), z3.IntSort())
        r = f(v)
        self.pow2(z3.IntVal(0))
        p = fn('pow2', z3.IntSort(), z3.IntSort())
        self.assume(z3.Implies(v == 0, r == 0))
        self.assume(z3.Implies(v > 0, z3.And(r >= 1, p(r - 1) <= v, v < p(r))))
        self.assume(r >= 0)
        return r


class AttrView(MMap):
    """pseudo parent for a container held in an attribute of an object inside a container"""

    def __init__(self, o, a):
        super().__init__(None)
        self.o, self.a = o, a
        self.sver = 0
        self.parent = None

    @property
    def val(self):
        return None
