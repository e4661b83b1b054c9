"""Operators, builtins and library models."""
import ast
import math as _math
from fractions import Fraction
import z3
from .engine import *
from .interp import Ctx, has_quant, subst, uses


def fn(name, *sorts):
    return z3.Function(name, *sorts)


def forall_pat(vs, body, pat):
    try:
        return z3.ForAll(vs, body, patterns=[pat])
    except z3.Z3Exception:
        return z3.ForAll(vs, body)


class Ops:
    """mixin with arithmetic / comparison semantics"""

    def defined(self, v):
        if isinstance(v, Undef):
            raise Unsupported('use of an undefined value: %s' % v.why)
        return v

    def num(self, v):
        """numeric operand"""
        if isinstance(v, OptVal):
            self.require(NOT(v.isnone), 'TypeError', 'None used as a number')
            v = v.val
        self.defined(v)
        if isinstance(v, bool):
            return int(v)
        if is_z3(v) and z3.is_bool(v):
            return z3.If(v, self.th.ival(1), self.th.ival(0))
        if isinstance(v, (int, float, Fraction)) or is_z3(v):
            return v
        raise Unsupported('number expected, got %s' % type(v).__name__)

    def truth(self, v):
        self.defined(v)
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if is_z3(v):
            if z3.is_bool(v):
                return v
            if z3.is_int(v) or z3.is_real(v):
                return v != 0
            if z3.is_bv(v):
                return v != self.th.ival(0)
            if v.sort().name() == 'Inst' and self.eng.inst_has('__len__', '__bool__'):
                raise Unsupported('instructions may be false')
            return True
        if isinstance(v, OptVal):
            return AND(NOT(v.isnone), self.truth(v.val))
        if isinstance(v, (MList, CList, SList, MMap, CMap, SMap, MSet)):
            n = self.length(v)
            return n > 0 if isinstance(n, int) else n > self.th.ival(0)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, VTuple):
            return self.th.lift(v.n) > 0
        if isinstance(v, (MObj, FuncVal, ClassVal, Builtin, NoEffect, ModVal)):
            if isinstance(v, MObj) and v.cls and (v.cls.lookup('__len__') or v.cls.lookup('__bool__')):
                raise Unsupported('truth of a sized object')
            return True
        raise Unsupported('truth of %s' % type(v).__name__)

    def length(self, v):
        v = raw(v)
        if isinstance(v, CList):
            return v.n
        if isinstance(v, CMap):
            return len(v.d)
        if isinstance(v, (SList, SMap)):
            c = conc(v.n)
            return c if c is not None else v.n
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, VTuple):
            return self.th.lift(v.n)
        if isinstance(v, RangeVal):
            return self.range_len(v)
        if isinstance(v, GridVal):
            return v.r
        if isinstance(v, RowVal):
            return v.g.c
        if isinstance(v, OptVal):
            self.require(NOT(v.isnone), 'TypeError', 'len of None')
            return self.length(v.val)
        raise Unsupported('len of %s' % type(v).__name__)

    def range_len(self, r):
        th = self.th
        if all(isinstance(x, int) for x in (r.a, r.b, r.c)):
            return len(range(r.a, r.b, r.c))
        c = conc(r.c)
        if not isinstance(c, int) or c == 0:
            raise Unsupported('range with a symbolic step')
        a, b = th.lift(r.a), th.lift(r.b)
        d = (b - a) if c > 0 else (a - b)
        k = abs(c)
        if k != 1:
            if th.bv:
                raise Unsupported('range step in bit-vector mode')
            d = (d + (k - 1)) / k
        return z3.simplify(z3.If(d > th.ival(0), d, th.ival(0)))

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b):
        th = self.th
        self.defined(a), self.defined(b)
        if isinstance(a, NoEffect) or isinstance(b, NoEffect):
            return NoEffect('expr')
        t = type(op)
        ra, rb = raw(a), raw(b)
        if isinstance(ra, (CList, SList)) or isinstance(rb, (CList, SList)):
            if t is ast.Add and isinstance(ra, (CList, SList)) and isinstance(rb, (CList, SList)):
                return self.newref(MList(self.list_concat(ra, rb)))
            if t is ast.Mult:
                lst, k = (ra, b) if isinstance(ra, (CList, SList)) else (rb, a)
                return self.list_repeat(lst, k)
            raise Unsupported('list operator')
        if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add:
            return a + b
        if isinstance(a, str) and isinstance(b, str) and t is ast.Add:
            return a + b
        if isinstance(a, str) and t is ast.Mod:
            if conc_key(b) and not isinstance(b, tuple) or (isinstance(b, tuple) and all(isinstance(x, (int, str, float)) for x in b)):
                return a % b
            return FmtVal(a, b)
        if isinstance(a, str) and isinstance(b, int) and t is ast.Mult:
            return a * b
        if isinstance(a, (str,)) or isinstance(b, (str,)):
            r = self.newsym(Str, 'strop')
            return r
        a, b = self.num(a), self.num(b)
        if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
            try:
                return self.conc_binop(t, a, b)
            except ZeroDivisionError:
                raise PyRaise('ZeroDivisionError', self.curline)
        la, lb = th.lift(a), th.lift(b)
        real = z3.is_real(la) or z3.is_real(lb)
        if real:
            la = z3.ToReal(la) if z3.is_int(la) else la
            lb = z3.ToReal(lb) if z3.is_int(lb) else lb
        if t is ast.Add:
            if th.bv:
                self.ovf(z3.And(z3.BVAddNoOverflow(la, lb, True), z3.BVAddNoUnderflow(la, lb)))
            return la + lb
        if t is ast.Sub:
            if th.bv:
                self.ovf(z3.And(z3.BVSubNoOverflow(la, lb), z3.BVSubNoUnderflow(la, lb, True)))
            return la - lb
        if t is ast.Mult:
            if th.bv:
                self.ovf(z3.And(z3.BVMulNoOverflow(la, lb, True), z3.BVMulNoUnderflow(la, lb)))
            return la * lb
        if t is ast.Div:
            if th.bv:
                raise Unsupported('true division in bit-vector mode')
            la = z3.ToReal(la) if z3.is_int(la) else la
            lb = z3.ToReal(lb) if z3.is_int(lb) else lb
            self.require(lb != 0, 'ZeroDivisionError')
            return la / lb
        if t in (ast.FloorDiv, ast.Mod):
            self.require(lb != (th.ival(0) if not real else 0), 'ZeroDivisionError')
            if th.bv:
                cb = conc(b)
                if isinstance(cb, int) and cb > 0 and cb & (cb - 1) == 0:
                    s = cb.bit_length() - 1
                    return (la >> th.ival(s)) if t is ast.FloorDiv else la & th.ival(cb - 1)
                raise Unsupported('division in bit-vector mode')
            if real:
                q = z3.ToReal(z3.ToInt(la / lb))
                return q if t is ast.FloorDiv else la - lb * q
            if isinstance(conc(b), int) and conc(b) > 0:
                return la / lb if t is ast.FloorDiv else la % lb
            q = z3.If(lb > 0, la / lb, (-la) / (-lb))
            return q if t is ast.FloorDiv else la - lb * q
        if t is ast.Pow:
            return self.power(a, b)
        if real:
            raise PyRaise('TypeError', self.curline)
        if t in (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift):
            return self.bitop(t, la, lb)
        raise Unsupported('operator %s' % t.__name__)

    def conc_binop(self, t, a, b):
        import operator as o
        f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod,
             ast.Pow: o.pow, ast.BitAnd: o.and_, ast.BitOr: o.or_, ast.BitXor: o.xor, ast.LShift: o.lshift, ast.RShift: o.rshift}[t]
        if t is ast.Div and isinstance(a, int) and isinstance(b, int):
            r = Fraction(a, b)
            return r if r.denominator != 1 else float(r)
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            a, b = Fraction(a), Fraction(b)
        if t is ast.Pow and isinstance(b, int) and abs(b) > 4096:
            raise Unsupported('huge power')
        return f(a, b)

    def ovf(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        self.oblige('bit-vector arithmetic does not overflow', e, kind='width')

    def power(self, a, b):
        th = self.th
        cb = conc(b)
        if conc(a) == 2 and isint(b):
            lb = th.lift(b)
            if th.bv:
                self.require(lb >= th.ival(0), 'ValueError', 'negative power of two')
                self.ovf(lb < th.ival(th.W - 1))
                return th.ival(1) << lb
            self.oblige('power of two is not negative', lb >= 0, kind='model')
            return self.pow2(lb)
        if isinstance(cb, int) and 0 <= cb <= 4:
            r = th.ival(1)
            for _ in range(cb):
                r = r * th.lift(a)
            return r
        if not th.bv and isint(a) and isint(b):
            ca = conc(a)
            self.oblige('power is not negative', th.lift(b) >= 0, kind='model')
            if ca == 4:
                return self.pow2(2 * th.lift(b))
            return fn('ipow', z3.IntSort(), z3.IntSort(), z3.IntSort())(th.lift(a), th.lift(b))
        raise Unsupported('power')

    def pow2(self, x):
        """2**x for x >= 0 as an uninterpreted function with its defining equations"""
        p = fn('pow2', z3.IntSort(), z3.IntSort())
        if getattr(self.eng.cur, 'ground_pow2', False):
            # the instances of the equations at this exponent only
            if conc(x) is None and ('pow2', x.get_id()) not in self.univ_done:
                self.univ_done.add(('pow2', x.get_id()))
                self.assume(z3.Implies(x >= 0, z3.And(p(z3.simplify(x + 1)) == 2 * p(x), p(x) >= 1)))
        elif 'pow2' not in self.univ_done:
            self.univ_done.add('pow2')
            i = z3.Int('p2i')
            self.assume(p(0) == 1)
            self.assume(z3.ForAll([i], z3.Implies(i >= 0, z3.And(p(i + 1) == 2 * p(i), p(i) >= 1)), patterns=[p(i)]))
        c = conc(x)
        if isinstance(c, int):
            return self.th.ival(2 ** c)
        return p(x)

    def bitop(self, t, a, b):
        th = self.th
        if th.bv:
            if t is ast.BitAnd:
                return a & b
            if t is ast.BitOr:
                return a | b
            if t is ast.BitXor:
                return a ^ b
            self.require(b >= th.ival(0), 'ValueError', 'negative shift count')
            if t is ast.LShift:
                r = a << b
                self.ovf(z3.And(z3.ULT(b, th.ival(th.W)), (r >> b) == a))
                return r
            return z3.If(z3.UGE(b, th.ival(th.W)), a >> th.ival(th.W - 1), a >> b)
        I = z3.IntSort()
        nm = {ast.BitAnd: 'band', ast.BitOr: 'bor', ast.BitXor: 'bxor', ast.LShift: 'shl', ast.RShift: 'shr'}[t]
        r = fn(nm, I, I, I)(a, b)
        if t in (ast.LShift, ast.RShift):
            self.require(b >= 0, 'ValueError', 'negative shift count')
        self.eng.use_lemma('bitops:' + nm)
        i = z3.Int('bi')
        bi = lambda w, k: bitf(w, k)
        if t is ast.BitAnd:
            body = bi(r, i) == z3.And(bi(a, i), bi(b, i))
        elif t is ast.BitOr:
            body = bi(r, i) == z3.Or(bi(a, i), bi(b, i))
        elif t is ast.BitXor:
            body = bi(r, i) == z3.Xor(bi(a, i), bi(b, i))
        elif t is ast.LShift:
            body = z3.Implies(i >= 0, bi(r, i) == z3.And(i >= b, bi(a, i - b)))
        else:
            body = z3.Implies(i >= 0, bi(r, i) == bi(a, i + b))
        self.assume(forall_pat([i], body, bi(r, i)))
        self.assume(z3.Implies(z3.And(a >= 0, b >= 0), r >= 0))
        if t is ast.BitAnd:
            self.assume(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(r <= a, r <= b)))
        if t is ast.RShift:
            self.assume(z3.Implies(a >= 0, r <= a))
        return r

    def unop(self, op, v):
        self.defined(v)
        if isinstance(op, ast.Not):
            return NOT(self.truth(v))
        v = self.num(v)
        if isinstance(v, (int, float, Fraction)):
            return -v if isinstance(op, ast.USub) else +v if isinstance(op, ast.UAdd) else ~v
        if isinstance(op, ast.USub):
            if self.th.bv:
                self.ovf(v != self.th.ival(-2 ** (self.th.W - 1)))
            return -v
        if isinstance(op, ast.UAdd):
            return v
        if self.th.bv:
            return ~v
        I = z3.IntSort()
        r = fn('bnot', I, I)(v)
        i = z3.Int('bi')
        self.eng.use_lemma('bitops:bnot')
        self.assume(z3.ForAll([i], bitf(r, i) == z3.Not(bitf(v, i)), patterns=[bitf(r, i)]))
        self.assume(r == -v - 1)
        return r

    # ------------------------------------------------------------ comparison
    def eq(self, a, b):
        th = self.th
        self.defined(a), self.defined(b)
        if a is None and b is None:
            return True
        if isinstance(a, OptVal) or isinstance(b, OptVal):
            if a is None:
                a, b = b, a
            if b is None:
                return a.isnone
            ao = a if isinstance(a, OptVal) else OptVal(False, a)
            bo = b if isinstance(b, OptVal) else OptVal(False, b)
            if isinstance(ao.val, Undef) or isinstance(bo.val, Undef):
                return AND(ao.isnone, bo.isnone)
            return OR(AND(ao.isnone, bo.isnone), AND(NOT(ao.isnone), NOT(bo.isnone), self.eq(ao.val, bo.val)))
        if a is None or b is None:
            return False
        if isinstance(a, VTuple) or isinstance(b, VTuple):
            if not isinstance(a, (tuple, VTuple)) or not isinstance(b, (tuple, VTuple)):
                return False
            (na, ia), (nb, ib) = vparts(a), vparts(b)
            if len(ia) < len(ib):
                na, ia, nb, ib = nb, ib, na, ia
            return AND(th.lift(na) == th.lift(nb), *[OR(th.lift(na) <= i, self.eq(x, y)) for i, (x, y) in enumerate(zip(ia, ib))])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and AND(*[self.eq(x, y) for x, y in zip(a, b)])
        ra, rb = raw(a), raw(b)
        if isinstance(ra, (CList, SList)) and isinstance(rb, (CList, SList)):
            if isinstance(ra, CList) and isinstance(rb, CList):
                return ra.n == rb.n and AND(*[self.eq(x, y) for x, y in zip(ra.items, rb.items)])
            i = z3.Const(self.name('eqi'), th.isort)
            na, nb = th.lift(ra.n), th.lift(rb.n)
            return AND(na == nb, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < na), B(self.eq(lget(th, ra, i), lget(th, rb, i))))))
        if isinstance(ra, (CList, SList, CMap, SMap)) != isinstance(rb, (CList, SList, CMap, SMap)):
            return False
        if isinstance(a, (MObj, ObjVal, ClassVal, FuncVal, NoEffect, ExtClass, Builtin)) or \
                isinstance(b, (MObj, ObjVal, ClassVal, FuncVal, NoEffect, ExtClass, Builtin)):
            if isinstance(a, (Builtin, ExtClass)) and isinstance(b, (Builtin, ExtClass)):
                return a.name == b.name
            if type(a) is not type(b):
                return False
            if isinstance(a, MObj) and a.cls.lookup('__eq__'):
                return self.truth(self.call_method(a, '__eq__', [b], {}))
            if isinstance(a, MObj) and (a.parent is not None or b.parent is not None):
                raise Unsupported('identity of container elements')
            return a is b
        if isinstance(a, (int, float, str, Fraction)) and isinstance(b, (int, float, str, Fraction)):
            return a == b
        if isinstance(a, FmtVal) or isinstance(b, FmtVal):
            raise Unsupported('comparison of formatted strings')
        if is_z3(a) and a.sort().name() == 'Inst' and self.eng.inst_has('__eq__', '__ne__', '__hash__'):
            raise Unsupported('instructions are no longer compared by identity')
        return keyeq(th, self.boolint(a, b), self.boolint(b, a))

    def boolint(self, a, b):
        if is_boolish(a) and not is_boolish(b):
            return self.num(a)
        return a

    def compare(self, op, a, b):
        t = type(op)
        th = self.th
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            return NOT(self.eq(a, b))
        if t is ast.Is or t is ast.IsNot:
            if a is None or b is None or isinstance(a, OptVal) or isinstance(b, OptVal):
                r = self.eq(a, b)
            elif isinstance(a, bool) or isinstance(b, bool):
                r = self.eq(a, b) if is_boolish(a) and is_boolish(b) else False
            elif isinstance(a, MCont) or isinstance(b, MCont):
                if getattr(a, 'parent', None) is not None or getattr(b, 'parent', None) is not None:
                    raise Unsupported('identity of container elements')
                r = a is b
            else:
                r = self.eq(a, b)     # small ints: identity is equality
            return r if t is ast.Is else NOT(r)
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if t is ast.In else NOT(r)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.lex(t, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
        a, b = self.num(a), self.num(b)
        if not is_z3(a) and not is_z3(b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
        a, b = th.lift(a), th.lift(b)
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[t]()

    def lex(self, t, a, b):
        if not a or not b:
            return {ast.Lt: len(a) < len(b), ast.LtE: len(a) <= len(b), ast.Gt: len(a) > len(b), ast.GtE: len(a) >= len(b)}[t]
        strict = ast.Lt() if t in (ast.Lt, ast.LtE) else ast.Gt()
        return OR(self.compare(strict, a[0], b[0]), AND(self.eq(a[0], b[0]), self.lex(t, a[1:], b[1:])))

    def contains(self, c, x):
        th = self.th
        if isinstance(c, OptVal):
            self.require(NOT(c.isnone), 'TypeError', 'in None')
            c = c.val
        r = raw(c)
        if isinstance(x, OptVal) and isinstance(r, (SMap, CMap)):
            return AND(NOT(x.isnone), self.contains(c, x.val))
        if isinstance(r, (CList, tuple)):
            items = r.items if isinstance(r, CList) else r
            return OR(*[self.eq(y, x) for y in items])
        if isinstance(r, SList):
            j = z3.Const(self.name('in'), th.isort)
            return z3.Exists([j], z3.And(j >= th.ival(0), j < th.lift(r.n), B(self.eq(lget(th, r, j), x))))
        if isinstance(r, CMap):
            if conc_key(x):
                return x in r.d
            return OR(*[keyeq(th, x, k) for k in r.d])
        if isinstance(r, SMap):
            return r.dom(tuplelift(th, x))
        if isinstance(r, RangeVal):
            cc = conc(r.c)
            if cc != 1:
                raise Unsupported('in range with step')
            x = self.num(x)
            return AND(th.lift(x) >= th.lift(r.a), th.lift(x) < th.lift(r.b))
        if isinstance(r, str) and isinstance(x, str):
            return x in r
        if isinstance(c, KeysView):
            return self.contains(c.m, x)
        raise Unsupported('in %s' % type(c).__name__)

    def list_repeat(self, lst, k):
        th = self.th
        ck = conc(k)
        if isinstance(lst, CList) and isinstance(ck, int) and (ck <= 4096):
            return self.newref(MList(CList(lst.items * ck)))
        k = th.lift(self.num(k))
        if isinstance(lst, CList) and lst.n == 1:
            v = self.freeze(lst.items[0])
            return self.newref(MList(SList(z3.If(k > th.ival(0), k, th.ival(0)), lambda i: v)))
        raise Unsupported('list repetition')


class FmtVal:
    """'fmt' % args with symbolic args"""

    def __init__(self, fmt, args):
        self.fmt, self.args = fmt, args


class KeysView:
    def __init__(self, m, kind):
        self.m, self.kind = m, kind
