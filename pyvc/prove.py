"""Discharging obligations: each one goes, as SMT-LIB, to z3 and then to cvc5, in a pool of processes."""
import os
import time
import concurrent.futures as cf
import multiprocessing as mp
import z3
from .engine import str_facts


def smt2(o):
    s = z3.Solver()
    for h in o.hyps:
        s.add(h)
    for f in str_facts(None):
        s.add(f)
    s.add(z3.Not(o.goal))
    return s.to_smt2()


def _z3(txt, ms, opts):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set('timeout', ms)
    for k, v in opts.items():
        s.set(k, v)
    s.from_string(txt)
    r = s.check()
    return str(r), (s.reason_unknown() if r == z3.unknown else '')


def _cvc5(txt, ms, opts):
    import cvc5
    sl = cvc5.Solver()
    sl.setOption('tlimit-per', str(ms))
    for k, v in opts.items():
        sl.setOption(k, v)
    p = cvc5.InputParser(sl)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + txt, 'o')
    sm = p.getSymbolManager()
    res = 'unknown'
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        out = c.invoke(sl, sm)
        out = out.strip()
        if out in ('sat', 'unsat', 'unknown'):
            res = out
    return res, ''


def tactics(bv, scale):
    if bv:
        return [('z3', int(20000 * scale), {}), ('cvc5', int(40000 * scale), {}), ('z3', int(60000 * scale), {'smt.random_seed': 7})]
    return [('z3', int(1500 * scale), {'smt.mbqi': False, 'smt.auto_config': False}),
            ('cvc5', int(2500 * scale), {}),
            ('z3', int(5000 * scale), {'smt.mbqi': False, 'smt.auto_config': False, 'smt.random_seed': 3}),
            ('z3', int(5000 * scale), {}),
            ('cvc5', int(8000 * scale), {}),
            ('z3', int(10000 * scale), {'smt.mbqi': False, 'smt.auto_config': False, 'smt.random_seed': 11,
                                        'smt.qi.eager_threshold': 50.0}),
            ('cvc5', int(12000 * scale), {'full-saturate-quant': 'true'}),
            ('z3', int(15000 * scale), {'smt.random_seed': 5, 'smt.arith.solver': 2})]


def work(a):
    i, txt, bv, scale, first = a
    t0 = time.time()
    last = ''
    tl = tactics(bv, scale) if scale > 0 else tactics(bv, 1.0)[:1]
    for name, ms, opts in tl:
        t1 = time.time()
        try:
            r, why = (_z3 if name == 'z3' else _cvc5)(txt, ms, opts)
        except Exception as e:
            r, why = 'error', str(e)[:200]
        if r == 'unsat':
            return i, 'discharged', name, time.time() - t0, ''
        if r == 'sat':
            return i, 'refuted', name, time.time() - t0, ''
        last = '%s: %s %s' % (name, r, why)
    return i, 'unknown', '', time.time() - t0, last


_POOL = None


def pool():
    global _POOL
    if _POOL is None:
        _POOL = cf.ProcessPoolExecutor(max_workers=int(os.environ.get('PYVC_JOBS', '8')), mp_context=mp.get_context('spawn'))
    return _POOL


def model_of(o, ms=4000):
    """integer values a solver proposes for a refuted obligation"""
    s = z3.Solver()
    s.set('timeout', ms)
    for h in o.hyps:
        s.add(h)
    s.add(z3.Not(o.goal))
    if s.check() != z3.sat:
        return {}
    m = s.model()
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if z3.is_int_value(v):
                out[d.name()] = v.as_long()
            elif z3.is_bv_value(v):
                out[d.name()] = v.as_signed_long()
    return out


def discharge(obls, bv=False, scale=1.0, budget=600, stop_on_fail=False, progress=None):
    """fills in status/solver/secs of every obligation"""
    todo = []
    seen = {}
    t0 = time.time()
    for o in obls:
        g = z3.simplify(o.goal)
        if z3.is_true(g):
            o.status, o.solver = 'discharged', 'simplifier'
            continue
        txt = smt2(o)
        if txt in seen:
            seen[txt].append(o)
            continue
        seen[txt] = [o]
        todo.append(txt)
    if not todo:
        return
    if len(todo) <= 2:
        results = [work((i, t, bv, scale, None)) for i, t in enumerate(todo)]
        for r in results:
            _set(seen[todo[r[0]]], r)
        return
    ex = pool()
    pending, nxt, fails = {}, 0, 0
    while nxt < len(todo) or pending:
        while nxt < len(todo) and len(pending) < 12:
            sc = scale
            if fails >= 3 or (DEADLINE and time.time() > DEADLINE):
                sc = -1           # enough has failed: only a first attempt for the rest
            pending[ex.submit(work, (nxt, todo[nxt], bv, sc, None))] = nxt
            nxt += 1
        done, _ = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
        for f in done:
            k = pending.pop(f)
            try:
                r = f.result()
            except Exception as e:
                r = (k, 'unknown', '', 0.0, 'solver process failed: %s' % e)
            if r[1] != 'discharged':
                fails += 1
            _set(seen[todo[r[0]]], r)


DEADLINE = None


def _set(os_, r):
    for k, o in enumerate(os_):
        o.status, o.solver, o.info = r[1], r[2], r[4]
        o.secs = r[3] if k == 0 else 0.0
