#!/opt/veriftools/pyvenv/bin/python
"""check.py <property id>: decide one property on /repo's current working tree.

1. every contract of the property (and, transitively, every contract its proofs used) is verified against the
   source of /repo: the obligations are generated from the AST and discharged by z3 / cvc5;
2. the same contracts are executed on the real code (replay/<id>.py under the repository's interpreter): this is
   where a failing obligation's counterexample is replayed, and the bounded stand-in of functions outside the
   verifier's reach;
3. exit 0: everything discharged and no failing input; exit 1: a VIOLATION line.
"""
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'


def known_findings():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p, encoding='utf8'):
            ln = ln.strip()
            if ln.startswith('KNOWN-FINDING:'):
                d = dict(x.split('=', 1) for x in ln[len('KNOWN-FINDING:'):].split()[:2] if '=' in x)
                out.append({'property': d.get('property'), 'key': d.get('key'), 'line': ln})
    return out


class Replay:
    """the real code under the repository's interpreter, in a scratch directory and with limits"""

    def __init__(self, pid, tier, seed, budget, hints=None, known=()):
        self.dir = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        self.out = os.path.join(self.dir, 'out.json')
        hp = os.path.join(self.dir, 'hints.json')
        with open(hp, 'w') as f:
            json.dump(hints or [], f)
        env = {'PATH': '/usr/bin:/bin', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'HOME': self.dir, 'TMPDIR': self.dir,
               'PYTHONPATH': HERE + ':' + REPO, 'VERIF_REPO': REPO, 'LANG': 'C.UTF-8'}
        self.budget = budget
        self.p = subprocess.Popen([VENV, os.path.join(HERE, 'replay', 'run.py'), pid, '--tier', tier, '--seed', str(seed),
                                   '--budget', str(budget), '--hints', hp, '--out', self.out, '--known', ','.join(known)],
                                  cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)

    def result(self):
        try:
            txt, _ = self.p.communicate(timeout=self.budget * 2 + 90)
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, 9)
            txt, _ = self.p.communicate()
        txt = txt.decode('utf8', 'replace')
        try:
            with open(self.out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            r = {'error': 'replay produced no result (exit %s)' % self.p.returncode, 'log': txt[-3000:], 'evaluations': 0}
        r['log'] = txt[-3000:]
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)
        return r


def prove_all(prop, eng_root, tier, log):
    """-> list of per-contract dicts, list of failed obligations"""
    from pyvc.verify import Engine
    from pyvc import prove
    import z3
    allc = prop.all_contracts()
    byname = {}
    for c in allc:
        byname[c.name] = c
    queue, seen, rows, failed, trusted = [c.name for c in prop.contracts], set(), [], [], []
    results = []
    eng = Engine(eng_root, allc)
    prop_setup = getattr(prop, 'setup', None)
    if prop_setup:
        prop_setup(eng)
    gen_end = time.time() + (240 if tier == 'quick' else 900)

    def late(*_):
        raise TimeoutError('the obligations could not be generated in time')
    signal.signal(signal.SIGALRM, late)
    while queue:
        nm = queue.pop(0)
        if nm in seen:
            continue
        seen.add(nm)
        c = byname[nm]
        if c.trusted:
            if c.trusted is not True and c.trusted.startswith('proved in bit-vector mode as '):
                queue.append(c.trusted[len('proved in bit-vector mode as '):])
            else:
                trusted.append('%s: %s' % (c.name, c.trusted))
            continue
        t0 = time.time()
        signal.alarm(max(5, int(gen_end - t0)))
        try:
            r = eng.verify(c)
            signal.alarm(0)
        except Exception as e:
            signal.alarm(0)

            class R:
                pass
            r = R()
            r.obls, r.error, r.paths, r.exits, r.pre_hyps, r.axioms, r.used, r.lines, r.raised = [], 'verifier: %s: %s' % (
                type(e).__name__, e), 0, [], None, set(), [], 0, 0
            r.tb = traceback.format_exc()
        results.append((c, r, time.time() - t0))
        queue.extend(r.used)
    prove.DEADLINE = time.time() + (300 if tier == 'quick' else 1500)
    for c, r, gen in results:
        t0 = time.time()
        prove.discharge(r.obls, c.mode == 'bv', 1.0)
        bad = [o for o in r.obls if o.status != 'discharged']
        if bad and len(bad) <= 12:
            # an undecided obligation gets one more, longer, attempt
            again = [o for o in bad if o.status == 'unknown']
            if again and not any(o.status == 'refuted' for o in bad):
                prove.discharge(again, c.mode == 'bv', 2.0)
        bad = [o for o in r.obls if o.status != 'discharged']
        vac = None
        if not r.error and not r.obls:
            vac = 'no obligation was generated'
        if not r.error and vac is None:
            s = z3.Solver()
            s.set('timeout', 2000)
            for h in r.pre_hyps or []:
                s.add(h)
            if s.check() == z3.unsat:
                vac = 'the precondition is contradictory'
            if r.exits and not bad:
                ok = False
                for hy in r.exits[:40]:
                    s = z3.Solver()
                    s.set('timeout', 1500)
                    for h in hy:
                        s.add(h)
                    if s.check() != z3.unsat:
                        ok = True
                        break
                if not ok:
                    vac = 'no normal exit is reachable'
        rows.append({'contract': c.name, 'function': c.qual, 'mode': 'bit-vectors' if c.mode == 'bv' else 'mathematical integers',
                     'lines': r.lines, 'paths': r.paths, 'obligations': len(r.obls),
                     'discharged': len(r.obls) - len(bad), 'solver_s': round(sum(o.secs for o in r.obls), 2), 'generation_s': round(gen, 2),
                     'discharge_wall_s': round(time.time() - t0, 2), 'uses': list(r.used), 'lemmas': sorted(r.axioms),
                     'error': r.error or vac, 'renames': getattr(r, 'renames', None) or {}})
        log('%-46s %3d/%3d obligations  %d paths  %.1f s%s' % (c.name, len(r.obls) - len(bad), len(r.obls), r.paths,
                                                             gen + time.time() - t0, '  ' + str(r.error or vac) if (r.error or vac) else ''))
        if r.error or vac:
            failed.append({'contract': c.name, 'function': c.qual, 'obligation': '(the verifier could not process the function)',
                           'status': 'unsupported', 'detail': str(r.error or vac), 'obj': None})
        for o in bad:
            failed.append({'contract': c.name, 'function': c.qual, 'obligation': o.name, 'line': o.line, 'path': str(o.path),
                           'status': o.status, 'detail': o.info, 'obj': o})
    from pyvc import bitlemmas
    names = set()
    for _, r, _ in results:
        names |= {x for x in r.axioms if str(x).startswith('bitops:')}
    if names:
        t0 = time.time()
        obs, unknown = bitlemmas.obligations(names)
        prove.discharge(obs, True, 1.0)
        bad = [o for o in obs if o.status != 'discharged']
        rows.append({'contract': 'facts about binary digits used above', 'function': '(lemmas)', 'mode': 'bit-vectors (64)', 'lines': 0, 'paths': 1,
                     'obligations': len(obs), 'discharged': len(obs) - len(bad), 'solver_s': round(sum(o.secs for o in obs), 2), 'generation_s': 0,
                     'discharge_wall_s': round(time.time() - t0, 2), 'uses': [], 'lemmas': sorted(names), 'error': None, 'renames': {}})
        for o in bad:
            failed.append({'contract': 'binary digits', 'function': '', 'obligation': o.name, 'status': o.status, 'detail': o.info, 'obj': o})
        if unknown:
            trusted.append('binary-digit facts without a proof: %s' % unknown)

        class RB:
            pass
        rb = RB()
        rb.obls = obs
        results.append((None, rb, 0))
    back = {}
    for c, r, _ in results:
        for o in r.obls:
            if o.status == 'discharged':
                back[o.solver] = back.get(o.solver, 0) + 1
    return rows, failed, trusted, back


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()

    def log(s):
        print(s, flush=True)
    from props import registry
    prop = registry.get(pid)
    known = [k for k in known_findings() if k['property'] == pid]
    keys = [k['key'] for k in known]
    budget = prop.budget * (6 if tier == 'thorough' else 1)
    rp = Replay(pid, tier, seed, budget, known=keys)
    if prop.contracts:
        rows, failed, trusted, back = prove_all(prop, REPO, tier, log)
    else:
        rows, failed, trusted, back = [], [], [], {}
    rr = rp.result()
    witness = rr.get('witness')
    hints = []
    if failed and not witness:
        from pyvc import prove
        for f in failed[:6]:
            if f['obj'] is not None:
                try:
                    m = prove.model_of(f['obj'])
                except Exception:
                    m = {}
                if m:
                    f['model'] = m
                    hints.append(m)
        rr2 = Replay(pid, tier, seed + 1000, max(budget * 2, 30), hints, known=keys).result()
        witness = rr2.get('witness')
        rr['evaluations'] = rr.get('evaluations', 0) + rr2.get('evaluations', 0)
        rr['distinct'] = rr.get('distinct', 0) + rr2.get('distinct', 0)
    for k in known:
        hit = k['key'] in rr.get('known_hits', [])
        print(k['line'] + ('' if hit else ' (not met on this run)'))
    nob = sum(r['obligations'] for r in rows)
    ndis = sum(r['discharged'] for r in rows)
    viol = 0
    for f in failed:
        f.pop('obj', None)
    broken_replay = bool(rr.get('error')) and not witness
    if witness or failed or broken_replay:
        viol = 1
    cov = {'evaluations': rr.get('evaluations', 0), 'distinct_nontrivial': rr.get('distinct', 0), 'rule': rr.get('rule', ''),
           'samples': rr.get('samples', [])[:5]}
    if rows:
        cov.update({'obligations': nob, 'discharged': ndis, 'checker_cmd': 'VERIF_TIER=%s python3 %s/check.py %s' % (tier, HERE, pid),
                    'trusted_base': TRUSTED + trusted + list(prop.trusted), 'functions_under_contract': rows,
                    'discharged_by': back, 'solver_s': round(sum(r['solver_s'] for r in rows), 2)})
    cov['bounded'] = list(prop.bounded)
    cov['explanation'] = prop.explanation
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.level, 'coverage': cov,
          'assumptions': list(prop.assumptions) + (ASSUME if rows else []), 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if not viol:
        print('%s: holds (%d/%d obligations discharged, %d real executions) in %.1f s' % (pid, ndis, nob, cov['evaluations'], time.time() - t0))
        return 0
    rec = {'property': pid, 'title': prop.title, 'failed_obligations': failed, 'witness': witness, 'replay_error': rr.get('error'),
           'log': rr.get('log'), 'seed': seed, 'tier': tier}
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    h = hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(HERE, 'replays', '%s-%s.json' % (pid, h))
    rec['how_to_replay'] = 'cd /verif && PYTHONPATH=/verif:/repo %s replay/run.py %s --replay %s' % (VENV, pid, path)
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1, default=str)
    for f in failed[:8]:
        print('FAILED %s: %s [%s] %s' % (f['contract'], f['obligation'], f['status'], (f.get('detail') or '')[:200]))
    if witness:
        print('failing input: %s' % json.dumps(witness, default=str)[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
    else:
        if rr.get('error'):
            print('replay: %s %s' % (rr['error'], rr.get('log', '')[-500:]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    return 1


TRUSTED = ['pyvc: generation of the obligations from the Python AST (its own semantics of the Python subset)', 'z3 5.3.2', 'cvc5 1.4.2']
ASSUME = ['Python integers are mathematical integers; in bit-vector mode they are 80-bit vectors with an obligation at every operation that no value leaves that range',
          'floats are treated as mathematical reals']


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        # an internal failure is undecided, never a silent pass
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        p = os.path.join(HERE, 'replays')
        os.makedirs(p, exist_ok=True)
        p = os.path.join(p, '%s-internal.json' % pid)
        with open(p, 'w') as f:
            json.dump({'property': pid, 'internal_error': traceback.format_exc()}, f)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
        code = 1
    sys.stdout.flush()
    try:
        from pyvc import prove
        if prove._POOL is not None:
            ps = list((prove._POOL._processes or {}).values())
            prove._POOL.shutdown(wait=False, cancel_futures=True)
            for x in ps:
                x.kill()
    except Exception:
        pass
    os._exit(code)
