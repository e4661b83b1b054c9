"""Executes the contracts of one property on the real code: run.py <id> [--replay file].

Each replay/<id>.py defines RULE, cases(rng, tier, hints) -> JSON-able cases, check(case) -> None or a text
saying what is wrong, and optionally known(case, text) -> key of a known finding.
"""
import argparse
import gc
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != HERE]
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))


class Hang(BaseException):
    pass


def on_alarm(s, f):
    raise Hang()


class Interface(Exception):
    """a private name of the code under test that the harness uses has changed: says nothing about the property"""


def interface(e, tb):
    if not tb or os.path.dirname(os.path.abspath(tb[-1].filename)) != HERE:
        return False
    s = str(e)
    if isinstance(e, AttributeError):
        return " has no attribute '_" in s or s.startswith('module ')
    return isinstance(e, TypeError) and ('positional argument' in s or 'unexpected keyword' in s) and '._' in tb[-1].line


def guarded(mod, case, limit):
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        return mod.check(case)
    except Hang:
        return 'does not terminate (%d s of processor time)' % limit
    except MemoryError:
        return 'exhausts the memory'
    except RecursionError:
        return 'RecursionError'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if interface(e, tb):
            raise Interface(str(e))
        where = ['%s:%s' % (os.path.basename(t.filename), t.lineno) for t in tb][-3:]
        return 'unexpected %s: %s at %s' % (type(e).__name__, str(e)[:200], ' '.join(where))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('pid')
    a.add_argument('--tier', default='quick')
    a.add_argument('--seed', type=int, default=1)
    a.add_argument('--budget', type=float, default=10)
    a.add_argument('--hints')
    a.add_argument('--out')
    a.add_argument('--known', default='')
    a.add_argument('--replay')
    a = a.parse_args()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGVTALRM, on_alarm)
    sys.setrecursionlimit(3000)
    res = {'evaluations': 0, 'distinct': 0, 'samples': [], 'rule': '', 'known_hits': []}
    try:
        mod = importlib.import_module('replay.' + a.pid.lower())
        if a.replay:
            rec = json.load(open(a.replay))
            w = guarded(mod, rec['witness']['case'], 60)
            print('reproduced: %s' % w if w else 'the input does not fail on this tree')
            return 1 if w else 0
        res['rule'] = mod.RULE
        hints = json.load(open(a.hints)) if a.hints else []
        rng = random.Random(a.seed)
        t0 = time.time()
        seen = set()
        limit = getattr(mod, 'LIMIT', 20)
        nontriv = getattr(mod, 'nontrivial', lambda c: True)
        known = set(a.known.split(','))
        for case in mod.cases(rng, a.tier, hints):
            if time.time() - t0 > a.budget:
                break
            random.seed(12345)
            try:
                w = guarded(mod, case, limit)
            except Interface as e:
                res['skipped'] = res.get('skipped', 0) + 1
                res['interface'] = str(e)
                continue
            res['evaluations'] += 1
            txt = json.dumps(case, sort_keys=True, default=str)
            if hash(txt) not in seen and len(seen) < 500000:
                seen.add(hash(txt))
                if nontriv(case):
                    res['distinct'] += 1
                    if len(res['samples']) < 5 and len(txt) < 1500 and res['distinct'] % 7 == 1:
                        res['samples'].append(json.loads(txt))
            if w:
                k = mod.known(case, w) if hasattr(mod, 'known') else None
                if k in known and k:
                    if k not in res['known_hits']:
                        res['known_hits'].append(k)
                    continue
                res['witness'] = {'case': json.loads(txt), 'what': w}
                break
        if not res['evaluations'] and 'interface' in res:
            res['error'] = 'a private name the harness uses is gone: ' + res['interface']
    except BaseException as e:
        res['error'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        traceback.print_exc()
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(res, f, default=str)
    else:
        print(json.dumps(res, indent=1, default=str)[:3000])
    return 0


if __name__ == '__main__':
    sys.exit(main())
