"""developer driver: verify the contracts of a module: dev.py contracts.bits:BV [name filter]"""
import sys, time, importlib
sys.path.insert(0, '/verif')
from pyvc.verify import Engine
from pyvc import prove

if __name__ == '__main__':
    modn, lst = sys.argv[1].split(':')
    m = importlib.import_module(modn)
    filt = sys.argv[2] if len(sys.argv) > 2 else ''
    root = sys.argv[3] if len(sys.argv) > 3 else '/repo'
    allc = getattr(m, 'ALL', None) or getattr(m, lst)
    if '--alone' not in sys.argv:
        import glob, os
        for f in sorted(glob.glob('/verif/contracts/*.py')):
            b = os.path.basename(f)[:-3]
            if b not in ('__init__', 'lib') and 'contracts.' + b != modn:
                try:
                    allc = allc + [c for c in importlib.import_module('contracts.' + b).ALL if c.name not in [x.name for x in allc]]
                except Exception as e:
                    print('skip', b, e)
    eng = Engine(root, allc)
    for c in getattr(m, lst):
        if filt and filt not in c.name:
            continue
        if c.trusted:
            continue
        t0 = time.time()
        r = eng.verify(c)
        t1 = time.time()
        prove.discharge(r.obls, c.mode == 'bv')
        bad = [o for o in r.obls if o.status != 'discharged']
        print('%-40s paths=%d obl=%d bad=%d gen=%.1fs prove=%.1fs exits=%d %s %s' % (c.name, r.paths, len(r.obls), len(bad), t1 - t0,
              time.time() - t1, len(r.exits), r.error or '', r.renames or ''))
        for o in bad:
            print('    ', o.status, o.name, 'line', o.line, 'path', o.path, '%.1fs' % o.secs, o.info)
        sl = sorted(r.obls, key=lambda o: -o.secs)[:3]
        print('     slowest:', [(o.name[:70], str(o.path), round(o.secs, 1), o.solver) for o in sl if o.secs > 1])
