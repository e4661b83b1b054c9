"""C12 on the real code."""
from fractions import Fraction
from semantic_codec.metadata.metadata_collector import MetadataCollector
from .util import FI, Near
from .c11 import prog
import contextlib, io

RULE = ('programs of 0..500 (mostly at most 30) instructions with random reads and writes (some undefined); a case is one program; non-trivial: some storage has a distance')
LIMIT = 10


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/metadata/metadata_collector.py')
    while True:
        n = near.size(rng.choice((1, 2, 3, 5, 8, 12, 30)), 500)
        p = prog(rng, n)
        rare = rng.random() if rng.random() < 0.3 else 1        # rare accesses make long distances
        few = rng.sample(range(0, 20), 3) + [19, 16, 18]
        for d in p:
            if rng.random() < 0.8 or rare < 1:
                d['r'] = [x for x in few if rng.random() < 0.35 * rare]
                d['w'] = [x for x in few if rng.random() < 0.35 * rare]
                d['u'] = sorted(set(d['r'] + d['w']))
        yield {'prog': p}


def dists(p):
    out = {}
    v = [x for x in p if not x.ignore]
    for s in range(20):
        last = None
        for j, x in enumerate(v):
            if last is not None and s in x.storages_read():
                out.setdefault(s, []).append(j - last - 1)
                last = None
            if s in x.storages_written():
                last = j
    return out


def nontrivial(c):
    return bool(dists([FI(d) for d in c['prog']]))


def check(c):
    p = [FI(d) for d in c['prog']]
    m = MetadataCollector()
    with contextlib.redirect_stdout(io.StringIO()):
        m.collect(p)
    ds = dists(p)
    for name, got, f in (('minimum', m.storage_min_dist, min), ('maximum', m.storage_max_dist, max)):
        exp = {s: f(l) for s, l in ds.items()}
        if got != exp:
            return '%s distances %r, expected %r' % (name, got, exp)
    got = m.storage_mean_dist
    if set(got) != set(ds):
        return 'mean distances for %r, expected %r' % (sorted(got), sorted(ds))
    for s, l in ds.items():
        if abs(got[s] - sum(l) / len(l)) > 1e-9 * max(1, got[s]):
            return 'mean distance of storage %d is %r, expected %r' % (s, got[s], sum(l) / len(l))
