"""C32 on the real code: files in the scratch directory of the run."""
import os
from semantic_codec.corruption.corruption import save_corrupted_program_to_json, load_corrupted_program_from_json
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from .util import Near, real_word

RULE = ('programs of 0..60 addresses (mostly at most 8) with 0..400 (mostly at most 6) candidates (repeated encodings included); a case is one program; non-trivial: an address with several candidates')
LIMIT = 10


def cases(rng, tier, hints):
    near = Near(rng, 'semantic_codec/corruption/corruption.py')
    while True:
        n = near.size(rng.randint(0, 8), 60, 0.01)
        m = near.size(6, min(400, 800 // max(n, 1)), 0.02)
        addrs = rng.sample([0, 4, 0xFFFFFFFC] + [rng.randrange(0, 2 ** 32, 4) for _ in range(n + 2)], n)
        yield {'prog': [[a, [near.value(rng.choice((0, 0xFFFFFFFF, real_word(rng), real_word(rng)))) for _ in range(m if m != 6 and rng.random() < 0.5 else rng.randint(0, 6))]] for a in addrs]}


def nontrivial(c):
    return any(len(v) > 1 for _, v in c['prog'])


def check(c):
    f = 'p.json'
    p = {a: [CAPSInstruction(e, a) for e in v] for a, v in c['prog']}
    keep = {a: list(v) for a, v in p.items()}
    try:
        save_corrupted_program_to_json(p, f)
        if list(p) != list(keep) or any(len(p[a]) != len(v) or any(x is not y for x, y in zip(p[a], v)) for a, v in keep.items()):
            return 'saving changes the program'
        q = load_corrupted_program_from_json(f)
    finally:
        if os.path.exists(f):
            os.remove(f)
    if any(type(a) is not int for a in q) or set(q) != set(p):
        return 'addresses %r, expected %r' % (list(q), list(p))
    for a, v in c['prog']:
        if [x.encoding for x in q[a]] != v:
            return 'address %#x: encodings %r, expected %r' % (a, [x.encoding for x in q[a]], v)
        if any(x.address != a for x in q[a]):
            return 'a candidate of %#x has another address' % a
        if any(str(x) != str(y) for x, y in zip(q[a], p[a]) if not y.is_undefined):
            return 'a candidate of %#x decodes differently' % a
