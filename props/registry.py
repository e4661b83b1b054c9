"""The properties and what decides each of them."""
import importlib

_P = {}


class Prop:
    def __init__(self, pid, title, modules=(), contracts=(), level='proof', budget=12, bounded=(), assumptions=(), trusted=(),
                 explanation='', note='', technique='', theorems=()):
        self.pid, self.title, self.modules, self._contracts = pid, title, modules, contracts
        self.level, self.budget, self.bounded, self.assumptions = level, budget, bounded, assumptions
        self.trusted, self.explanation, self.note, self.technique, self.theorems = trusted, explanation, note, technique, theorems
        self._c = None

    def all_contracts(self):
        out, seen = [], set()
        for m in self.modules:
            for c in importlib.import_module('contracts.' + m).ALL:
                if id(c) not in seen and c.name not in [x.name for x in out]:
                    seen.add(id(c))
                    out.append(c)
        return out

    @property
    def contracts(self):
        if self._c is None:
            self._c = []
            for spec in self._contracts:
                m, n = spec.split(':')
                v = getattr(importlib.import_module('contracts.' + m), n)
                self._c += v if isinstance(v, list) else [v]
        return self._c


def P(*a, **k):
    p = Prop(*a, **k)
    _P[p.pid] = p


def get(pid):
    importlib.import_module('props.table')
    return _P[pid]


def all_props():
    importlib.import_module('props.table')
    return dict(sorted(_P.items()))
