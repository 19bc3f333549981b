"""Documents that watch how they are used.

`guarded(value)` is the same JSON value made of dict and list subclasses whose
mutating methods record the call (then perform it); `Faulty` containers raise at
the n-th access; `snapshot` captures a document's content and the identity of
every container in it.
"""

from __future__ import annotations

from collections.abc import Mapping
from collections.abc import Sequence

from . import docs

WRITES = []


def _recording(base, names):
    ns = {"__slots__": ()}
    for name in names:
        original = getattr(base, name, None)
        if original is None:
            continue

        def method(self, *a, _original=original, _name=name, **k):
            WRITES.append(f"{base.__name__}.{_name}{a!r:.60}")
            return _original(self, *a, **k)

        ns[name] = method
    return type("G" + base.__name__, (base,), ns)


GDict = _recording(dict, ["__setitem__", "__delitem__", "__ior__", "clear", "pop", "popitem", "setdefault", "update"])
GList = _recording(list, ["__setitem__", "__delitem__", "__iadd__", "__imul__", "append", "clear", "extend", "insert", "pop", "remove", "reverse", "sort"])


def guarded(v):
    if isinstance(v, dict):
        return GDict({k: guarded(x) for k, x in v.items()})
    if isinstance(v, list):
        return GList([guarded(x) for x in v])
    return v


class FrozenMap(Mapping):
    """Only the Mapping interface; counts accesses and raises at the n-th."""

    __slots__ = ("d", "fault")

    def __init__(self, d, fault):
        self.d = d
        self.fault = fault

    def __getitem__(self, key):
        self.fault.tick()
        return self.d[key]

    def __iter__(self):
        self.fault.tick()
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class FrozenSeq(Sequence):
    __slots__ = ("xs", "fault")

    def __init__(self, xs, fault):
        self.xs = xs
        self.fault = fault

    def __getitem__(self, i):
        self.fault.tick()
        return self.xs[i]

    def __len__(self):
        return len(self.xs)


class InjectedFault(Exception):
    pass


class Fault:
    def __init__(self, at=None):
        self.at = at
        self.n = 0

    def tick(self):
        self.n += 1
        if self.at is not None and self.n == self.at:
            raise InjectedFault(f"access {self.n}")


def frozen(v, fault):
    if isinstance(v, dict):
        return FrozenMap({k: frozen(x, fault) for k, x in v.items()}, fault)
    if isinstance(v, list):
        return FrozenSeq([frozen(x, fault) for x in v], fault)
    return v


def plain(v):
    """The JSON value held by any of these containers."""
    if isinstance(v, FrozenMap):
        return {k: plain(x) for k, x in v.d.items()}
    if isinstance(v, FrozenSeq):
        return [plain(x) for x in v.xs]
    if isinstance(v, Mapping):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, Sequence) and not isinstance(v, str):
        return [plain(x) for x in v]
    return v


def snapshot(v):
    """(content with types and order, identity and type of every container)."""
    ids = []
    if isinstance(v, (dict, list)):
        for x, loc in docs.walk(v):
            if isinstance(x, (dict, list)):
                ids.append((loc, id(x), type(x).__name__))
    return docs.fingerprint(v), tuple(ids)


def twin(rng, v, p=0.6):
    """A value that compares equal in Python but is another JSON value."""
    if isinstance(v, dict):
        return {k: twin(rng, x, p) for k, x in v.items()}
    if isinstance(v, list):
        return [twin(rng, x, p) for x in v]
    if isinstance(v, (bool, int, float)) and v in (0, 1) and rng.random() < p:
        return rng.choice([x for x in (0, False, 0.0, 1, True, 1.0) if x == v])
    if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2**53 and rng.random() < p:
        return float(v)
    return v
