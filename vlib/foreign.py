"""Documents of the same JSON values held in other container types than dict and list."""

import collections
import collections.abc
import types


class Seq(collections.abc.Sequence):
    """An array that is not a list."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class Map(collections.abc.Mapping):
    """An object that is not a dict."""

    def __init__(self, items):
        self.items_ = items

    def __len__(self):
        return len(self.items_)

    def __iter__(self):
        return iter(self.items_)

    def __getitem__(self, k):
        return self.items_[k]


class MutSeq(Seq, collections.abc.MutableSequence):
    def __setitem__(self, i, v):
        self.items[i] = v

    def __delitem__(self, i):
        del self.items[i]

    def insert(self, i, v):
        self.items.insert(i, v)


class MutMap(Map, collections.abc.MutableMapping):
    def __setitem__(self, k, v):
        self.items_[k] = v

    def __delitem__(self, k):
        del self.items_[k]


class Array(list):
    """A list subclass."""


MAPS = [Map, types.MappingProxyType, collections.OrderedDict, collections.UserDict, MutMap]
SEQS = [Seq, tuple, collections.UserList, MutSeq, Array]
MUTABLE_MAPS = [collections.OrderedDict, collections.UserDict, MutMap]
MUTABLE_SEQS = [collections.UserList, MutSeq, Array]


def wrap(rng, v, p, mutable=False):
    """The same JSON value, of other container types here and there."""
    if isinstance(v, dict):
        d = {k: wrap(rng, x, p, mutable) for k, x in v.items()}
        if rng.random() > p:
            return d
        return rng.choice(MUTABLE_MAPS if mutable else MAPS)(d)
    if isinstance(v, list):
        a = [wrap(rng, x, p, mutable) for x in v]
        if rng.random() > p:
            return a
        return rng.choice(MUTABLE_SEQS if mutable else SEQS)(a)
    return v


def unwrap(v):
    if isinstance(v, collections.abc.Mapping):
        return {k: unwrap(x) for k, x in v.items()}
    if isinstance(v, collections.abc.Sequence) and not isinstance(v, str):
        return [unwrap(x) for x in v]
    return v


def at(v, loc):
    for p in loc:
        v = v[p]
    return v
