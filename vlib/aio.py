"""Async containers with injected suspensions, and a seeded scheduler.

`Suspend` yields once to whoever drives the coroutine.  Under `drive` /
`Scheduler` a suspension is a point where another task may run, chosen by the
seeded generator, so an interleaving is replayable; under asyncio the same
containers use `asyncio.sleep(0)`.
"""

from __future__ import annotations

import asyncio
from collections.abc import Mapping
from collections.abc import Sequence


class Suspend:
    def __await__(self):
        yield "suspended"


class Pauses:
    """Shared by the containers of one document: how to suspend, and how often."""

    def __init__(self, rng, real=False, most=2):
        self.rng = rng
        self.real = real
        self.most = most
        self.gets = 0
        self.suspended = 0

    async def pause(self):
        self.gets += 1
        for _ in range(self.rng.randint(0, self.most)):
            self.suspended += 1
            if self.real:
                await asyncio.sleep(0)
            else:
                await Suspend()


class ADict(dict):
    pauses = None

    async def __getitem_async__(self, key):
        await self.pauses.pause()
        return dict.__getitem__(self, key)


class AList(list):
    pauses = None

    async def __getitem_async__(self, key):
        await self.pauses.pause()
        return list.__getitem__(self, key)


class AMap(Mapping):
    """Not a dict: only the Mapping interface."""

    def __init__(self, d, pauses):
        self.d = d
        self.pauses = pauses

    def __getitem__(self, key):
        return self.d[key]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    async def __getitem_async__(self, key):
        await self.pauses.pause()
        return self.d[key]


class ASeq(Sequence):
    def __init__(self, xs, pauses):
        self.xs = xs
        self.pauses = pauses

    def __getitem__(self, i):
        return self.xs[i]

    def __len__(self):
        return len(self.xs)

    async def __getitem_async__(self, i):
        await self.pauses.pause()
        return self.xs[i]


class RMap(Mapping):
    """A Mapping without an async getter."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, key):
        return self.d[key]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class SyncUse(Exception):
    """The synchronous item getter of an async-only container was used."""


class OnlyAsyncMap(Mapping):
    """Items can be got one by one only asynchronously."""

    def __init__(self, d, pauses):
        self.d = d
        self.pauses = pauses

    def __getitem__(self, key):
        raise SyncUse(repr(key))

    def __contains__(self, key):
        return key in self.d

    def __iter__(self):
        return iter(self.d)

    def items(self):
        return self.d.items()

    def values(self):
        return self.d.values()

    def __len__(self):
        return len(self.d)

    async def __getitem_async__(self, key):
        await self.pauses.pause()
        return self.d[key]


class OnlyAsyncSeq(Sequence):
    def __init__(self, xs, pauses):
        self.xs = xs
        self.pauses = pauses

    def __getitem__(self, i):
        raise SyncUse(repr(i))

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        return len(self.xs)

    async def __getitem_async__(self, i):
        await self.pauses.pause()
        return self.xs[i]


def only_async(v, pauses):
    if isinstance(v, dict):
        return OnlyAsyncMap({k: only_async(x, pauses) for k, x in v.items()}, pauses)
    if isinstance(v, list):
        return OnlyAsyncSeq([only_async(x, pauses) for x in v], pauses)
    return v


def wrap(rng, v, pauses, p=0.8):
    """The same JSON value with some containers replaced by async ones."""
    if isinstance(v, dict):
        d = {k: wrap(rng, x, pauses, p) for k, x in v.items()}
        r = rng.random()
        if r > p:
            return d if rng.random() < 0.7 else RMap(d)
        if r < p * 0.6:
            a = ADict(d)
            a.pauses = pauses
            return a
        return AMap(d, pauses)
    if isinstance(v, list):
        xs = [wrap(rng, x, pauses, p) for x in v]
        r = rng.random()
        if r > p:
            return xs if rng.random() < 0.7 else tuple(xs)
        if r < p * 0.6:
            a = AList(xs)
            a.pauses = pauses
            return a
        return ASeq(xs, pauses)
    return v


def unwrap(v):
    if isinstance(v, Mapping):
        return {k: unwrap(x) for k, x in v.items()}
    if isinstance(v, Sequence) and not isinstance(v, str):
        return [unwrap(x) for x in v]
    return v


def drive(coro):
    """Run one coroutine to its end; return its value and the number of steps."""
    n = 0
    while True:
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value, n
        n += 1


class Scheduler:
    """Runs coroutines to completion, choosing at every suspension who goes on."""

    def __init__(self, rng):
        self.rng = rng
        self.trace = []

    def run(self, coros):
        """[(ok, value-or-exception)] in the order of coros."""
        live = list(enumerate(coros))
        out = [None] * len(live)
        while live:
            k = self.rng.randrange(len(live))
            i, c = live[k]
            self.trace.append(i)
            try:
                c.send(None)
            except StopIteration as e:
                out[i] = (True, e.value)
                live.pop(k)
            except Exception as e:  # noqa: BLE001
                out[i] = (False, e)
                live.pop(k)
        return out
