"""C12: query iterator operations behave as list slicing on the match sequence."""

import sys

import jsonpath
from jsonpath.fluent_api import Query

from vlib import big
from vlib import docs
from vlib import jp

PROPERTY = "C12"
RULE = (
    "Every chain of up to two operations (every operation and alias, every count from -1 to beyond the length), and every chain of three "
    "operations modulo aliases, over match sequences of each length from 0 to 6; and random chains of up to 14 operations over several "
    "live iterators (those returned by take and tee included), used in any order.  An executable model keeps one Python list per live "
    "iterator; what every operation returns and what every iterator finally yields is compared with it.  Non-trivial: the sequence or a "
    "count is not empty.  Distinct by (length, history)."
)
REQUIRED = {"histories": 20000, "refused": 2000, "taken": 2000, "teed": 1000, "drained": 20000, "first_one": 1000, "last_one": 1000}
ASSUMPTIONS = [
    "a query is not used again after tee() (documented), nor after last_one()",
    "counts are integers up to sys.maxsize",
]

LIMITS = ("limit", "head", "first")
SKIPS = ("skip", "drop")
TAILS = ("tail", "last")
COUNTED = (*LIMITS, *SKIPS, *TAILS, "take", "tee")
ONES = ("first_one", "one", "last_one")
VIEWS = ("iter", "values", "locations", "items", "pointers")

MAX_LEN = 6
STYLES = 7


def make_doc(n, style):
    if style == 0:
        return "$[*]", [{"v": i} for i in range(n)]
    if style == 1:
        return "$.*", {f"k{i}": i * 10 for i in range(n)}
    if style == 2:
        return "$.a[*] | $.b[*]", {"a": [f"s{i}" for i in range(n // 2)], "b": [i for i in range(n - n // 2)]}
    if style == 3:
        return "$..[?@.x]", {"r": [{"x": {"y": i}} for i in range(n)]}
    if style == 5:
        # the same node more than once
        return ("$[" + ",".join(str(i % 3 - 1) for i in range(n)) + "]" if n else "$[7]"), ["p", {"q": 1}, 2.5]
    if style == 6:
        # nodes at depths that go up and down, the same value at several of them
        d = {}
        for i in range(n):
            v = {"a": i // 2}
            for k in range((i * 5 + 3) % 4):
                v = {f"w{k}": v} if (i + k) % 2 else [v]
            d[f"m{(i * 7) % 11}_{i}"] = v
        return "$..a", d
    # falsy and repeated values
    return "$[*]", [[0, None, False, "", [], {}, 0][i % 7] for i in range(n)]


class Live:
    """A live iterator of the library and the list it must behave as."""

    def __init__(self, q, xs):
        self.q = q
        self.xs = xs
        self.used = False


class History:
    def __init__(self, mon, text, doc, live, ref):
        self.mon, self.text, self.doc = mon, text, doc
        self.live = live
        self.ref = ref
        self.log = []

    def fail(self, mech, what, **more):
        self.mon.violation(mech, what, query=self.text, document=docs.to_json(self.doc), matches=len(self.ref), history=" ; ".join(self.log), **more)

    def same(self, m, want):
        return m is not None and m.path == want[1] and m.obj is want[0] and m.parts == want[2]

    def apply(self, i, op, n=None):
        lv = self.live[i]
        self.log.append(f"q{i}.{op}({'' if n is None else n})")
        mon = self.mon
        mon.count("op:" + op)
        if op in ONES:
            out = mon.call(getattr(lv.q, op))
            if not out.ok:
                self.fail(f"{op}:raised", "the operation raised", got=repr(out))
            last = op == "last_one"
            want = (lv.xs[-1] if last else lv.xs[0]) if lv.xs else None
            mon.count("last_one" if last else "first_one")
            if want is None:
                if out.value is not None:
                    self.fail(f"{op}:not-none", "one match from an empty sequence", got=repr(out.value))
            elif not self.same(out.value, want):
                self.fail(f"{op}:wrong", "the wrong match", got=repr(out.value and out.value.path), expected=want[1])
            if last:
                self.live.remove(lv)
            else:
                lv.xs = lv.xs[1:]
            return
        if op == "next":
            got = next(iter(lv.q), None)
            if lv.xs:
                if not self.same(got, lv.xs[0]):
                    self.fail("next:wrong", "iteration yielded the wrong match", got=repr(got and got.path), expected=lv.xs[0][1])
                lv.xs = lv.xs[1:]
            elif got is not None:
                self.fail("next:extra", "iteration yielded a match that is not left", got=got.path)
            return
        out = mon.call(getattr(lv.q, op), *(() if n is None else (n,)))
        if n is not None and n < 0:
            mon.count("refused")
            if out.ok or not isinstance(out.exc, ValueError):
                self.fail(f"{op}:negative", "a negative count is not refused with a value error", got=repr(out))
            return
        if not out.ok:
            self.fail(f"{op}:raised", "the operation raised", got=repr(out))
        if op in LIMITS:
            lv.q, lv.xs = out.value, lv.xs[:n]
        elif op in SKIPS:
            lv.q, lv.xs = out.value, lv.xs[n:]
        elif op in TAILS:
            lv.q, lv.xs = out.value, lv.xs[-n:] if n else []
        elif op == "take":
            mon.count("taken")
            self.live.append(Live(out.value, lv.xs[:n]))
            lv.xs = lv.xs[n:]
        elif op == "tee":
            mon.count("teed")
            k = 2 if n is None else n
            if not isinstance(out.value, tuple) or len(out.value) != k:
                self.fail("tee:count", "tee gave another number of iterators", got=repr(out.value))
            self.live.remove(lv)
            for q in out.value:
                self.live.append(Live(q, list(lv.xs)))

    def drain(self, i, view):
        lv = self.live.pop(i)
        self.log.append(f"drain q{i} by {view}")
        mon = self.mon
        mon.count("drained")
        mon.count("view:" + view)
        get = {
            "iter": lambda: list(lv.q),
            "values": lambda: list(lv.q.values()),
            "locations": lambda: list(lv.q.locations()),
            "items": lambda: list(lv.q.items()),
            "pointers": lambda: list(lv.q.pointers()),
        }[view]
        out = mon.call(get)
        if not out.ok:
            self.fail(f"{view}:raised", "a view raised", got=repr(out))
        got = out.value
        ok = len(got) == len(lv.xs)
        if ok and view == "iter":
            ok = all(self.same(m, w) for m, w in zip(got, lv.xs))
        elif ok and view == "values":
            ok = all(v is w[0] for v, w in zip(got, lv.xs))
        elif ok and view == "locations":
            ok = got == [w[1] for w in lv.xs]
        elif ok and view == "items":
            ok = all(p == w[1] and v is w[0] for (p, v), w in zip(got, lv.xs))
        elif ok:
            ok = all(str(p) == jp.pointer_text(w[2]) for p, w in zip(got, lv.xs))
        if not ok:
            self.fail(f"{view}:wrong", "the remaining matches are not those of the list operations", got=repr([getattr(x, "path", x) for x in got])[:500], expected=repr([w[1] for w in lv.xs])[:500])


def start(mon, n, style, how=0):
    text, doc = make_doc(n, style)
    p = jsonpath.compile(text)
    ref = [(m.obj, m.path, m.parts) for m in p.finditer(doc)]
    if len(ref) != n:
        mon.violation("source", "the source query does not have its matches", query=text, document=docs.to_json(doc), got=len(ref))
    q = [lambda: jsonpath.query(text, doc), lambda: p.query(doc), lambda: jsonpath.JSONPathEnvironment().query(text, doc), lambda: Query(list(p.finditer(doc)), p.env)][how]()
    return History(mon, text, doc, [Live(q, ref)], ref)


def finish(h, rng=None, view="iter"):
    """Drain everything that is still live, in a chosen order."""
    k = 0
    while h.live:
        i = rng.randrange(len(h.live)) if rng else 0
        h.drain(i, rng.choice(VIEWS) if rng else VIEWS[(VIEWS.index(view) + k) % len(VIEWS)])
        k += 1


def steps(n, aliases):
    """Every single operation on a sequence of length n."""
    ops = COUNTED if aliases else ("limit", "skip", "tail", "take", "tee")
    out = []
    for op in ops:
        counts = range(-1, n + 3) if op != "tee" else (-1, 0, 1, 2, 3, None)
        out += [(op, c) for c in counts]
    out += [(op, None) for op in (ONES if aliases else ("first_one", "last_one"))]
    out.append(("next", None))
    return out


def run_chain(mon, n, style, how, chain, target):
    h = start(mon, n, style, how)
    mon.count("histories")
    for k, (op, c) in enumerate(chain):
        if not h.live:
            break
        # later operations on the original (0) or on the newest iterator (-1)
        i = 0 if target == 0 else len(h.live) - 1
        h.apply(i, op, c)
    finish(h, view=VIEWS[(len(chain) + n + (chain[-1][1] or 0)) % 5])


TWO = [(n, a) for n in range(MAX_LEN + 1) for a in range(len(steps(n, True)))]
THREE = [(n, a) for n in range(5) for a in range(len(steps(n, False)))]


def exhaustive2(rng, mon):
    """All chains of at most two operations, all aliases."""
    n, a = TWO[mon.current[1] % len(TWO)]
    all_steps = steps(n, True)
    first = all_steps[a]
    mon.see("first_steps", f"{n}:{first}")
    for target in (0, -1):
        for k, second in enumerate([None, *all_steps]):
            chain = [first] if second is None else [first, second]
            style = (a + k) % STYLES
            run_chain(mon, n, style, (a * 7 + k) % 4, chain, target)
            mon.case(f"2/{n}/{style}/{target}/{chain}", n > 0)


def exhaustive3(rng, mon):
    """All chains of three operations modulo aliases."""
    n, a = THREE[mon.current[1] % len(THREE)]
    all_steps = steps(n, False)
    first = all_steps[a]
    for k, second in enumerate(all_steps):
        for j, third in enumerate(all_steps):
            chain = [first, second, third]
            target = 0 if (k + j) % 2 else -1
            run_chain(mon, n, (a + k + j) % STYLES, (k + j) % 2, chain, target)
            mon.case(f"3/{n}/{target}/{chain}", n > 0)


def random_history(rng, mon):
    """Long random histories over trees of iterators."""
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20, 50])
    style = rng.randrange(STYLES)
    h = start(mon, n, style, rng.randrange(4))
    mon.count("histories")
    if rng.random() < 0.3:
        # a second, independent query of the same text over the same document
        h.live.append(Live(jsonpath.query(h.text, h.doc), list(h.ref)))
    big = 0
    for _ in range(rng.randint(1, 14)):
        if not h.live:
            break
        i = rng.randrange(len(h.live))
        r = rng.random()
        if r < 0.14:
            op = rng.choice(ONES if rng.random() < 0.4 else ONES[:2])
            h.apply(i, op)
        elif r < 0.25:
            h.apply(i, "next")
        elif r < 0.3 and len(h.live) > 1:
            h.drain(i, rng.choice(VIEWS))
        else:
            op = rng.choice(COUNTED)
            left = len(h.live[i].xs)
            if op == "tee":
                if len(h.live) > 6:
                    continue
                h.apply(i, op, rng.choice([None, None, 0, 1, 2, 3, 4, -1]))
            else:
                c = rng.choice([-1, 0, 1, 2, left - 1, left, left + 1, left // 2, rng.randint(0, left + 2), 1000, -7])
                big = max(big, c)
                h.apply(i, op, c)
    finish(h, rng)
    mon.case(f"r/{n}/{style}/{h.log}", n > 0)
    mon.see("history_length", len(h.log))
    if mon.want_sample() and len(h.log) > 8:
        mon.sample({"matches": n, "history": " ; ".join(h.log)})


def many(rng, mon):
    """Many matches, many tee'd iterators, long histories, big counts."""
    n = big.size(rng, 257) if rng.random() < 0.85 else rng.choice([500, 511, 512, 513, 1000, 1023, 1024, 1025])
    style = rng.randrange(STYLES)
    h = start(mon, n, style, rng.randrange(4))
    mon.count("histories")
    mon.see("matches", n // 32 * 32)
    steps_left = rng.choice([2, 5, 20, 60])
    while steps_left and h.live:
        steps_left -= 1
        i = rng.randrange(len(h.live))
        left = len(h.live[i].xs)
        r = rng.random()
        if r < 0.08:
            h.apply(i, rng.choice(ONES if len(h.live) > 1 else ONES[:2]))
        elif r < 0.16:
            for _ in range(rng.choice([1, 3, 33, 100])):
                h.apply(i, "next")
            del h.log[:-40]
        elif r < 0.3 and len(h.live) > 4:
            h.drain(i, rng.choice(VIEWS))
        elif r < 0.4 and len(h.live) < 5:
            k = rng.choice([2, 5, 8, 9, 10, 12, 16, 17, 20, 33])
            mon.see("tee", k)
            h.apply(i, "tee", k)
        else:
            c = rng.choice([0, 1, 9, 10, 11, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, left - 1, left, left + 1, left // 2, rng.randint(0, left + 2), 1000, 10**6, sys.maxsize])
            h.apply(i, rng.choice([*SKIPS, "take", "take"]) if rng.random() < 0.6 else rng.choice([*LIMITS, *TAILS]), max(c, 0))
    finish(h, rng)
    mon.case(f"m/{n}/{style}/{h.log}", n > 0)


WORKLOADS = {
    "exhaustive2": (exhaustive2, len(TWO), len(TWO)),
    "exhaustive3": (exhaustive3, len(THREE), len(THREE)),
    "random_history": (random_history, 40000, 2000000),
    "many": (many, 1500, 60000),
}
