"""C09: evaluation is pure: read-only, repeatable, unaffected by caching or interleaving."""

import asyncio
import gc
import io
import json
import os
import subprocess
import sys
import types

import jsonpath

from vlib import aio
from vlib import docs
from vlib import guard
from vlib import interleave
from vlib import mix
from vlib import probe
from vlib import rt

PROPERTY = "C09"
RULE = (
    "Queries are biased to filters mixing root-, context-, fake-root- and current-rooted sub-queries, current keys, constants, nested filters and "
    "functions of them.  The expected result of (text, document, context) is taken from a fresh compile in a fresh environment without caching; every "
    "other use must give it: caching on, the same compiled query over a history of documents (twins that compare equal but differ in type, mutated in "
    "place, injected faults, abandoned iterators), several lazy iterators advanced in random order, threads interleaved at line level, free threads, "
    "tasks, other hash seeds.  Documents and contexts are of recording containers, fingerprinted with identities before and after.  After each use the "
    "query must equal a fresh compile, with an equal hash and string form.  Non-trivial: some result, or a filter was evaluated.  Distinct by (text, document, context)."
)
REQUIRED = {"evaluations": 30000, "nonempty": 8000, "cacheable": 2000, "histories": 200, "interleavings": 300, "thread_switches": 5000, "documents_watched": 5000, "faults": 100, "recompiled": 2000, "sharp": 300, "refused_compiles": 5000, "long_lives": 60, "neighbours": 5000}
ASSUMPTIONS = [
    "function extensions are deterministic and do not change their arguments",
    "a baseline is one evaluation of a fresh compile in a fresh environment with filter caching off",
]

LOOP = None


def worker_setup(wid):
    global LOOP
    LOOP = asyncio.new_event_loop()


# ------------------------------------------------------------------- queries


class Mixed(mix.Wild):
    """Filters full of sub-queries that do and do not depend on the node."""

    def sub(self, depth, singular=None):
        rng = self.rng
        root = rng.choice(["@", "@", "@", "$", "$", "_", "_", "^"])
        return self.query(root, depth - 1, rng.random() < 0.6 if singular is None else singular)

    def operand(self, depth):
        rng = self.rng
        r = rng.random()
        if r < 0.5:
            return self.sub(depth, True)
        if r < 0.62:
            return self.literal()
        if r < 0.74:
            return self.t["#"]
        if r < 0.78:
            return "[" + ", ".join(self.literal() for _ in range(rng.randint(1, 2))) + "]"
        if r < 0.98 or depth <= 0:
            return self.vfunc(depth)
        return "(" + self.expr(depth - 1) + ")"

    def nested(self):
        """Filters inside filters, rooted anywhere."""
        rng = self.rng
        inner = f"{rng.choice('@$_^')}{rng.choice(['', '.*', '..*', '.a', '.b', '[0]'])}[?{self.expr(1)}]"
        if rng.random() < 0.4:
            inner += rng.choice([".a", "[0]", ".*", "..b"])
        form = rng.choice(["{0}", "count({0}) == {1}", "count({0}) > {1}", "!{0}", "{0} && {1} == {2}", "value({0}) == {1}", "count({0}) == length({2})", "{2} == {1} || {0}"])
        return f"$[?{form.format(inner, self.operand(1), self.operand(1))}]"


class Env(jsonpath.JSONPathEnvironment):
    def setup_function_extensions(self):
        super().setup_function_extensions()
        self.function_extensions["keys"] = __import__("jsonpath.function_extensions", fromlist=["keys"]).keys
        self.function_extensions["tag"] = Tag()
        self.function_extensions["nodes"] = nodes


class Tag:
    def __call__(self, x):
        if isinstance(x, bool):
            raise jsonpath.JSONPathTypeError("no booleans, please")
        if isinstance(x, (str, int, float)) or x is None:
            return type(x).__name__
        return "object" if hasattr(x, "keys") else "array" if hasattr(x, "__len__") else "nothing"


def nodes(ns):
    return len(ns)


nodes.with_node_lists = True

FUNCTION_FILTERS = ["$[?tag($.a) == tag(@)]", "$..[?tag(@.a) == tag(_.a)]", "$[?nodes($.*) > nodes(@.*)]", "$..[?keys(@) == keys($)]", "$[?nodes(_.*) == nodes(@.*) || tag(#) == 'str']", "$.*[?nodes($..a) == 1 && tag(@) != tag($.b)]"]


def text_for(rng, doc, extra):
    r = rng.random()
    w = Mixed(rng, doc, extra, blanks=rng.choice([0, 0.1]))
    if r < 0.4:
        return w.filtered(), "filtered"
    if r < 0.65:
        return w.nested(), "nested"
    if r < 0.7:
        return rng.choice(FUNCTION_FILTERS), "functions"
    if r < 0.8:
        return w.top(0.6), "compound"
    return mix.any_text(rng, doc, extra)


# -------------------------------------------------------------- observations


def seen(matches, limit=4000):
    out = []
    try:
        for m in matches():
            out.append((docs.fingerprint(guard.plain(m.obj)), m.path, m.parts))
            if len(out) >= limit:
                break
    except Exception as e:  # noqa: BLE001
        return out, type(e).__name__
    return out, None


def values(call):
    try:
        return [docs.fingerprint(guard.plain(v)) for v in call()], None
    except Exception as e:  # noqa: BLE001
        return None, type(e).__name__


def baseline(mon, text, doc, extra):
    """The result of (text, document, context): fresh everything, no caching."""
    mon.count("baselines")
    p = Env(filter_caching=False).compile(text)
    d, x = docs.clone(doc), docs.clone(extra)
    return seen(lambda: p.finditer(d, filter_context=x))


def expect(mon, what, text, doc, extra, want, got, **more):
    mon.count("evaluations")
    if want[0]:
        mon.count("nonempty")
    if got[1] == "InjectedFault":
        mon.violation(f"{what}:fault", "an earlier injected fault came back", query=text, document=docs.fingerprint(doc), **more)
    if want[1] is not None and want[1] == got[1]:
        # how far each came before the error is no part of the result
        n = min(len(want[0]), len(got[0]))
        want, got = (want[0][:n], want[1]), (got[0][:n], got[1])
    if want != got:
        mon.violation(f"{what}:result", "the result differs from that of a fresh compile without caching", query=text, document=docs.fingerprint(doc), context=docs.fingerprint(extra), expected=str(want)[:900], got=str(got)[:900], **more)


def expect_values(mon, what, text, doc, extra, want, got, **more):
    mon.count("evaluations")
    w = ([v for v, _, _ in want[0]], None) if want[1] is None else (None, want[1])
    if w != got:
        mon.violation(f"{what}:values", "the values differ from those of a fresh compile without caching", query=text, document=docs.fingerprint(doc), context=docs.fingerprint(extra), expected=str(w)[:900], got=str(got)[:900], **more)


def fresh(mon, what, env, text, p, s, h):
    """The compiled query is as compiled: equal to, and printed as, a fresh one."""
    mon.count("recompiled")
    q = mon.call(env.compile, text)
    if not q.ok:
        mon.violation(f"{what}:recompile", "a text that compiled before does not compile again", query=text, error=repr(q.exc))
    out = mon.call(lambda: (p == q.value, q.value == p, hash(p) == hash(q.value), str(p) == str(q.value), str(p) == s, hash(p) == h))
    if not out.ok or not all(out.value):
        mon.violation(f"{what}:recompiled-query", "the compiled query is not equal to a fresh compile of its text (==, reversed, hash, str, own str before, own hash before)", query=text, outcome=repr(out))
    return q.value


def compiled(mon, env, text):
    out = mon.call(env.compile, text)
    if not out.ok:
        mon.count("rejected_sources")
        return None
    mon.count("cacheable", cacheable(text))
    return out.value


def cacheable(text):
    """Whether a filter of the query holds a query that does not depend on the candidate: there is something to cache."""
    i = text.find("?")
    return i >= 0 and any(c in text[i:] for c in "$_^")


def noted(mon, text, doc, extra, want):
    mon.case(text + "\0" + docs.fingerprint(doc) + "\0" + docs.fingerprint(extra), bool(want[0]) or "?" in text)
    if want[1]:
        mon.see("error", want[1])
    if len(want[0]) > 1 and 25 < len(text) < 100 and "?" in text and mon.want_sample():
        mon.sample({"query": text, "document": docs.to_json(doc)[:160], "matches": len(want[0])})


class Watch:
    """Guards documents and contexts: no write calls, nothing changed afterwards."""

    def __init__(self, mon, what, text):
        self.mon, self.what, self.text = mon, what, text
        self.items = []
        guard.WRITES.clear()

    def add(self, v, name):
        self.items.append((v, guard.snapshot(v), name))
        return v

    def check(self):
        mon = self.mon
        mon.count("documents_watched", len(self.items))
        if guard.WRITES:
            mon.violation(f"{self.what}:write", "evaluation called a mutating method of the document or context", query=self.text, calls=str(guard.WRITES[:5]))
        for v, before, name in self.items:
            if guard.snapshot(v) != before:
                mon.violation(f"{self.what}:modified", f"evaluation modified the {name}", query=self.text, before=before[0], after=guard.snapshot(v)[0])


def make(rng):
    names = rng.choice(mix.NAME_SETS[:5])
    doc, extra = mix.make(rng, names=names)
    if rng.random() < 0.5:
        # the context and the document share names, so that a mix-up shows
        extra = {**extra, rng.choice(names): rng.choice([1, True, "a", [1, 2], {"a": 1}, None])}
    return doc, extra


def sharp(rng):
    """A filter whose verdict needs the node, the context and the document at several
    points, so that state mixed up between evaluations shows in the result."""
    names = rng.sample(["a", "b", "c", "d"], 3)
    vals = rng.choice([[1, 2], [1, True], ["a", "b"], [1, 2, "a", None], [0, False, 1]])
    keys = [*names, "k", "l"]

    def cand():
        return {n: rng.choice(vals) if rng.random() < 0.85 else {rng.choice(names): rng.choice(vals)} for n in names if rng.random() < 0.92}

    def document():
        items = [cand() for _ in range(rng.randint(1, 5))]
        body = items if rng.random() < 0.4 else dict(zip(rng.sample(keys, len(keys)), items))
        if rng.random() < 0.5:
            return body
        return {"s": body, **{n: rng.choice(vals) for n in names}}

    def operand():
        r = rng.random()
        n = rng.choice(names)
        if r < 0.4:
            return f"@.{n}"
        if r < 0.6:
            return f"_.{n}"
        if r < 0.72:
            return f"$.{n}"
        if r < 0.8:
            return "#"
        if r < 0.84:
            return f"^[0].{n}"
        if r < 0.9:
            return rng.choice([f"value(@.{n})", f"value(_.{n})", f"length(_.{n})", f"value($..{n})", f"count($..[?@.{n} == _.{n}])", f"count(@.*[?@.{n} == _.{n}])"])
        return json.dumps(rng.choice([*vals, *keys]))

    def one():
        r = rng.random()
        if r < 0.12:
            return f"@.{rng.choice(names)}"
        if r < 0.16:
            return f"_.{rng.choice(names)}"
        if r < 0.24:
            return f"{operand()} in _.w"
        if r < 0.3:
            return f"$[?@.{rng.choice(names)} == _.{rng.choice(names)}]"
        return f"{operand()} {rng.choice(['==', '==', '!=', '<=', '<'])} {operand()}"

    parts = [one() for _ in range(rng.randint(2, 4))]
    body = parts[0]
    for x in parts[1:]:
        body = rng.choice(["{0} && {1}", "{0} || {1}", "({0}) && {1}", "!({0}) && {1}", "({0} || {1})"]).format(body, x)
    text = rng.choice(["$[?{}]", "$.s[?{}]", "$..[?{}]", "$.*[?{}]", "$[?{}].a", "$[?{0}, ?{0}]", "$.s[?{0}] | $[?{0}]", "$..[?{}][?@.a]"]).format(body)

    def context():
        return {**{n: rng.choice(vals) for n in names if rng.random() < 0.9}, "w": [rng.choice(vals) for _ in range(rng.randint(0, 2))]}

    ds = [document() for _ in range(rng.randint(1, 3))]
    xs = [context() for _ in range(rng.randint(2, 4))]
    return text, ds, xs


def related(rng, text, doc, n):
    out = [doc]
    for _ in range(n):
        r = rng.random()
        if r < 0.3:
            out.append(guard.twin(rng, rng.choice(out)))
        elif r < 0.8:
            out += probe.documents(rng, text, doc, 1)
        else:
            out.append(mix.make(rng)[0])
    return out


def loaded(d):
    """Root strings are JSON text to the library: keep documents to containers and scalars."""
    return not isinstance(d, str)


# ----------------------------------------------------------------- workloads


def caching(rng, mon):
    """Caching on and off, every entry point, recorded documents."""
    if rng.random() < 0.06:
        doc, extra, text, label = mix.large(rng)
        label = "large-" + label
        mon.count("large")
    else:
        doc, extra = make(rng)
        text, label = text_for(rng, doc, extra)
    env = Env()
    p = compiled(mon, env, text)
    if p is None:
        return
    s, h = str(p), hash(p)
    mon.count("text:" + label)
    w = Watch(mon, "caching", text)
    for d in related(rng, text, doc, 2):
        want = baseline(mon, text, d, extra)
        noted(mon, text, d, extra, want)
        gd, gx = w.add(guard.guarded(d), "document"), w.add(guard.guarded(extra), "filter context")
        expect(mon, "caching", text, d, extra, want, seen(lambda: p.finditer(gd, filter_context=gx)))
        r = rng.random()
        if r < 0.3:
            expect_values(mon, "findall", text, d, extra, want, values(lambda: p.findall(gd, filter_context=gx)))
        elif r < 0.5:
            expect_values(mon, "query", text, d, extra, want, values(lambda: p.query(gd, filter_context=gx).values()))
        elif r < 0.65:
            expect_values(mon, "findall_async", text, d, extra, want, values(lambda: aio.drive(p.findall_async(gd, filter_context=gx))[0]))
        elif r < 0.75 and want[1] is None:
            m = p.match(gd, filter_context=gx)
            got = None if m is None else (docs.fingerprint(guard.plain(m.obj)), m.path, m.parts)
            mon.count("evaluations")
            if got != (want[0][0] if want[0] else None):
                mon.violation("match:result", "match is not the first result of a fresh compile", query=text, document=docs.fingerprint(d), context=docs.fingerprint(extra), expected=str(want[0][:1]), got=str(got))
        elif r < 0.85:
            off = Env(filter_caching=False)
            expect(mon, "uncached", text, d, extra, want, seen(lambda: off.finditer(text, gd, filter_context=gx)))
        elif r < 0.92 and loaded(d):
            fault = guard.Fault()
            fx = types.MappingProxyType(extra)
            fz = guard.frozen(d, fault)
            expect(mon, "read-only", text, d, extra, want, seen(lambda: p.finditer(fz, filter_context=fx)))
        elif loaded(d):
            t = json.dumps(d)
            expect(mon, "text", text, d, extra, want, seen(lambda: p.finditer(rng.choice([t, io.StringIO(t)]), filter_context=gx)))
    w.check()
    fresh(mon, "caching", env, text, p, s, h)


def history(rng, mon):
    """One compiled query over a long history."""
    if rng.random() < 0.3:
        text, ds, xs = sharp(rng)
        doc, extra = ds[0], xs[0]
        mon.count("sharp")
    else:
        doc, extra = make(rng)
        text, _ = text_for(rng, doc, extra)
        ds = xs = None
    env = Env(filter_caching=rng.random() < 0.85)
    p = compiled(mon, env, text)
    if p is None:
        return
    s, h = str(p), hash(p)
    w = Watch(mon, "history", text)
    cases = []
    for d in ds or related(rng, text, doc, 3):
        for x in xs or [extra, guard.twin(rng, extra), {}][: rng.randint(1, 3)]:
            cases.append((d, x, baseline(mon, text, d, x)))
    for d, x, want in cases:
        noted(mon, text, d, x, want)
    kept = [(w.add(guard.guarded(d), "document"), w.add(guard.guarded(x), "filter context")) for d, x, _ in cases]
    steps = []
    pending = []
    n = rng.choice([4, 8, 15, 30, 100])
    for _ in range(n):
        i = rng.randrange(len(cases))
        d, x, want = cases[i]
        gd, gx = kept[i]
        r = rng.random()
        steps.append(f"{i}:{r:.2f}")
        if r < 0.05 and isinstance(d, (dict, list)):
            # the caller changes what came out of a document given as text, then gives the same text again
            js = json.dumps(d)
            expect(mon, "history-text", text, d, x, want, seen(lambda: spoiled(rng, p.finditer(js, filter_context=x))), steps=" ".join(steps))
            expect(mon, "history-text-again", text, d, x, want, seen(lambda: env.finditer(text, js, filter_context=x) if rng.random() < 0.5 else p.finditer(js, filter_context=x)), steps=" ".join(steps))
            mon.count("texts_again")
        elif r < 0.35:
            expect(mon, "history", text, d, x, want, seen(lambda: p.finditer(gd, filter_context=gx)), steps=" ".join(steps))
        elif r < 0.45:
            # short-lived copies: identities are reused by later documents
            expect(mon, "history-temporary", text, d, x, want, seen(lambda: p.finditer(docs.clone(d), filter_context=docs.clone(x))), steps=" ".join(steps))
            if rng.random() < 0.05:
                gc.collect()
        elif r < 0.55:
            it = None
            try:
                it = iter(p.finditer(gd, filter_context=gx))
                for _ in range(rng.randint(0, 2)):
                    next(it, None)
            except Exception:  # noqa: BLE001
                pass
            if rng.random() < 0.5:
                pending.append(it)  # abandoned but alive
        elif r < 0.63 and loaded(d):
            fault = guard.Fault(rng.randint(1, 12))
            got = seen(lambda: p.finditer(guard.frozen(d, fault), filter_context=x))
            mon.count("faults", got[1] == "InjectedFault")
            if got[1] is None or got[1] != "InjectedFault":
                expect(mon, "history-faulty", text, d, x, want, got, steps=" ".join(steps))
        elif r < 0.72 and isinstance(d, (dict, list)) and d:
            # the caller changes the document between evaluations
            m = docs.clone(d)
            before = seen(lambda: p.finditer(m, filter_context=x))
            expect(mon, "history-before-change", text, d, x, want, before, steps=" ".join(steps))
            change(rng, m)
            mon.count("changed_in_place")
            expect(mon, "history-after-change", text, m, x, baseline(mon, text, m, x), seen(lambda: p.finditer(m, filter_context=x)), steps=" ".join(steps))
            if isinstance(x, dict) and x:
                # and the context, once it has been used
                mx = docs.clone(x)
                seen(lambda: p.finditer(m, filter_context=mx))
                change(rng, mx)
                mon.count("context_changed_in_place")
                expect(mon, "history-after-context-change", text, m, mx, baseline(mon, text, m, mx), seen(lambda: p.finditer(m, filter_context=mx)), steps=" ".join(steps))
        elif r < 0.82:
            expect(mon, "history-async", text, d, x, want, aio.drive(_seen_async(p, gd, gx))[0], steps=" ".join(steps))
        elif r < 0.9:
            expect_values(mon, "history-findall", text, d, x, want, values(lambda: p.findall(gd, filter_context=gx)), steps=" ".join(steps))
        elif r < 0.95:
            t = mix.any_text(rng, d, x)[0]
            mon.call(lambda: env.findall(t, docs.clone(d), filter_context=x))  # another query in between
        else:
            expect(mon, "history-recompiled", text, d, x, want, seen(lambda: env.finditer(text, gd, filter_context=gx)), steps=" ".join(steps))
    mon.count("histories")
    mon.see("history_length", n)
    w.check()
    fresh(mon, "history", env, text, p, s, h)


def spoiled(rng, it):
    """The matches, with the document they came from changed once they have been seen."""
    roots = []
    try:
        for m in it:
            yield m
            if not roots:
                roots.append(m.root)
    finally:
        for v in roots:
            if isinstance(v, dict):
                v.clear()
            elif isinstance(v, list):
                v.append({"a": 1})
            change(rng, v)


async def _seen_async(p, d, x):
    out = []
    try:
        async for m in await p.finditer_async(d, filter_context=x):
            out.append((docs.fingerprint(guard.plain(m.obj)), m.path, m.parts))
    except Exception as e:  # noqa: BLE001
        return out, type(e).__name__
    return out, None


def change(rng, m):
    """Change some scalars and members of a document in place."""
    nodes = [v for v, _ in docs.walk(m) if isinstance(v, (dict, list)) and v]
    for c in rng.sample(nodes, min(len(nodes), rng.randint(1, 4))):
        k = rng.choice(list(c) if isinstance(c, dict) else range(len(c)))
        r = rng.random()
        if r < 0.6 or isinstance(c, list) and r < 0.8:
            c[k] = rng.choice([0, 1, True, False, None, "a", "", 1.5, {"a": 1}, [1]])
        elif isinstance(c, dict):
            del c[k]
        else:
            c.append(c[k])


def iterators(rng, mon):
    """Several lazy iterators advanced in any order, some of one compiled query."""
    env = Env(filter_caching=rng.random() < 0.9)
    if rng.random() < 0.3:
        text, ds, xs = sharp(rng)
        mon.count("sharp")
    else:
        doc, extra = make(rng)
        text, _ = text_for(rng, doc, extra)
        ds, xs = None, [extra] * 6 + [guard.twin(rng, make(rng)[1]) for _ in range(4)]
    p = compiled(mon, env, text)
    if p is None:
        return
    s, h = str(p), hash(p)
    w = Watch(mon, "iterators", text)
    ds = ds or related(rng, text, doc, rng.choice([0, 1, 2]))
    jobs = []
    for _ in range(rng.randint(2, 5)):
        d = rng.choice(ds)
        x = rng.choice(xs)
        q, t = p, text
        if rng.random() < 0.2:
            t = text_for(rng, d, x)[0]
            q = mon.call(env.compile, t).value
            if q is None:
                continue
        jobs.append((t, q, d, x, baseline(mon, t, d, x)))
    if not jobs:
        return
    shared = {}
    live = []
    for i, (t, q, d, x, want) in enumerate(jobs):
        noted(mon, t, d, x, want)
        gd = shared.setdefault(id(d), None) or w.add(guard.guarded(d), "document")
        shared[id(d)] = gd
        gx = w.add(guard.guarded(x), "filter context")
        kind = rng.choice(["finditer", "finditer", "query", "async"])
        live.append((i, kind, gd, gx))
    outs = [([], None) for _ in jobs]
    its = {}
    order = []
    alive = list(range(len(jobs)))
    while alive:
        k = rng.choice(alive) if rng.random() < 0.8 else alive[0]
        i, kind, gd, gx = live[k]
        order.append(k)
        q = jobs[k][1]
        try:
            if k not in its:
                its[k] = _start(q, kind, gd, gx)
                if rng.random() < 0.5:
                    continue
            m = its[k]()
        except StopIteration:
            alive.remove(k)
            continue
        except Exception as e:  # noqa: BLE001
            outs[k] = (outs[k][0], type(e).__name__)
            alive.remove(k)
            continue
        outs[k][0].append((docs.fingerprint(guard.plain(m.obj)), m.path, m.parts))
        if rng.random() < 0.05:
            t = jobs[rng.randrange(len(jobs))][0]
            mon.call(env.compile, t)
        if len(outs[k][0]) > 4000:
            alive.remove(k)
    mon.count("interleavings", len(jobs) > 1)
    mon.see("order", ",".join(map(str, order))[:400])
    mon.count("iterator_switches", sum(a != b for a, b in zip(order, order[1:])))
    for (t, _, d, x, want), got in zip(jobs, outs):
        expect(mon, "iterators", t, d, x, want, got, order=str(order[:60]), others=str([j[0] for j in jobs]))
    w.check()
    fresh(mon, "iterators", env, text, p, s, h)


def _start(q, kind, d, x):
    """A function giving the next match; raises StopIteration at the end."""
    if kind == "async":
        agen = aio.drive(q.finditer_async(d, filter_context=x))[0].__aiter__()

        def step():
            try:
                return aio.drive(agen.__anext__())[0]
            except StopAsyncIteration:
                raise StopIteration from None

        return step
    it = iter(q.finditer(d, filter_context=x) if kind == "finditer" else q.query(d, filter_context=x))
    return lambda: next(it)


def jobs_for(rng, mon, env, n):
    ds = None
    if rng.random() < 0.5:
        text, ds, xs = sharp(rng)
        mon.count("sharp")
        other = 0.08
    else:
        doc, extra = make(rng)
        text, _ = text_for(rng, doc, extra)
        xs = [extra, guard.twin(rng, make(rng)[1])]
        other = 0.25
    p = compiled(mon, env, text)
    if p is None:
        return None
    ds = ds or related(rng, text, doc, 2)
    jobs = []
    for _ in range(n):
        d = rng.choice(ds)
        x = rng.choice(xs)
        t, q = text, p
        if rng.random() < other:
            t2 = text_for(rng, d, x)[0]
            if mon.call(env.compile, t2).ok:
                t, q = t2, None
        if rng.random() < other:
            q = None  # compiled in the thread
        jobs.append((t, q, d, x, baseline(mon, t, d, x)))
    return text, p, jobs


def threads(rng, mon):
    """Compilation and evaluation in threads interleaved at line level."""
    env = Env(filter_caching=rng.random() < 0.9)
    made = jobs_for(rng, mon, env, rng.choice([2, 2, 3]))
    if made is None:
        return
    text, p, jobs = made
    if sum(len(j[4][0]) for j in jobs) > 150:
        return
    s, h = str(p), hash(p)
    w = Watch(mon, "threads", text)
    fns = []
    for t, q, d, x, want in jobs:
        noted(mon, t, d, x, want)
        gd, gx = w.add(guard.guarded(d), "document"), w.add(guard.guarded(x), "filter context")
        if rng.random() < 0.75:
            fns.append(lambda t=t, q=q, gd=gd, gx=gx: seen(lambda: (q or env.compile(t)).finditer(gd, filter_context=gx)))
        else:
            fns.append(lambda t=t, q=q, gd=gd, gx=gx: aio.drive(_seen_async(q or env.compile(t), gd, gx))[0])
    b = interleave.Baton(rng, rng.choice([0.02, 0.1, 0.3, 0.6]))
    outs = b.run(fns)
    mon.count("thread_switches", len(b.trace))
    mon.count("thread_lines", b.lines)
    mon.see("thread_schedule", ",".join(map(str, b.trace))[:300])
    for (t, _, d, x, want), (ok, got) in zip(jobs, outs):
        if not ok:
            mon.violation("threads:error", "compiling or evaluating in a thread raised", query=t, document=docs.fingerprint(d), error=repr(got))
        expect(mon, "threads", t, d, x, want, got, others=str([j[0] for j in jobs]))
    w.check()
    fresh(mon, "threads", env, text, p, s, h)


def stress(rng, mon):
    """Free threads with a tiny switch interval over one compiled query."""
    env = Env()
    made = jobs_for(rng, mon, env, 6)
    if made is None:
        return
    text, p, jobs = made
    s, h = str(p), hash(p)
    w = Watch(mon, "stress", text)
    fns = []
    for t, q, d, x, want in jobs:
        noted(mon, t, d, x, want)
        gd, gx = w.add(guard.guarded(d), "document"), w.add(guard.guarded(x), "filter context")
        fns.append(lambda t=t, q=q, gd=gd, gx=gx: [seen(lambda: (q or env.compile(t)).finditer(gd, filter_context=gx)) for _ in range(3)])
    outs = interleave.stress(fns)
    mon.count("stress_batches")
    for (t, _, d, x, want), (ok, got) in zip(jobs, outs):
        if not ok:
            mon.violation("stress:error", "compiling or evaluating in a thread raised", query=t, document=docs.fingerprint(d), error=repr(got))
        for g in got:
            expect(mon, "stress", t, d, x, want, g, others=str([j[0] for j in jobs]))
    w.check()
    fresh(mon, "stress", env, text, p, s, h)


def tasks(rng, mon):
    """Evaluations of one compiled query in tasks that suspend at item access."""
    env = Env(filter_caching=rng.random() < 0.9)
    made = jobs_for(rng, mon, env, rng.randint(2, 4))
    if made is None:
        return
    text, p, jobs = made
    s, h = str(p), hash(p)
    coros = []
    real = rng.random() < 0.15
    pool = []
    for t, q, d, x, want in jobs:
        noted(mon, t, d, x, want)
        pauses = aio.Pauses(rng, real=real, most=rng.choice([1, 2, 4]))
        pool.append(pauses)
        ad = aio.wrap(rng, d, pauses, 1.0)
        if rng.random() < 0.5:
            x = aio.wrap(rng, x, pauses, 0.8)
        coros.append(_task(env, q, t, ad, x))
    if real:
        outs = [(True, v) for v in LOOP.run_until_complete(_gather(coros))]
    else:
        sch = aio.Scheduler(rng)
        outs = sch.run(coros)
        mon.see("task_schedule", ",".join(map(str, sch.trace))[:300])
        mon.count("task_switches", sum(a != b for a, b in zip(sch.trace, sch.trace[1:])))
    mon.count("suspensions", sum(x.suspended for x in pool))
    for (t, _, d, x, want), (ok, got) in zip(jobs, outs):
        if not ok:
            mon.violation("tasks:error", "evaluating in a task raised", query=t, document=docs.fingerprint(d), error=repr(got))
        expect(mon, "tasks", t, d, x, want, got, others=str([j[0] for j in jobs]))
    fresh(mon, "tasks", env, text, p, s, h)


async def _gather(coros):
    return await asyncio.gather(*coros)


async def _task(env, q, t, d, x):
    out = []
    try:
        async for m in await (q or env.compile(t)).finditer_async(d, filter_context=x):
            out.append((docs.fingerprint(aio.unwrap(m.obj)), m.path, m.parts))
    except Exception as e:  # noqa: BLE001
        return out, type(e).__name__
    return out, None


CHILD = """
import json, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
import jsonpath
from vlib import docs
for line in sys.stdin:
    t, d, x = json.loads(line)
    out = []
    try:
        p = jsonpath.compile(t)
        out.append(str(p))
        for m in p.finditer(d, filter_context=x):
            out.append([docs.fingerprint(m.obj), m.path, list(m.parts)])
    except Exception as e:
        out.append(type(e).__name__)
    print(json.dumps(out))
"""


def neighbour(rng, text):
    """A text that differs from another one in a place or two."""
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(text)) if text else 0
        c = text[i : i + 1]
        r = rng.random()
        if r < 0.35 and any(x.isdigit() for x in text):
            i = rng.choice([k for k, x in enumerate(text) if x.isdigit()])
            text = text[:i] + rng.choice("0123456789") + text[i + 1 :]
        elif r < 0.6 and any(x.isalpha() and x.isascii() for x in text):
            i = rng.choice([k for k, x in enumerate(text) if x.isalpha() and x.isascii()])
            text = text[:i] + rng.choice([text[i].swapcase(), rng.choice("abcxyz")]) + text[i + 1 :]
        elif r < 0.7:
            text = text[:i] + rng.choice([" ", "\t", "\n"]) + text[i:]
        elif r < 0.8:
            text += rng.choice([".a", "[0]", "[*]", "..a", "[?@.a]", "[-1]", " | $.a", " & $.*"])
        elif r < 0.9:
            text = text[:i] + {"'": '"', '"': "'", "<": ">", ">": "<", "=": "!", "&": "|", "|": "&", "@": "$", "$": "@", "*": "0", "[": "(", ".": ".."}.get(c, c) + text[i + 1 :]
        else:
            text = text[:-1]
    return text


def padded(rng, text):
    """The same query with many blanks after its first identifier."""
    if len(text) > 1 and text[0] in "$^" and text[1] in "[.":
        return text[0] + rng.choice([" ", "\n", "\t"]) * rng.choice([20, 70, 300]) + text[1:]
    return text


def neighbours(rng, mon):
    """Texts that differ little, compiled one after the other in one environment."""
    doc, extra = make(rng)
    first, _ = text_for(rng, doc, extra)
    if rng.random() < 0.4:
        first = padded(rng, first)
    texts = [first]
    for _ in range(rng.randint(2, 5)):
        texts.append(neighbour(rng, rng.choice(texts)))
    env = Env(filter_caching=rng.random() < 0.8)
    used = []
    for _ in range(len(texts) + 2):
        t = rng.choice(texts)
        used.append(t)
        got = mon.call(env.compile, t)
        want = mon.call(Env().compile, t)
        mon.count("neighbours")
        info = dict(query=t, before=str(used[:-1])[:900])
        if got.ok != want.ok or (not got.ok and got.kind != want.kind):
            mon.violation("neighbours:compile", "whether a text compiles depends on what was compiled before", fresh=repr(want)[:300], got=repr(got)[:300], **info)
        if not got.ok:
            mon.count("neighbours_refused")
            continue
        fresh(mon, "neighbours", Env(), t, got.value, str(want.value), hash(want.value))
        w = baseline(mon, t, doc, extra)
        noted(mon, t, doc, extra, w)
        d, x = docs.clone(doc), docs.clone(extra)
        how = rng.random()
        if how < 0.6:
            expect(mon, "neighbours", t, d, x, w, seen(lambda: got.value.finditer(d, filter_context=x)), before=info["before"])
        else:
            expect(mon, "neighbours-env", t, d, x, w, seen(lambda: env.finditer(t, d, filter_context=x)), before=info["before"])


def processes(rng, mon):
    """The same inputs in processes with other hash seeds, in another order."""
    lines, texts = [], []
    for _ in range(25):
        doc, extra = make(rng)
        text, _ = text_for(rng, doc, extra)
        if rng.random() < 0.3:
            text = padded(rng, text)
        for t in [text] + [neighbour(rng, text) for _ in range(rng.randint(0, 3))]:
            try:
                line = json.dumps([t, doc, extra])
            except ValueError:
                continue
            lines.append(line)
            texts.append(t)
    results = []
    for n, seed in enumerate(rng.sample(["0", "1", "2", "3", "4242", "77"], 2)):
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
        order = list(range(len(lines)))
        if n:
            rng.shuffle(order)
        r = subprocess.run([sys.executable, "-c", CHILD, rt.VERIF, rt.REPO], input="\n".join(lines[i] for i in order), capture_output=True, text=True, env=env, timeout=300, check=False)
        if r.returncode:
            mon.violation("processes:crash", "a process evaluating accepted texts ended abnormally", stderr=r.stderr[-800:])
        got = r.stdout.splitlines()
        if len(got) == len(lines):
            got = [v for _, v in sorted(zip(order, got))]
        results.append(got)
    mon.count("hash_seed_cases", len(lines))
    for t, line, a, b in zip(texts, lines, *results):
        mon.case("hash" + line, True)
        if a != b:
            mon.violation("processes:result", "the result depends on the process's hash seed, or on what was evaluated before", query=t, inputs=line, one=a[:600], other=b[:600])


BROKEN = ["$[?(@.a", "$[?((@.a == 1)", "$[?@.a ==", "$[?!(@.a", "$[?(@.a))]", "$[?count(@.*)]", "$[?count(@.*, 1) > 1]", "$[?length(@.a", "$[?nosuch(@.a)]", "$['a", "$[1:2:3:4]", "$[?@.a in [1, ", "$[", "$[?", "$..", "$.a |", "$.a & & $.b", "$[?@[?@[?@.a", "$[?@ =~ /(/]", "$[?@.a == 'x\\ud800']", "$[9999999999999999999]", "$[?(@.a || (@.b && (@.c)]", "$[01]", ""]


def broken(rng, text):
    """A text that a compiler gives up on, half-way through (most of the time)."""
    r = rng.random()
    if r < 0.4:
        return rng.choice(BROKEN)
    if r < 0.75:
        return text[: rng.randint(1, max(1, len(text) - 1))]
    if r < 0.9:
        i = rng.randrange(len(text) + 1)
        return text[:i] + rng.choice("()[]'?@$!&|,.") + text[i:]
    return mix.mutate(rng, text)


def longlived(rng, mon):
    """One environment through hundreds of compiles and evaluations, most of which fail."""
    env = Env(filter_caching=rng.random() < 0.8)
    tests = []
    for _ in range(6):
        doc, extra = make(rng)
        text, _ = text_for(rng, doc, extra)
        p = compiled(mon, env, text)
        if p is not None:
            tests.append((text, doc, extra, baseline(mon, text, doc, extra), p, str(p), hash(p)))
    if not tests:
        return
    # one kind of failure many times over, or a mixture
    only = broken(rng, rng.choice(tests)[0]) if rng.random() < 0.4 else None
    n = rng.choice([50, 150, 300, 600])
    refused = 0
    for i in range(n):
        text, doc, extra, want, p, s, h = rng.choice(tests)
        out = mon.call(env.compile, only if only is not None else broken(rng, text))
        refused += not out.ok
        if i % 25 == 7:
            f = guard.Fault(rng.randint(1, 6))
            seen(lambda: p.finditer(guard.frozen(doc, f), filter_context=extra))
            try:
                it = iter(p.finditer(doc, filter_context=extra))
                next(it, None)
            except Exception:  # noqa: BLE001
                pass
    mon.count("refused_compiles", refused)
    mon.count("long_lives")
    for text, doc, extra, want, p, s, h in tests:
        w = Watch(mon, "longlived", text)
        noted(mon, text, doc, extra, want)
        gd, gx = w.add(guard.guarded(doc), "document"), w.add(guard.guarded(extra), "filter context")
        info = {"before": f"{n} compiles on the same environment, {refused} refused", "like": str(only)}
        q = mon.call(env.compile, text)
        if not q.ok:
            mon.violation("longlived:recompile", "a text that compiled before does not compile again", query=text, error=repr(q.exc), **info)
        expect(mon, "longlived", text, doc, extra, want, seen(lambda: p.finditer(gd, filter_context=gx)), **info)
        expect(mon, "longlived-again", text, doc, extra, want, seen(lambda: q.value.finditer(gd, filter_context=gx)), **info)
        fresh(mon, "longlived", env, text, p, s, h)
        w.check()


WORKLOADS = {
    "caching": (caching, 4500, 160000),
    "history": (history, 900, 40000),
    "iterators": (iterators, 2200, 90000),
    "threads": (threads, 700, 30000),
    "stress": (stress, 100, 4000),
    "tasks": (tasks, 800, 40000),
    "processes": (processes, 8, 200),
    "neighbours": (neighbours, 4000, 120000),
    "longlived": (longlived, 120, 4000),
}
