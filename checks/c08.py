"""C08: the async API returns exactly what the sync API returns."""

import asyncio
import io
import json

import jsonpath
from jsonpath import CompoundJSONPath

from vlib import aio
from vlib import docs
from vlib import mix

PROPERTY = "C08"
RULE = (
    "Random queries of the whole accepted grammar (standard, extended, compound, function calls, mutated texts) over random documents; "
    "the sequence of (value, normalized path, parts) seen through each async entry point, driven under a seeded scheduler, is compared "
    "with the one seen through the synchronous counterpart, and the exception class with the synchronous one.  Documents are plain, "
    "text, or built of containers with asynchronous item getters that suspend at random; several evaluations are run concurrently under "
    "the seeded scheduler and under asyncio.  Non-trivial: there is a result, an error or a filter candidate.  Distinct by (text, document, context)."
)
REQUIRED = {"matches_compared": 20000, "errors_compared": 300, "suspensions": 5000, "concurrent": 1000, "nonempty": 5000, "only_async": 5000, "built": 500}
ASSUMPTIONS = [
    "async getters return the items the synchronous getters return",
    "the suspension points of a coroutine are the awaits of the document's getters (the library has no others)",
]

LOOP = None


def worker_setup(wid):
    global LOOP
    LOOP = asyncio.new_event_loop()


class Lax(jsonpath.JSONPathEnvironment):
    def __init__(self, **kw):
        super().__init__(**kw)


class Fussy:
    """A function extension that raises for some arguments."""

    def __call__(self, x):
        if isinstance(x, str):
            raise jsonpath.JSONPathTypeError("no strings, please")
        return x


def fussy_nodes(nodes):
    return len(nodes) > 1


fussy_nodes.with_node_lists = True


def environment(rng):
    r = rng.random()
    if r < 0.5:
        return None, "default"
    if r < 0.65:
        env = jsonpath.JSONPathEnvironment(filter_caching=False)
        return env, "nocache"
    if r < 0.8:
        return jsonpath.JSONPathEnvironment(well_typed=False), "untyped"
    env = jsonpath.JSONPathEnvironment(well_typed=rng.random() < 0.5, filter_caching=rng.random() < 0.5)
    env.function_extensions["fussy"] = Fussy()
    env.function_extensions["many"] = fussy_nodes
    env.function_extensions["keys"] = __import__("jsonpath.function_extensions", fromlist=["keys"]).keys
    return env, "functions"


EXTRA_FILTERS = [
    "$..[?fussy(@.a) == 1]", "$[?fussy(@) == @]", "$..[?many(@.*)]", "$..[?keys(@) == undefined]", "$[?length(@.*) > 1]", "$..[?count(1) == 1]",
    "$..[?match(@.a, 1)]", "$[?@ < $..a]", "$..[?value(@.*) == 1]", "$[?isinstance(@, 'str') && fussy(@) == 1]", "$..[?length(@) == @.a]",
    "$[?search(@, '[')]", "$.*[?fussy(@) != 0]", "$..[?many($..a) && fussy(@) == @]", "$..[?typeof(@.a) == 'array' || fussy(@.b) == true]",
    "$[?fussy(@)]", "$..[?!many(@..a)]", "$[?value(1) == 1]", "$..[?length(count(@.*)) == 1]",
]


def record_sync(matches):
    out = []
    try:
        for m in matches():
            out.append((m.obj, m.path, m.parts))
    except Exception as e:  # noqa: BLE001
        return out, e
    return out, None


async def record_async(start):
    out = []
    try:
        async for m in await start():
            out.append((m.obj, m.path, m.parts))
    except Exception as e:  # noqa: BLE001
        return out, e
    return out, None


async def values_async(start):
    try:
        return await start(), None
    except Exception as e:  # noqa: BLE001
        return None, e


def kind(e):
    return None if e is None else type(e).__name__


def same_obj(a, b):
    return a is b or docs.same(aio.unwrap(a), aio.unwrap(b))


def same_matches(xs, ys):
    return len(xs) == len(ys) and all(
        p == q and s == t and [type(i) for i in s] == [type(i) for i in t] and same_obj(a, b)
        for (a, p, s), (b, q, t) in zip(xs, ys)
    )


def show(ms, n=12):
    return [(docs.fingerprint(aio.unwrap(o))[:80], p, s) for o, p, s in ms[:n]]


def compare(mon, what, text, doc, extra, want, got, **more):
    (ws, we), (gs, ge) = want, got
    mon.count("matches_compared", len(ws))
    if we is not None or ge is not None:
        mon.count("errors_compared")
    if kind(we) != kind(ge):
        mon.violation(f"{what}:error", "async and sync do not raise alike", query=text, document=docs.fingerprint(doc), context=docs.fingerprint(extra), sync=repr(we), asynchronous=repr(ge), **more)
    if we is not None:
        # how far each came before the error is no part of the property
        n = min(len(ws), len(gs))
        ws, gs = ws[:n], gs[:n]
    if not same_matches(ws, gs):
        mon.violation(f"{what}:matches", "the async match sequence differs from the sync one", query=text, document=docs.fingerprint(doc), context=docs.fingerprint(extra), sync=show(ws), asynchronous=show(gs), **more)


def compare_values(mon, what, text, doc, extra, want, got, **more):
    (ws, we), (gs, ge) = want, got
    if kind(we) != kind(ge):
        mon.violation(f"{what}:error", "async and sync find-all do not raise alike", query=text, document=docs.fingerprint(doc), context=docs.fingerprint(extra), sync=repr(we), asynchronous=repr(ge), **more)
    if we is None and not (isinstance(gs, list) and len(gs) == len(ws) and all(same_obj(a, b) for a, b in zip(ws, gs))):
        mon.violation(f"{what}:values", "async find-all differs from sync find-all", query=text, document=docs.fingerprint(doc), context=docs.fingerprint(extra), sync=repr(ws)[:600], asynchronous=repr(gs)[:600], **more)


def sync_values(fn):
    try:
        return fn(), None
    except Exception as e:  # noqa: BLE001
        return None, e


def build(rng, mon, compound=None):
    doc, extra = mix.make(rng)
    env, ename = environment(rng)
    mon.see("environment", ename)
    if rng.random() < 0.06:
        doc, extra, text, label = mix.large(rng)
        mon.count("large")
        mon.count("text:large-" + label)
        return doc, extra, env, text
    if ename == "functions" and rng.random() < 0.5:
        text, label = rng.choice(EXTRA_FILTERS), "functions"
    elif ename == "untyped" and rng.random() < 0.4:
        text, label = mix.mutate(rng, rng.choice(EXTRA_FILTERS)), "untyped"
    else:
        text, label = mix.any_text(rng, doc, extra)
    mon.count("text:" + label)
    return doc, extra, env, text


def noted(mon, text, doc, extra, want, async_steps=None):
    ms, e = want
    mon.case(text + "\0" + docs.fingerprint(doc) + "\0" + docs.fingerprint(extra), bool(ms) or e is not None or "?" in text)
    if ms:
        mon.count("nonempty")
        mon.see("result_size", min(len(ms), 50))
    if e is not None:
        mon.see("error", type(e).__name__)
    if ms and len(text) > 14 and mon.want_sample():
        mon.sample({"query": text, "document": docs.to_json(doc)[:160], "matches": len(ms)})


def plain(rng, mon):
    """Every pair of entry points on one (query, document)."""
    doc, extra, env, text = build(rng, mon)
    api = env or jsonpath
    kw = {"filter_context": extra} if rng.random() < 0.8 else {}
    data, form = doc, "value"
    if not isinstance(doc, str) and rng.random() < 0.12:
        data, form = json.dumps(doc, ensure_ascii=rng.random() < 0.5), "text"
        if rng.random() < 0.1:
            data, form = data[:-1] + rng.choice(["", "]", "}", ",", "[{"]), "broken text"
    mon.see("form", form)
    want = record_sync(lambda: api.finditer(text, data, **kw))
    mon.count("api_calls")
    got, _ = aio.drive(record_async(lambda: api.finditer_async(text, data, **kw)))
    noted(mon, text, doc, extra, want)
    compare(mon, "finditer", text, doc, extra, want, got, form=form)
    wv = sync_values(lambda: api.findall(text, data, **kw))
    gv, _ = aio.drive(values_async(lambda: api.findall_async(text, data, **kw)))
    compare_values(mon, "findall", text, doc, extra, wv, gv, form=form)
    out = mon.call((env or jsonpath).compile, text)
    if not out.ok:
        return
    p = out.value
    want = record_sync(lambda: p.finditer(data, **kw))
    got, _ = aio.drive(record_async(lambda: p.finditer_async(data, **kw)))
    compare(mon, "compiled.finditer", text, doc, extra, want, got, form=form)
    wv = sync_values(lambda: p.findall(data, **kw))
    gv, _ = aio.drive(values_async(lambda: p.findall_async(data, **kw)))
    compare_values(mon, "compiled.findall", text, doc, extra, wv, gv, form=form)
    if not isinstance(doc, str) and rng.random() < 0.1:
        s = json.dumps(doc)
        want = record_sync(lambda: p.finditer(io.StringIO(s), **kw))
        got, _ = aio.drive(record_async(lambda: p.finditer_async(io.StringIO(s), **kw)))
        mon.count("files")
        compare(mon, "compiled.finditer(file)", text, doc, extra, want, got, form="file")


def compiled(mon, env, text, rng=None):
    out = mon.call((env or jsonpath).compile, text)
    if not out.ok:
        return None
    p = out.value
    if rng is not None and rng.random() < 0.12:
        # compound queries made with the methods of queries, nested in any way
        e = env or jsonpath.JSONPathEnvironment()
        parts = [p]
        for _ in range(rng.randint(1, 4)):
            o = mon.call(e.compile, rng.choice(["$..*", "$.*", "$", "$.a", "$[0]", "$..[?@.a]", "$..[?@ == _.a]", "$[?_.b]", "^[0]", "^[?@.a]", text]))
            if o.ok and not isinstance(o.value, CompoundJSONPath):
                parts.append(o.value)
        p = parts[0]
        for q in parts[1:]:
            if not isinstance(p, CompoundJSONPath) or rng.random() < 0.5:
                p = CompoundJSONPath(env=e, path=p)
            p = p.union(q) if rng.random() < 0.6 else p.intersection(q)
        mon.count("built")
    return p


def getter(rng, mon):
    """Containers with asynchronous item getters."""
    doc, extra, env, text = build(rng, mon)
    p = compiled(mon, env, text, rng)
    if p is None:
        return
    pauses = aio.Pauses(rng, most=rng.choice([0, 1, 3]))
    adoc = aio.wrap(rng, doc, pauses)
    aextra = aio.wrap(rng, extra, pauses) if rng.random() < 0.4 else extra
    want = record_sync(lambda: p.finditer(adoc, filter_context=aextra))
    got, _ = aio.drive(record_async(lambda: p.finditer_async(adoc, filter_context=aextra)))
    noted(mon, text, doc, extra, want)
    mon.count("getter_calls", pauses.gets)
    mon.count("suspensions", pauses.suspended)
    compare(mon, "getter", text, doc, extra, want, got)
    gv, _ = aio.drive(values_async(lambda: p.findall_async(adoc, filter_context=aextra)))
    compare_values(mon, "getter.findall", text, doc, extra, sync_values(lambda: p.findall(adoc, filter_context=aextra)), gv)
    if not any(isinstance(v, str) for v in [doc]):
        base = record_sync(lambda: p.finditer(doc, filter_context=extra))
        if kind(base[1]) == kind(want[1]) and base[1] is None:
            mon.count("plain_vs_wrapped")
            compare(mon, "getter-vs-plain", text, doc, extra, base, got)


def tasks(rng, mon):
    """Evaluations awaited concurrently, over shared and separate compiled queries."""
    doc, extra, env, text = build(rng, mon)
    p = compiled(mon, env, text, rng)
    if p is None:
        return
    real = rng.random() < 0.25
    jobs = []
    pool = [p]
    for _ in range(rng.randint(2, 5)):
        q, t = rng.choice(pool), text
        d, x = (doc, extra) if rng.random() < 0.4 else mix.make(rng)
        if rng.random() < 0.25:
            t, _ = mix.any_text(rng, d, x)
            q = compiled(mon, env, t, rng)
            if q is None:
                continue
        pauses = aio.Pauses(rng, real=real, most=rng.choice([1, 2, 4]))
        jobs.append((q, t, d, x, aio.wrap(rng, d, pauses, 0.95), pauses))
    if len(jobs) < 2:
        return
    wants = [record_sync(lambda q=q, a=a, x=x: q.finditer(a, filter_context=x)) for q, _, _, x, a, _ in jobs]
    coros = [record_async(lambda q=q, a=a, x=x: q.finditer_async(a, filter_context=x)) for q, _, _, x, a, _ in jobs]
    if real:
        gots = LOOP.run_until_complete(_gather(coros))
        mon.count("asyncio_batches")
    else:
        s = aio.Scheduler(rng)
        res = s.run(coros)
        gots = [v for _, v in res]
        mon.see("schedule", ",".join(map(str, s.trace)))
        mon.count("switches", sum(a != b for a, b in zip(s.trace, s.trace[1:])))
    mon.count("concurrent", len(jobs))
    mon.count("suspensions", sum(j[5].suspended for j in jobs))
    for (q, t, d, x, _, _), want, got in zip(jobs, wants, gots):
        noted(mon, t, d, x, want)
        compare(mon, "tasks", t, d, x, want, got, concurrent=[j[1] for j in jobs], asyncio=real)


async def _gather(coros):
    return await asyncio.gather(*coros)


def iterators(rng, mon):
    """Several async iterators of one compiled query, advanced in any order."""
    doc, extra, env, text = build(rng, mon)
    p = compiled(mon, env, text, rng)
    if p is None:
        return
    n = rng.randint(2, 4)
    inputs = []
    for _ in range(n):
        d, x = (doc, extra) if rng.random() < 0.5 else mix.make(rng)
        pauses = aio.Pauses(rng, most=1)
        inputs.append((d, x, aio.wrap(rng, d, pauses, rng.choice([0, 0.9]))))
    wants = [record_sync(lambda a=a, x=x: p.finditer(a, filter_context=x)) for _, x, a in inputs]

    outs = [([], None) for _ in inputs]
    its = []
    live = []
    for i, (_, x, a) in enumerate(inputs):
        try:
            it, _ = aio.drive(p.finditer_async(a, filter_context=x))
            its.append(it.__aiter__())
            live.append(i)
        except Exception as e:  # noqa: BLE001
            its.append(None)
            outs[i] = ([], e)
    order = []
    while live:
        i = rng.choice(live)
        order.append(i)
        try:
            m, _ = aio.drive(its[i].__anext__())
            outs[i][0].append((m.obj, m.path, m.parts))
        except StopAsyncIteration:
            live.remove(i)
        except Exception as e:  # noqa: BLE001
            outs[i] = (outs[i][0], e)
            live.remove(i)
    mon.see("advance_order", ",".join(map(str, order)))
    mon.count("interleaved_iterators", n)
    for (d, x, _), want, got in zip(inputs, wants, outs):
        noted(mon, text, d, x, want)
        compare(mon, "iterators", text, d, x, want, got, order=order)


SMALL = ["a", "b", "c", "0", "1", "2", "-1", "10"]


def only_doc(rng, d):
    if d and rng.random() < 0.75:
        if rng.random() < 0.6:
            return {k: only_doc(rng, d - 1) for k in rng.sample(SMALL, rng.randint(1, 5))}
        return [only_doc(rng, d - 1) for _ in range(rng.randint(0, 4))]
    return rng.choice([0, 1, 2, "a", "b", None, True, False, 1.5])


def steps(rng, n, singular):
    out = ""
    for _ in range(n):
        r = rng.random()
        name = rng.choice(SMALL)
        if r < 0.3:
            out += f"['{name}']" if not name.isalpha() or rng.random() < 0.4 else "." + name
        elif r < 0.6 or (singular and r < 0.9):
            out += f"[{rng.choice([0, 1, 2, -1, -2, 10])}]"
        elif singular:
            out += ".a"
        elif r < 0.8:
            out += "[" + rng.choice(["0:2", "1:", "::2", "::-1", "-2:", ":-1", ":"]) + "]"
        elif r < 0.9:
            out += f"['{name}', {rng.choice([0, 1, -1])}, 1:3]"
        else:
            out += rng.choice(["[?@.a]", "[?@['1'] == 1]", "[?@[0] == 1]", "[?@.b < $.a]", "[?@[1]]", "[?@.a[0] != 'a']", "[?_.a]", "[?#  == 0]", "[?@['a','b']]", "[?count(@[0:2]) > 1]"])
    return out


def only_async(rng, mon):
    """Containers whose items can be got one by one only through the async getter: it has to be used, as documented."""
    # no comparison of containers with each other: that may go through the synchronous getter
    doc = only_doc(rng, 4)
    if not isinstance(doc, (dict, list)):
        doc = [doc]
    extra = only_doc(rng, 2)
    if not isinstance(extra, dict):
        extra = {"a": extra}
    text = "$" + steps(rng, rng.randint(1, 3), False)
    if rng.random() < 0.15:
        text += " | $" + steps(rng, rng.randint(1, 2), False)
    p = compiled(mon, None, text)
    if p is None:
        return
    pauses = aio.Pauses(rng, most=1)
    want = record_sync(lambda: p.finditer(doc, filter_context=extra))
    adoc, aextra = aio.only_async(doc, pauses), aio.only_async(extra, pauses)

    async def run():
        out = []
        async for m in await p.finditer_async(adoc, filter_context=aextra):
            out.append((m.obj, m.path, m.parts))
        return out

    try:
        got = aio.drive(run())[0], None
    except aio.SyncUse as e:
        mon.violation("sync-getter", "the async API used the synchronous getter of a container that supplies an asynchronous one", query=text, document=docs.fingerprint(doc), key=str(e))
    except Exception as e:  # noqa: BLE001
        got = [], e
    noted(mon, text, doc, extra, want)
    mon.count("only_async", pauses.gets)
    (ws, we), (gs, ge) = want, got
    if we is not None and ge is not None:
        n = min(len(ws), len(gs))
        ws, gs = ws[:n], gs[:n]
    if kind(we) != kind(ge) or not same_matches(ws, [(open_(o), p, s) for o, p, s in gs]):
        mon.violation("only-async", "async evaluation over async containers differs from sync evaluation over plain ones", query=text, document=docs.fingerprint(doc), context=docs.fingerprint(extra), sync=show(ws) + [repr(we)], asynchronous=[(docs.fingerprint(open_(o))[:80], p, s) for o, p, s in gs[:12]] + [repr(ge)])


def open_(v):
    if isinstance(v, aio.OnlyAsyncMap):
        return {k: open_(x) for k, x in v.items()}
    if isinstance(v, (aio.OnlyAsyncSeq, list)):
        return [open_(x) for x in v]
    return v


WORKLOADS = {
    "only_async": (only_async, 8000, 200000),
    "plain": (plain, 24000, 900000),
    "getter": (getter, 16000, 600000),
    "tasks": (tasks, 5000, 200000),
    "iterators": (iterators, 5000, 200000),
}
