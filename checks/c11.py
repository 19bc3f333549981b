"""C11: all query entry points agree with one another on every input."""

import io
import json
import os
import shutil
import tempfile

import jsonpath
from jsonpath import CompoundJSONPath

from vlib import docs
from vlib import genq
from vlib import mix

PROPERTY = "C11"
RULE = (
    "Random queries of the whole accepted grammar over random documents, evaluated through every entry point: package, environment and "
    "compiled-query forms of findall, finditer, match and query, with the document as a value, as JSON text and as text/binary file "
    "objects.  All of them are compared with one recorded match list (value, path, parts).  Compound queries of up to five operands are "
    "compared with a reference combination of the separately evaluated operands (union = concatenation, intersection = restriction by "
    "JSON equality, left to right).  Non-trivial: there is a match, an error, or a filter.  Distinct by (text, document, context)."
)
REQUIRED = {"alike": 1000, "entry_points": 60000, "nonempty": 4000, "compounds": 3000, "intersections_cut": 500, "intersections_kept": 500, "files": 3000, "texts": 3000}
ASSUMPTIONS = ["two values are the same for an intersection when they are equal JSON values (a boolean is not a number)"]

SCRATCH = None


def worker_setup(wid):
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="c11-")


def worker_teardown(mon):
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def collect(fn):
    out = []
    try:
        for m in fn():
            out.append((m.obj, m.path, m.parts))
    except Exception as e:  # noqa: BLE001
        return out, e
    return out, None


def result(fn):
    try:
        return fn(), None
    except Exception as e:  # noqa: BLE001
        return None, e


def kind(e):
    return None if e is None else type(e).__name__


def same_match(x, y):
    (a, p, s), (b, q, t) = x, y
    return p == q and s == t and docs.same(a, b)


class Judge:
    def __init__(self, mon, text, doc, extra, ref, form):
        self.mon, self.text, self.doc, self.extra, self.ref, self.form = mon, text, doc, extra, ref, form

    def fail(self, name, what, got):
        ms, e = self.ref
        self.mon.violation(
            f"{name}({self.form})", what, query=self.text, document=docs.fingerprint(self.doc), context=docs.fingerprint(self.extra),
            entry_point=name, document_form=self.form, got=repr(got)[:800], expected=repr([(docs.fingerprint(o)[:80], p) for o, p, _ in ms[:12]]), expected_error=repr(e),
        )

    def finditer(self, name, fn):
        self.mon.count("entry_points")
        ms, e = self.ref
        gs, ge = collect(fn)
        if kind(e) != kind(ge):
            self.fail(name, "entry points do not raise alike", ge)
        if len(gs) != len(ms) or not all(same_match(a, b) for a, b in zip(ms, gs)):
            self.fail(name, "entry points find different matches", gs)

    def findall(self, name, fn):
        self.mon.count("entry_points")
        ms, e = self.ref
        gs, ge = result(fn)
        if kind(e) != kind(ge):
            self.fail(name, "entry points do not raise alike", ge)
        if e is None and not (isinstance(gs, list) and docs.same_list(gs, [o for o, _, _ in ms])):
            self.fail(name, "find-all is not the list of values of find-iter", gs)

    def match(self, name, fn):
        self.mon.count("entry_points")
        ms, e = self.ref
        m, ge = result(fn)
        if ms:
            if ge is not None or m is None or not same_match(ms[0], (m.obj, m.path, m.parts)):
                self.fail(name, "match is not the first element of find-iter", ge or m)
        elif e is not None:
            if kind(e) != kind(ge):
                self.fail(name, "match does not raise like find-iter", ge or m)
        elif ge is not None or m is not None:
            self.fail(name, "match is not None for an empty find-iter", ge or m)

    def query(self, name, fn, view):
        self.mon.count("entry_points")
        ms, e = self.ref
        if view == "iter":
            return self.finditer(name + ".__iter__", fn)
        get = {
            "values": lambda: list(fn().values()),
            "locations": lambda: list(fn().locations()),
            "items": lambda: list(fn().items()),
            "first_one": lambda: fn().first_one(),
        }[view]
        gs, ge = result(get)
        name = f"{name}.{view}"
        if view == "first_one":
            return self.match(name, lambda: _raise(ge) if ge is not None else gs)
        if kind(e) != kind(ge):
            self.fail(name, "a query iterator does not raise like find-iter", ge)
        if e is not None:
            return None
        want = {
            "values": [o for o, _, _ in ms],
            "locations": [p for _, p, _ in ms],
            "items": [(p, o) for o, p, _ in ms],
        }[view]
        if len(want) != len(gs) or not all((a == b if view == "locations" else docs.same(a, b) if view == "values" else a[0] == b[0] and docs.same(a[1], b[1])) for a, b in zip(want, gs)):
            self.fail(name, "a query iterator's view differs from find-iter", gs)
        return None


def _raise(e):
    raise e


def spaced(rng, v, ws):
    """JSON text of v with white space anywhere it is allowed."""
    w = lambda: rng.choice(ws)  # noqa: E731
    if isinstance(v, dict):
        return "{" + w() + (w() + "," + w()).join(json.dumps(k, ensure_ascii=rng.random() < 0.5) + w() + ":" + w() + spaced(rng, x, ws) for k, x in v.items()) + w() + "}"
    if isinstance(v, list):
        return "[" + w() + (w() + "," + w()).join(spaced(rng, x, ws) for x in v) + w() + "]"
    return json.dumps(v, ensure_ascii=rng.random() < 0.5)


class Stream(io.RawIOBase):
    """Bytes that arrive in small pieces and cannot be sought, as from a pipe or a socket."""

    def __init__(self, data, chunk):
        super().__init__()
        self.data, self.chunk = data, chunk

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), self.chunk, len(self.data))
        b[:n] = self.data[:n]
        self.data = self.data[n:]
        return n


def forms(rng, doc, mon):
    """(name, maker) pairs: the same array or object document in other forms."""
    kw = {"ensure_ascii": rng.random() < 0.5}
    if rng.random() < 0.3:
        kw["indent"] = rng.choice([1, 2, "\t"])
    text = json.dumps(doc, **kw)
    if rng.random() < 0.3:
        text = spaced(rng, doc, rng.choice([["", "\n"], ["", "", " ", "\n", "\r\n", "\t"], ["", "\r"]]))
    if rng.random() < 0.2:
        text = rng.choice([" ", "\n", "\t "]) + text + rng.choice(["", "\n"])
    out = [("text", lambda: text)]
    mon.count("texts")
    k = rng.choice(["StringIO", "StringIO", "BytesIO", "file", "binary file", "TextIOWrapper", "BufferedReader", "stream", "text stream"])
    mon.count("files")
    mon.see("file_kind", k)
    chunk = rng.choice([1, 3, 64, 8192])
    if k == "StringIO":
        out.append((k, lambda: io.StringIO(text)))
    elif k == "BytesIO":
        out.append((k, lambda: io.BytesIO(text.encode())))
    elif k == "BufferedReader":
        out.append((k, lambda: io.BufferedReader(io.BytesIO(text.encode()))))
    elif k == "stream":
        out.append((k, lambda: io.BufferedReader(Stream(text.encode(), chunk))))
    elif k == "text stream":
        out.append((k, lambda: io.TextIOWrapper(io.BufferedReader(Stream(text.encode(), chunk)), encoding="utf-8")))
    elif k == "TextIOWrapper":
        out.append((k, lambda: io.TextIOWrapper(io.BytesIO(text.encode()), encoding="utf-8")))
    else:
        path = os.path.join(SCRATCH or tempfile.gettempdir(), "doc-%d.json" % os.getpid())
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        if k == "file":
            out.append((k, lambda: open(path, encoding="utf-8")))  # noqa: SIM115
        else:
            out.append((k, lambda: open(path, "rb")))  # noqa: SIM115
    return out


def closing(make, fn):
    """Call fn on a fresh document and close it if it is a file."""
    data = make()
    try:
        return fn(data)
    finally:
        if isinstance(data, io.IOBase):
            data.close()


def observe(rng, mon, env, text, doc, extra, ref=None, full=False, compiled=None):
    kw = {"filter_context": extra} if extra or rng.random() < 0.5 else {}
    api = env if env is not None else jsonpath
    out = mon.call(api.compile, text)
    p = out.value if out.ok else None
    if ref is None:
        ref = collect(lambda: p.finditer(doc, **kw)) if p is not None else ([], out.exc)
    ms, e = ref
    mon.case(text + "\0" + docs.fingerprint(doc) + "\0" + docs.fingerprint(extra), bool(ms) or e is not None or "?" in text)
    if ms:
        mon.count("nonempty")
    if e is not None:
        mon.count("errors")
        mon.see("error", type(e).__name__)
    makers = [("value", lambda: doc)]
    if isinstance(doc, (dict, list)):
        fs = forms(rng, doc, mon)
        makers += fs if full or rng.random() < 0.35 else [rng.choice(fs)]
    for form, make in makers:
        j = Judge(mon, text, doc, extra, ref, form)
        levels = [("package", lambda m: lambda d, **k: getattr(jsonpath, m)(text, d, **k))] if env is None else []
        if env is not None or rng.random() < 0.4:
            en = env if env is not None else jsonpath.JSONPathEnvironment()
            levels.append(("env", lambda m, en=en: lambda d, **k: getattr(en, m)(text, d, **k)))
        if p is not None:
            levels.append(("compiled", lambda m: lambda d, **k: getattr(p, m)(d, **k)))
        if compiled is not None:
            levels.append(("built", lambda m: lambda d, **k: getattr(compiled, m)(d, **k)))
        if not full and len(levels) > 1 and form != "value":
            levels = [rng.choice(levels)]
        for lname, get in levels:
            j.findall(f"{lname}.findall", lambda get=get: closing(make, lambda d: get("findall")(d, **kw)))
            j.finditer(f"{lname}.finditer", lambda get=get: closing(make, lambda d: _listed(get("finditer")(d, **kw))))
            j.match(f"{lname}.match", lambda get=get: closing(make, lambda d: get("match")(d, **kw)))
            view = rng.choice(["values", "values", "iter", "items", "locations", "first_one"])
            j.query(f"{lname}.query", lambda get=get: get("query")(make(), **kw), view)
    if ms and isinstance(doc, (dict, list)) and rng.random() < 0.3:
        again(rng, mon, Judge(mon, text, doc, extra, ref, "text again"), api, p, text, doc, kw)
    return ref


def again(rng, mon, j, api, p, text, doc, kw):
    """The same JSON text once more, after the caller has changed what the first evaluation returned."""
    js = json.dumps(doc)
    for m in p.finditer(js, **kw) if rng.random() < 0.5 else api.finditer(text, js, **kw):
        for v in (m.obj, m.root):
            if isinstance(v, dict):
                v["changed"] = [1]
            elif isinstance(v, list):
                v.insert(0, "changed")
        break
    for v in p.findall(js, **kw) if rng.random() < 0.5 else api.findall(text, js, **kw):
        if isinstance(v, dict):
            v.clear()
        elif isinstance(v, list):
            v.clear()
        break
    mon.count("texts_again")
    j.findall("findall", lambda: (p if rng.random() < 0.5 else _Bound(api, text)).findall(js, **kw))
    j.finditer("finditer", lambda: (p if rng.random() < 0.5 else _Bound(api, text)).finditer(js, **kw))


class _Bound:
    """The entry points of an environment (or the package), for one text."""

    def __init__(self, api, text):
        self.findall = lambda d, **k: api.findall(text, d, **k)
        self.finditer = lambda d, **k: api.finditer(text, d, **k)


def _listed(it):
    """A generator that keeps partial results when the evaluation raises."""
    out = []
    err = None
    try:
        for m in it:
            out.append(m)
    except Exception as e:  # noqa: BLE001
        err = e

    def gen():
        yield from out
        if err is not None:
            raise err

    return gen()


def environments(rng):
    r = rng.random()
    if r < 0.6:
        return None
    return jsonpath.JSONPathEnvironment(filter_caching=rng.random() < 0.5, well_typed=rng.random() < 0.5)


def anything(rng, mon):
    """Any text through every entry point and document form."""
    doc, extra = mix.make(rng)
    if rng.random() < 0.1:
        doc = rng.choice([[], {}, 0, None, True, 1.5, "a", "", [[]], {"a": {}}, [None]])
    if rng.random() < 0.1:
        doc, extra, text, label = mix.large(rng)
        label = "large-" + label
        mon.count("large")
    else:
        text, label = mix.any_text(rng, doc, extra)
    mon.count("text:" + label)
    ref = observe(rng, mon, environments(rng), text, doc, extra)
    if ref[0] and len(text) > 14 and mon.want_sample():
        mon.sample({"query": text, "document": docs.to_json(doc)[:160], "matches": len(ref[0])})


def combine(first, rest):
    """The documented meaning of a compound query, over recorded matches."""
    out = list(first)
    cut = kept = 0
    for op, right in rest:
        if op == "|":
            out = out + right
        else:
            n = len(out)
            out = [m for m in out if any(docs.jeq(m[0], r[0]) for r in right)]
            cut += n - len(out)
            kept += len(out)
    return out, cut, kept


def compound(rng, mon):
    """Compound queries against a reference combination of their operands."""
    names = rng.choice([["a", "b"], ["a", "b", "c"], ["x", "0"]])
    leaves = rng.choice([[0, 1, True, False, 1.0, 0.0], ["a", "b", 1], genq.SCALARS, [0, 1, True, [], {}, [1], [True], {"a": 1}, {"a": True}, {"a": 1.0}], [1, 2, 3]])
    g = docs.DocGen(rng, names=names, unique=False, depth=rng.randint(1, 3), leaves=leaves)
    doc = docs.clone(g.value(container=True))
    extra = {"a": 1, "b": [1, True]}
    qg = genq.QueryGen(rng, doc, filters=0.15, ext=rng.random() < 0.4, extra=extra, max_segments=2, desc=0.35)
    n = rng.choice([1, 1, 2, 2, 3, 4])
    qs = []
    for _ in range(n + 1):
        r = rng.random()
        if r < 0.5:
            qs.append(("q", rng.choice("$$$^"), (rng.choice([("child", (("wild",),)), ("desc", (("wild",),)), ("child", (("slice", rng.choice([None, 0, 1]), None, rng.choice([None, 1, -1, 2])),)), ("desc", (("name", rng.choice(names)),)), ("child", (("wild",), ("wild",)))]),)))
        elif qs and r < 0.65:
            qs.append(rng.choice(qs))
        else:
            qs.append(qg.query(rng.choice("$$$^")))
    ops = [rng.choice("|&&") for _ in range(n)]
    texts = [mix.renderer(rng).query(q) for q in qs]
    parts = []
    for t in texts:
        ms, e = collect(lambda t=t: jsonpath.finditer(t, doc, filter_context=extra))
        if e is not None:
            mon.violation("operand", "an operand of a compound query raised", query=t, document=docs.fingerprint(doc), got=repr(e))
        parts.append(ms)
    want, cut, kept = combine(parts[0], list(zip(ops, parts[1:])))
    sp = lambda: rng.choice([" ", " ", "", "\n"])  # noqa: E731
    text = texts[0] + "".join(sp() + op + sp() + t for op, t in zip(ops, texts[1:]))
    mon.count("compounds")
    mon.see("operators", "".join(ops))
    if cut:
        mon.count("intersections_cut", cut)
    if kept:
        mon.count("intersections_kept", kept)
    compiled = None
    if rng.random() < 0.3:
        env = jsonpath.JSONPathEnvironment()
        ps = [env.compile(t) for t in texts]
        compiled = CompoundJSONPath(env=env, path=ps[0])
        nested = rng.random() < 0.4
        for op, q in zip(ops, ps[1:]):
            compiled = compiled.union(q) if op == "|" else compiled.intersection(q)
            if nested and rng.random() < 0.5:
                compiled = CompoundJSONPath(env=env, path=compiled)
        mon.count("built")
    observe(rng, mon, None, text, doc, extra, ref=(want, None), compiled=compiled)
    if want and mon.want_sample():
        mon.sample({"compound": text, "document": docs.to_json(doc)[:160], "matches": len(want)})


def deep(rng, mon):
    """Every entry point in every document form, on one query."""
    doc, extra = mix.make(rng)
    if not isinstance(doc, (dict, list)):
        doc = [doc]
    text, label = mix.any_text(rng, doc, extra)
    observe(rng, mon, environments(rng), text, doc, extra, full=True)


def scalars_in_text(rng, mon):
    """Documents whose strings are themselves JSON texts must be loaded once only."""
    inner = rng.choice(["[1, 2]", "{\"a\": 1}", "1", "null", "\"a\"", "[]", "{\"a\": [0]}", "true", "[1", "{", "\"", "a"])
    doc = rng.choice([[inner, [inner]], {"a": inner, "b": {"a": inner}}, [inner, 1, {"a": inner}]])
    q = rng.choice(["$.*", "$..*", "$[0]", "$.a", "$..a", "$.*.*", "$.a.a", "$[0][0]", "$..[0]", "$[?@.a == 1]", "$[?@ == '[]']", "$[?@[0] == 1]", "$[?length(@) > 1]", "$[?@.*]", "$[?_.x.a]", "$[?_.x == @]", "$.* | $.*", "$..* & $.*", "^[?@.a]", "^[0][0]"])
    extra = {"x": inner}
    observe(rng, mon, environments(rng), q, doc, extra, full=True)


def alike(rng, mon):
    """JSON text documents, one after the other, that differ in one place only."""
    ds, loc = docs.alike(rng)
    exact = "$" + "".join(f"[{x!r}]" for x in loc)
    q = rng.choice([exact, exact, "$..*", "$.*", "$[?@ == %s]" % rng.choice(["100", "'aB'", "true"])])
    for d in ds:
        mon.count("alike")
        observe(rng, mon, None, q, d, {}, full=True)


WORKLOADS = {
    "alike": (alike, 500, 10000),
    "anything": (anything, 12000, 400000),
    "compound": (compound, 9000, 300000),
    "deep": (deep, 1500, 60000),
    "scalars_in_text": (scalars_in_text, 1200, 12000),
}
