"""C15: a patch is a faithful, reusable value."""

import io
import json

import jsonpath
from jsonpath import JSONPatch

from vlib import big
from vlib import docs
from vlib import genq
from vlib import ptr

PROPERTY = "C15"
RULE = (
    "Random operation lists (add, remove, replace, move, copy, test, addne, addap; values shared between operations included) built as "
    "a list, as JSON text, as a file, by builder chains and from the patch's own asdicts; all forms must print the same dicts with the "
    "given operation names and have the same effect (and the reference's effect) on several documents; monitors fingerprint the patch "
    "and the caller's list around every application, apply one object repeatedly and look for shared objects between results, patch "
    "and list.  Non-trivial: at least one operation. Distinct by (operations, document)."
)
REQUIRED = {"forms_compared": 5000, "applications": 20000, "repeat_applications": 5000, "op:addne": 200, "op:addap": 200, "option_ok": 1000, "alike": 2000, "changing": 5000}
ASSUMPTIONS = [
    "pointers have no backslashes (escape decoding is on by default) and no leading blanks",
    "addap with a token that is not an array index on an array is not judged against the reference",
]

VALUES = [*genq.CONFUSABLE, {"x": [1, {"y": 2}]}, [[1], [2]], {"0": {"1": [True]}}, [{"a": 0}]]


def unordered(v):
    if isinstance(v, dict):
        return "{" + ",".join(f"{k!r}:{unordered(v[k])}" for k in sorted(v, key=repr)) + "}"
    if isinstance(v, list):
        return "[" + ",".join(unordered(x) for x in v) + "]"
    return f"{type(v).__name__}{v!r}"


def builder(ops, rng, patch=None):
    p = JSONPatch() if patch is None else patch
    for op in ops:
        k = op["op"]
        P = (lambda s: jsonpath.JSONPointer(s)) if rng.random() < 0.3 else (lambda s: s)
        if k in ("add", "replace", "test", "addne", "addap"):
            p = getattr(p, k)(P(op["path"]), op["value"]) if rng.random() < 0.5 else getattr(p, k)(path=P(op["path"]), value=op["value"])
        elif k == "remove":
            p = p.remove(P(op["path"]))
        else:
            p = getattr(p, k)(from_=P(op["from"]), path=P(op["path"]))
    return p


def make(rng):
    names = rng.choice([["a", "b", "0", "1", "-"], ["a", "b", "c"], [t for t in rng.sample(docs.HOSTILE, 7) if "\\" not in t and not ptr.beyond_limit(t)] + ["a"]])
    g = docs.DocGen(rng, names=names, unique=rng.random() < 0.5, depth=rng.randint(1, 3), leaves=None if rng.random() < 0.5 else genq.SCALARS)
    doc = g.value(container=True)
    pg = ptr.PatchGen(rng, doc, names=names, values=VALUES, invalid=rng.choice([0, 0, 0.1]), ext=True)
    n = rng.choice([1, 2, 3, 4, 6])
    if rng.random() < 0.03:
        # long patches, long names and big values
        n = big.size(rng, 130)
        m = big.Maker(rng)
        pg.invalid = rng.choice([0, 0, 0.01])
        pg.values = [*VALUES, m.chain(rng.choice([3, 40])), m.array(30, 0), m.object(30, 0), big.long_string(rng)]
        pg.names = [*names, rng.choice("ab") * rng.choice([33, 64, 65, 128, 129])]
    ops = pg.patch(n)
    if rng.random() < 0.3 and len(ops) > 1:
        # one value object used by several operations
        vs = [op for op in ops if "value" in op]
        if len(vs) > 1:
            shared = [{"s": []}]
            for op in vs:
                if op["op"] != "test" and rng.random() < 0.6:
                    op["value"] = shared
    ops = [op for op in ops if not any("\\" in op.get(k, "") or any(ptr.beyond_limit(t) for t in ptr.untext(op.get(k, ""))) for k in ("path", "from"))]
    return doc, ops, g


def outcome(o):
    if o.ok:
        return "ok " + unordered(o.value)
    return "fail " + o.kind


def unjudged(ops, doc):
    """addap with a non-index token somewhere: not judged against the reference."""
    return any(op["op"] == "addap" and not ptr.CANON.fullmatch((ptr.untext(op["path"]) or ["0"])[-1]) and (ptr.untext(op["path"]) or ["0"])[-1] != "-" for op in ops)


def forms(rng, mon):
    """One operation list built in every way."""
    doc, ops, g = make(rng)
    if not ops:
        return
    keep = json.dumps(ops)
    mon.case(keep + "\0" + docs.fingerprint(doc), True)
    info = dict(operations=keep)
    for op in ops:
        mon.count("op:" + op["op"])
    made = {}
    for name, fn in (
        ("list", lambda: JSONPatch(ops)),
        ("tuple", lambda: JSONPatch(tuple(ops))),
        ("iterator", lambda: JSONPatch(iter(ops))),
        ("text", lambda: JSONPatch(json.dumps(ops))),
        ("file", lambda: JSONPatch(io.StringIO(json.dumps(ops)))),
        ("builder", lambda: builder(ops, rng)),
        ("list+builder", lambda: builder(ops[len(ops) // 2 :], rng, JSONPatch(ops[: len(ops) // 2]))),
    ):
        o = mon.call(fn)
        if not o.ok:
            mon.violation(f"construct:{name}:{o.kind}", f"the {name} form of a patch could not be constructed", got=repr(o), **info)
        made[name] = o.value
    for name in ("list", "builder"):
        o = mon.call(lambda: JSONPatch(made[name].asdicts()))
        if not o.ok:
            mon.violation(f"construct:asdicts({name}):{o.kind}", "a patch could not be constructed from its own list of dicts", got=repr(o), dicts=repr(made[name].asdicts()), **info)
        made[f"asdicts({name})"] = o.value
    want = unordered(ops)
    for name, p in made.items():
        o = mon.call(p.asdicts)
        mon.count("forms_compared")
        mon.see("form", name)
        if not o.ok:
            mon.violation(f"asdicts-raised:{name}", "asdicts raised", got=repr(o), **info)
        if [d.get("op") for d in o.value] != [d["op"] for d in ops]:
            mon.violation("op-name", "the list of dicts does not carry the operation names that were given", form=name, got=repr(o.value), **info)
        if unordered(o.value) != want:
            mon.violation(f"dicts:{name}", "a form of the patch prints a different list of dicts", form=name, got=repr(o.value), **info)
    # effect
    docs_ = [doc, g.value(container=True), docs.clone(rng.choice([{}, [], {"a": [1, 2]}, [{"a": 1}, [2]], {"a": {"b": 1}, "0": []}, 5, None]))]
    for d in docs_:
        outs = {}
        for name, p in made.items():
            outs[name] = mon.call(p.apply, docs.clone(d))
            mon.count("applications")
        first = outcome(outs["text"])
        for name, o in outs.items():
            if outcome(o) != first:
                mon.violation(f"effect:{name}", "two forms of one patch have different effects", document=docs.to_json(d), form=name, got=repr(o), text_form=repr(outs["text"]), **info)
            if o.ok and not ptr.only_json(o.value):
                mon.violation("not-json", "the patched document contains something that is not JSON", got=repr(o), **info)
        if not unjudged(ops, d):
            try:
                ref = ptr.apply(ops, docs.clone(d))
            except ptr.PatchFail as e:
                if outs["text"].ok:
                    mon.violation("reference-refuses", f"a patch was applied that must fail ({e})", document=docs.to_json(d), got=repr(outs["text"]), **info)
                if not isinstance(outs["text"].exc, jsonpath.JSONPatchError):
                    mon.violation("wrong-error", "a failing patch raised something other than a patch error", document=docs.to_json(d), got=repr(outs["text"]), **info)
            else:
                o = outs["text"]
                if not (o.ok and docs.jeq(o.value, ref)):
                    mon.violation("reference", "the patched document is not the defined one", document=docs.to_json(d), expected=docs.to_json(ref), got=repr(o), **info)
        for name, p in made.items():
            if unordered(p.asdicts()) != want:
                mon.violation(f"patch-changed:{name}", "applying a patch changed the patch", form=name, document=docs.to_json(d), got=repr(p.asdicts()), **info)
        if json.dumps(ops) != keep:
            mon.violation("list-changed", "applying a patch changed the caller's operation list", now=json.dumps(ops), document=docs.to_json(d), **info)
    if mon.want_sample() and len(ops) > 2:
        mon.sample({"operations": keep[:300]})


def repeat(rng, mon):
    """Apply one patch object again and again; results equal and independent."""
    doc, ops, g = make(rng)
    if not ops:
        return
    keep = json.dumps(ops)
    mon.case("repeat" + keep + "\0" + docs.fingerprint(doc), True)
    how = rng.choice(["list", "builder", "asdicts"])
    p = JSONPatch(ops) if how == "list" else builder(ops, rng)
    if how == "asdicts":
        p = JSONPatch(p.asdicts())
    info = dict(operations=keep, construction=how, document=docs.to_json(doc))
    results = []
    first = None
    for i in range(4):
        if i and rng.random() < 0.4:
            mon.call(p.apply, g.value(container=True))  # other documents in between
        o = mon.call(p.apply, docs.clone(doc))
        mon.count("repeat_applications")
        s = outcome(o)
        if first is None:
            first = s
        elif s != first:
            mon.violation("not-repeatable", "applying the same patch again to an equal document gives a different result", n=i, first=first[:500], got=repr(o), **info)
        if unordered(p.asdicts()) != unordered(json.loads(keep)):
            mon.violation("patch-changed", "applying a patch changed the patch", got=repr(p.asdicts()), **info)
        if json.dumps(ops) != keep:
            mon.violation("list-changed", "applying a patch changed the caller's operation list", now=json.dumps(ops), **info)
        if o.ok:
            results.append(o.value)
            if rng.random() < 0.5:
                scribble(rng, docs.clone(o.value))
    seen = {}
    for i, r in enumerate(results):
        for v, loc in docs.walk(r):
            if isinstance(v, (dict, list)):
                j = seen.setdefault(id(v), i)
                if j != i:
                    mon.violation("shared-results", "two results of one patch share an object", where=repr(loc), **info)
    for op in ops:
        for v, _ in docs.walk(op.get("value")):
            if isinstance(v, (dict, list)) and id(v) in seen:
                mon.violation("shared-with-patch", "a patched document shares an object with the patch", operation=json.dumps(op), **info)
    if results:
        mon.count("results_checked", len(results))
        scribble(rng, results[0])
        o = mon.call(p.apply, docs.clone(doc))
        if outcome(o) != first:
            mon.violation("scribble", "changing one result changed what the patch does next", got=repr(o), **info)
        for r in results[1:]:
            if outcome(type(o)(True, r, None)) != first:
                mon.violation("scribble-other", "changing one result changed another one", **info)
    if isinstance(doc, (dict, list)) and rng.random() < 0.5:
        # the document as one JSON text, again and again
        js = json.dumps(doc)
        for i in range(3):
            o = mon.call(p.apply, js)
            mon.count("text_applications")
            if outcome(o) != first:
                mon.violation("text-repeat", "applying the same patch again to the same JSON text gives another result", n=i, first=first[:500], got=repr(o), **info)
            if o.ok:
                scribble(rng, o.value)


ODD = ["a%20b", "%7E", "x%2Fy", "%2f0", "100%", "%31", "a+b", "%", "%C3%A9", "a b", "é", "%7e1", "q%22"]


def options(rng, mon):
    """unicode_escape and uri_decode mean the same whatever form the patch is built from."""
    kw = {"unicode_escape": rng.random() < 0.5, "uri_decode": rng.random() < 0.7}
    full = dict(kw)
    if rng.random() < 0.5:  # an option left out has its documented default
        kw = {k: v for k, v in kw.items() if v != {"unicode_escape": True, "uri_decode": False}[k]}
    names = [*rng.sample(ODD, 4), "a", "b", "0", "1", " ", "~", "x/y", "/0", "\\u0062", "b\\n", "\n"]
    ops = []

    def path(n):
        return "".join("/" + rng.choice([ptr.enc(rng.choice(names)), rng.choice(ODD), rng.choice(["a", "0", "\\u0061", "-"])]) for _ in range(n))

    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["add", "remove", "replace", "move", "copy", "test", "addne", "addap"])
        op = {"op": k, "path": path(rng.choice([1, 1, 2]))}
        if k in ("move", "copy"):
            op["from"] = path(rng.choice([1, 1, 2]))
        elif k != "remove":
            op["value"] = docs.clone(rng.choice(VALUES))
        ops.append(op)
    mon.case("options" + json.dumps(ops) + repr(kw), True)
    half = rng.randint(0, len(ops))
    made = {}
    for name, fn in (
        ("list", lambda: JSONPatch(ops, **kw)),
        ("text", lambda: JSONPatch(json.dumps(ops), **kw)),
        ("file", lambda: JSONPatch(io.StringIO(json.dumps(ops)), **kw)),
        ("builder", lambda: strings(ops, JSONPatch(**full))),
        ("pointers", lambda: strings(ops, JSONPatch(), lambda t: jsonpath.JSONPointer(t, **kw))),
        ("list+builder", lambda: strings(ops[half:], JSONPatch(ops[:half], **kw))),
    ):
        made[name] = mon.call(fn)
    kinds = {n: o.kind if not o.ok else "ok" for n, o in made.items()}
    if len({k == "ok" for k in kinds.values()}) > 1:
        mon.violation("options-construct", "a patch can be built in one form and not in another, with the same options", operations=json.dumps(ops), options=repr(kw), outcomes=kinds)
    if kinds["list"] != "ok":
        return
    printed = {n: unordered(mon.call(o.value.asdicts).value) for n, o in made.items()}
    if len(set(printed.values())) > 1:
        mon.violation("options-dicts", "forms of one patch print different dicts", operations=json.dumps(ops), options=repr(kw), printed=printed)
    g = docs.DocGen(rng, names=names, depth=2)
    for _ in range(3):
        d = g.value(container=True)
        if rng.random() < 0.7:
            d = {n: docs.clone(rng.choice(VALUES)) for n in names}
        outs = {n: mon.call(o.value.apply, docs.clone(d)) for n, o in made.items()}
        outs["apply"] = mon.call(lambda: jsonpath.patch.apply(ops, docs.clone(d), **kw))  # noqa: B023
        outs["apply-text"] = mon.call(lambda: jsonpath.patch.apply(json.dumps(ops), json.dumps(d), **kw))  # noqa: B023
        outs["apply-file"] = mon.call(lambda: jsonpath.patch.apply(io.StringIO(json.dumps(ops)), io.StringIO(json.dumps(d)), **kw))  # noqa: B023
        mon.count("applications", len(outs))
        mon.count("option_applications", len(outs))
        mon.count("option_applied", int(outs["list"].ok))
        if outs["text"].ok:
            mon.count("option_ok")
        first = outcome(outs["builder"])
        for n, o in outs.items():
            if outcome(o) != first:
                mon.violation(f"options:{n}", "two forms of one patch, made with the same options, have different effects", operations=json.dumps(ops), options=repr(kw), document=docs.to_json(d), form=n, got=repr(o), builder=repr(outs["builder"]))


def strings(ops, p, P=lambda t: t):
    for op in ops:
        k = op["op"]
        if k in ("move", "copy"):
            p = getattr(p, k)(P(op["from"]), P(op["path"]))
        elif k == "remove":
            p = p.remove(P(op["path"]))
        else:
            p = getattr(p, k)(P(op["path"]), op["value"])
    return p


def scribble(rng, v):
    for x, _ in list(docs.walk(v)):
        if isinstance(x, dict):
            x["scribbled"] = 1
        elif isinstance(x, list):
            x.append("scribbled")


def variants(rng, mon):
    """addne / addap against add."""
    c = rng.choice([{}, {"a": 1}, {"a": None, "0": False}, {"0": [1]}, [], [1], [1, 2, 3], [[], {}]])
    doc = {"k": docs.clone(c), "s": 5} if rng.random() < 0.8 else docs.clone(c)
    pre = "/k" if isinstance(doc, dict) and "k" in doc else ""
    tok = rng.choice(["a", "0", "1", "2", "3", "4", "10", "-", "b", "", "01"])
    path = rng.choice([pre + "/" + tok, pre + "/" + tok, pre + "/" + tok, "", "/s/x", "/nope/x", pre])
    val = docs.clone(rng.choice(VALUES))
    mon.case(f"variants{docs.fingerprint(doc)}{path}", True)
    outs = {}
    for k in ("add", "addne", "addap"):
        op = {"op": k, "path": path, "value": docs.clone(val)}
        p = JSONPatch([op]) if rng.random() < 0.5 else getattr(JSONPatch(), k)(path, docs.clone(val))
        outs[k] = mon.call(p.apply, docs.clone(doc))
        mon.count("op:" + k)
    info = dict(path=path, value=docs.to_json(val), document=docs.to_json(doc), add=repr(outs["add"]), addne=repr(outs["addne"]), addap=repr(outs["addap"]))
    toks = ptr.untext(path)
    parent = target = None
    try:
        parent = ptr.resolve(doc, toks[:-1]) if toks else None
    except ptr.Fail:
        pass
    if toks and isinstance(parent, dict) and toks[-1] in parent:
        if not (outs["addne"].ok and docs.jeq(outs["addne"].value, doc)):
            mon.violation("addne", "addne did not leave an existing object member untouched", **info)
    elif outcome(outs["addne"]) != outcome(outs["add"]):
        mon.violation("addne-differs", "addne differs from add where no existing object member is involved", **info)
    if toks and isinstance(parent, list) and toks[-1] != "-" and not (ptr.CANON.fullmatch(toks[-1])):
        return
    if toks and isinstance(parent, list) and not outs["add"].ok:
        want = ptr.apply([{"op": "add", "path": ptr.text([*toks[:-1], "-"]), "value": val}], docs.clone(doc))
        if not (outs["addap"].ok and docs.jeq(outs["addap"].value, want)):
            mon.violation("addap", "addap did not append where the array index cannot be resolved", **info)
    elif outcome(outs["addap"]) != outcome(outs["add"]):
        mon.violation("addap-differs", "addap differs from add where the index can be resolved", **info)


def changing(rng, mon):
    """One patch object applied again and again to one document object, which
    others change in between."""
    doc, ops, g = make(rng)
    if not ops or not isinstance(doc, (dict, list)):
        return
    keep = json.dumps(ops)
    doc = docs.clone(doc)
    p = JSONPatch(ops) if rng.random() < 0.5 else builder(ops, rng)
    for i in range(5):
        if unjudged(ops, doc):
            return
        mon.case("changing" + keep + "\0" + docs.fingerprint(doc), True)
        before = docs.clone(doc)
        try:
            want = ptr.apply(ops, docs.clone(doc))
        except ptr.PatchFail as e:
            want = e
        o = mon.call(p.apply, doc)
        mon.count("changing")
        info = dict(operations=keep, document=docs.to_json(before), n=i, got=repr(o))
        if isinstance(want, ptr.PatchFail):
            if o.ok or not isinstance(o.exc, jsonpath.JSONPatchError):
                mon.violation("changing-accepted", f"a patch that must fail ({want}) on the document as it now is did not fail with a patch error", **info)
            doc = before
        else:
            if not (o.ok and docs.jeq(o.value, want)):
                mon.violation("changing", "the patched document is not the one defined for the document as it now is", expected=docs.to_json(want), **info)
            doc = o.value
            if not isinstance(doc, (dict, list)) or len(keep) > 4000 or sum(1 for _ in docs.walk(doc)) > 400:
                return
        if rng.random() < 0.6:
            docs.mutate(rng, doc)


def alike(rng, mon):
    """Patches, one after the other, whose texts differ in one place only."""
    values, _ = docs.alike(rng)
    n = rng.choice([1, 3, 10, 40])
    i = rng.randrange(n)
    rest = [rng.choice([{"op": "add", "path": "/k%d" % j, "value": j}, {"op": "test", "path": "", "value": None}, {"op": "move", "from": "/a%d" % j, "path": "/b"}]) for j in range(n)]
    how = rng.choice(["value", "path", "from", "op"])
    for j, v in enumerate(values):
        ops = docs.clone(rest)
        ops[i] = {
            "value": {"op": "add", "path": "/a", "value": v},
            "path": {"op": "remove", "path": "/" + "x" * 60 + "/%d" % j},
            "from": {"op": "copy", "from": "/" + "x" * 60 + "/%d" % j, "path": "/a"},
            "op": {"op": ["add", "addne", "addap"][j % 3], "path": "/a", "value": values[0]},
        }[how]
        text = json.dumps(ops)
        mon.case("alike" + text, True)
        mon.count("alike")
        for name, form in (("text", text), ("file", io.StringIO(text)), ("list", ops)):
            o = mon.call(lambda f=form: JSONPatch(f).asdicts())
            if not (o.ok and unordered(o.value) == unordered(json.loads(text))):
                mon.violation(f"alike:{name}", "a patch prints other operations than the ones it was made from", operations=text[:3000], got=repr(o)[:3000])


WORKLOADS = {
    "alike": (alike, 1000, 15000),
    "changing": (changing, 3000, 40000),
    "forms": (forms, 20000, 250000),
    "repeat": (repeat, 25000, 300000),
    "options": (options, 8000, 100000),
    "variants": (variants, 15000, 120000),
}
