"""C05: JSON Patch application conforms to RFC 6902."""

import io
import json

import jsonpath

from vlib import big
from vlib import docs
from vlib import foreign
from vlib import genq
from vlib import ptr

PROPERTY = "C05"
RULE = (
    "Random documents (hostile and integer-like member names, confusable scalars) and random operation sequences guided by the "
    "document as it changes, applied by the real library through every entry point (list, JSON text, builder, convenience function) "
    "and compared with an independent RFC 6902 implementation: the same JSON value, or a patch error of the right kind exactly when "
    "the reference refuses; the result must be plain JSON with no shared substructure.  Plus a grid of single operations over every "
    "(container, tricky token) pair.  Non-trivial: at least one operation. Distinct by (patch, document)."
)
REQUIRED = {"alike": 1500, "applied": 3000, "refused": 2000, "ops_applied": 5000, "test_failures": 100, "root_copies": 500}
ASSUMPTIONS = [
    "`remove` of the root is not judged (RFC 6902 does not define the result)",
    "`test` of a missing target may be reported as any patch error",
    "the documented pointer extensions (negative indices, # and ~ keys) are not RFC 6902 locations, so a patch that uses them must fail",
]

PE = jsonpath.JSONPatchError
TF = jsonpath.JSONPatchTestFailure


def build(rng, mon, ops, esc):
    """The patch through one of the entry points; returns (how, apply function)."""
    r = rng.random()
    if r < 0.35:
        return "list", lambda d: jsonpath.JSONPatch(ops, unicode_escape=esc).apply(d)
    if r < 0.5:
        return "function", lambda d: jsonpath.patch.apply(ops, d, unicode_escape=esc)
    if r < 0.65:
        return "text", lambda d: jsonpath.JSONPatch(json.dumps(ops), unicode_escape=esc).apply(d)
    if r < 0.75:
        return "file", lambda d: jsonpath.JSONPatch(io.StringIO(json.dumps(ops)), unicode_escape=esc).apply(d)

    def b(d):
        p = jsonpath.JSONPatch(unicode_escape=esc)
        for op in ops:
            k = op["op"]
            if k in ("add", "replace", "test"):
                p = getattr(p, k)(op["path"], op["value"])
            elif k == "remove":
                p = p.remove(op["path"])
            elif rng.random() < 0.5:
                p = getattr(p, k)(from_=op["from"], path=op["path"])
            else:
                P = lambda s: jsonpath.JSONPointer(s, unicode_escape=esc)  # noqa: E731
                p = getattr(p, k)(P(op["from"]), P(op["path"]))
        return p.apply(d)

    return "builder", b


def whole_copy(ops):
    """Everything in the result was made by a copy to the root of the document (or by a value in the patch)."""
    at = [i for i, op in enumerate(ops) if op["op"] == "copy" and op["path"] == ""]
    return bool(at) and all(op["op"] in ("add", "replace", "remove", "test") for op in ops[at[-1] + 1 :])


def judge(mon, rng, doc, ops):
    texts = "".join(op["path"] + op.get("from", "") for op in ops)
    esc = False if "\\" in texts else rng.random() < 0.5
    if any(ptr.beyond_limit(t) for op in ops for k in ("path", "from") if k in op for t in ptr.untext(op[k])):
        return  # see limit_names
    how, run = build(rng, mon, docs.clone(ops), esc)
    js = docs.to_json(doc)
    given = docs.clone(doc)
    as_text = isinstance(doc, str) or rng.random() < 0.15
    try:
        want = ptr.apply(ops, docs.clone(doc))
        fail = None
    except ptr.PatchFail as e:
        want, fail = None, e
    mon.case(json.dumps(ops) + "\0" + js, bool(ops))
    mon.see("entry", how)
    for op in ops:
        mon.count("op:" + op["op"])
    if fail is None:
        mon.count("ops_applied", len(ops))
    out = mon.call(run, js if as_text else given)
    info = dict(patch=json.dumps(ops), document=js, entry=how, got=repr(out))
    if fail is None:
        mon.count("applied")
        if not out.ok:
            mon.violation(f"refused:{out.kind}", "a patch RFC 6902 can apply was refused", expected=docs.to_json(want), **info)
        if not docs.jeq(out.value, want):
            mon.violation("wrong-result", "the patched document is not the one RFC 6902 defines", expected=docs.to_json(want), **info)
        if not ptr.only_json(out.value):
            mon.violation("not-json", "the patched document contains something that is not JSON", **info)
        sh = ptr.aliases(out.value)
        if sh:
            mon.violation("shared", "two places of the patched document share one object: a copy is not independent of its source", where=repr(sh[:3]), **info)
        if whole_copy(ops) and not as_text:
            mon.count("root_copies")
            mine = {id(v) for v, _ in docs.walk(given) if isinstance(v, (dict, list))}
            for v, loc in docs.walk(out.value):
                if id(v) in mine and isinstance(v, (dict, list)):
                    mon.violation("root-copy-shared", "a document copied from a part of the given one shares objects with it: the copy is not independent of its source", where=repr(loc), **info)
        return
    mon.count("refused")
    mon.see("refusal", fail.why + ":" + ops[fail.i]["op"])
    if out.ok:
        mon.violation("accepted", f"a patch RFC 6902 refuses ({fail}) was applied", **info)
    if not isinstance(out.exc, PE):
        mon.violation(f"wrong-error:{out.kind}", f"a patch RFC 6902 refuses ({fail}) failed with something other than a patch error", **info)
    if fail.test:
        mon.count("test_failures")
        if not isinstance(out.exc, TF):
            mon.violation("test-kind", "a failed test was not reported as JSONPatchTestFailure", **info)
    elif isinstance(out.exc, TF) and ops[fail.i]["op"] != "test":
        mon.violation("not-a-test", f"a failure of another operation ({fail}) was reported as JSONPatchTestFailure", **info)


def names_for(rng):
    r = rng.random()
    if r < 0.4:
        ns = ["a", "b", "c", "0", "1"]
    elif r < 0.7:
        ns = ["0", "1", "2", "-1", "-", "00", "01", "a", "10"]
    else:
        ns = rng.sample(docs.HOSTILE, 6) + ["a"]
    return [n for n in ns if not ptr.beyond_limit(n)]


VALUES = [*genq.CONFUSABLE, {"x": [1, {"y": 2}]}, [[1], [2]], {"0": {"1": [True]}}, [{"a": 0}], {"a": {"a": {"a": 1}}}]


def sequences(rng, mon):
    """Random operation lists over random documents, against the machine in lock step."""
    names = names_for(rng)
    g = docs.DocGen(rng, names=names, unique=rng.random() < 0.5, depth=rng.randint(1, 4), leaves=None if rng.random() < 0.5 else genq.SCALARS)
    doc = g.document()
    pg = ptr.PatchGen(rng, doc, names=names, values=VALUES, invalid=rng.choice([0, 0.05, 0.3]))
    ops = pg.patch(rng.choice([1, 1, 2, 3, 4, 6, 9]))
    judge(mon, rng, doc, ops)
    if mon.want_sample() and len(ops) > 2:
        mon.sample({"document": docs.to_json(doc)[:150], "patch": json.dumps(ops)[:300]})


TOKS = sorted(set(ptr.TRICKY_INDEX + docs.HOSTILE + ["0", "1", "2", "3", "4", "-1", "-2", "10"]) - {t for t in docs.HOSTILE if ptr.beyond_limit(t)})


def grid(rng, mon):
    """Every single operation on every (container, token) pair."""
    t = TOKS[mon.current[1] % len(TOKS)]
    e = ptr.enc(t)
    for c in ([], ["x"], ["x", ["y"]], [1, 2, 3], {}, {t: 1}, {t: {t: 1}}, {"0": "zero", "1": [1], "-": 5, "-1": 3}, "abc", "0", 0, True, None, {"a": 1, t: [t]}):
        doc = {"k": c, "src": {"v": [True, {"w": 1}]}, "arr": [0, [1], {"z": 2}]}
        p = "/k/" + e
        for op in (
            {"op": "add", "path": p, "value": [1]},
            {"op": "remove", "path": p},
            {"op": "replace", "path": p, "value": {"n": 1}},
            {"op": "move", "from": "/src", "path": p},
            {"op": "move", "from": p, "path": "/new"},
            {"op": "move", "from": p, "path": p},
            {"op": "move", "from": p, "path": "/arr/-"},
            {"op": "move", "from": "/arr/0", "path": p},
            {"op": "copy", "from": "/src/v", "path": p},
            {"op": "copy", "from": p, "path": "/new"},
            {"op": "copy", "from": p, "path": p},
            {"op": "copy", "from": p, "path": "/arr/3"},
            {"op": "test", "path": p, "value": 1},
        ):
            judge(mon, rng, doc, [op])
        judge(mon, rng, doc, [{"op": "add", "path": p + "/x", "value": 1}])
        judge(mon, rng, doc, [{"op": "copy", "from": "/src", "path": p}, {"op": "add", "path": p + "/v/0", "value": "new"}])


def equality(rng, mon):
    """`test` equality is deep and never identifies a boolean with a number."""
    a = docs.clone(rng.choice(VALUES))
    for _ in range(rng.randint(0, 2)):
        a = rng.choice([[a], {"a": a}, [0, a], {"b": 1, "a": a}, {"a": a, "b": [True]}])
    b = ptr.confuse(rng, a) if rng.random() < 0.6 else docs.clone(rng.choice(VALUES)) if rng.random() < 0.4 else docs.clone(a)
    if isinstance(b, dict) and rng.random() < 0.5:
        b = dict(reversed(list(b.items())))
    where = rng.choice(["", "/a", "/0", "/a/0"])
    doc = a
    for t in reversed(ptr.untext(where)):
        doc = {t: doc} if t != "0" else [doc]
    judge(mon, rng, doc, [{"op": "test", "path": where, "value": b}])


def arrays(rng, mon):
    """Inserting at every index, at the length and at '-', by add, move and copy."""
    n = rng.randint(0, 5)
    src = rng.choice([["p", ["q"]], {"p": {"q": 1}}, 5])
    doc = {"l": [i * 10 for i in range(n)], "s": [docs.clone(src)]}
    ops = []
    for _ in range(rng.randint(1, 4)):
        i = rng.choice([str(rng.randint(0, n + 2)), "-", str(n)])
        k = rng.choice(["add", "move", "copy"])
        if k == "add":
            ops.append({"op": "add", "path": f"/l/{i}", "value": docs.clone(src)})
        else:
            f = rng.choice([f"/l/{rng.randint(0, n)}", f"/l/{max(n - 1, 0)}", "/s/0", "/l/0"])
            ops.append({"op": k, "from": f, "path": f"/l/{i}"})
        if k == "add" and rng.random() < 0.5:
            n += 1
    judge(mon, rng, doc, ops)


def roots(rng, mon):
    """Replacing and producing the root; operations on scalar roots."""
    doc = docs.clone(rng.choice([*VALUES, "abc", "", "1", "[1]", '{"a":1}', "null", {"a": {"b": [1]}}, [[1], {"a": 2}]]))
    ops = []
    state = docs.clone(doc)
    for _ in range(rng.randint(1, 4)):
        locs = [ptr.text(ptr.tokens_of(l)) for _, l in docs.walk(state)]
        p = rng.choice(locs)
        v = docs.clone(rng.choice([*VALUES, "[1]", "1", '"a"', "{", "[", "not json"]))
        op = rng.choice(
            [
                {"op": "add", "path": "", "value": v},
                {"op": "replace", "path": "", "value": v},
                {"op": "copy", "from": p, "path": ""},
                {"op": "copy", "from": p, "path": ""},
                {"op": "move", "from": p, "path": ""},
                {"op": "copy", "from": "", "path": rng.choice(["", "/a", "/0", "/-", "/a/b"])},
                {"op": "move", "from": "", "path": rng.choice(["", "/a", "/0", "/-"])},
                {"op": "test", "path": "", "value": docs.clone(state) if rng.random() < 0.7 else v},
                {"op": "test", "path": p, "value": docs.clone(ptr.resolve(state, ptr.untext(p)))},
                {"op": "add", "path": rng.choice(["/a", "/0", "/-", "/", "/1"]), "value": v},
            ]
        )
        ops.append(op)
        try:
            state = ptr.apply([op], state)
        except ptr.PatchFail:
            break
    judge(mon, rng, doc, ops)


def large(rng, mon):
    """Long patches, wide containers, deep paths, long names."""
    r = rng.random()
    if r < 0.35:
        names = names_for(rng)
        g = docs.DocGen(rng, names=names, unique=True, depth=rng.randint(1, 3))
        doc = g.value(container=True)
        pg = ptr.PatchGen(rng, doc, names=names, values=VALUES, invalid=rng.choice([0, 0, 0.01]))
        n = big.size(rng, 130, 9)
        mon.see("patch_length", n // 10 * 10)
        judge(mon, rng, doc, pg.patch(n))
        return
    m = big.Maker(rng)
    doc, kind = m.document(depth=70) if r < 0.9 else (m.chain(big.size(rng, 150)), "long chain")
    mon.see("large", kind)
    long = [m.rng.choice("ab") * 100, big.long_name(rng), "k1", "k10", "a"]
    pg = ptr.PatchGen(rng, doc, names=[n for n in long if not ptr.beyond_limit(n)] + ["x"], values=[*VALUES, m.chain(40), m.array(70, 0)], invalid=rng.choice([0, 0.2]))
    judge(mon, rng, doc, pg.patch(rng.choice([1, 1, 2, 4])))


def wide_arrays(rng, mon):
    """Every operation at every kind of index of an array of up to a few hundred items."""
    n = big.size(rng, 257)
    mon.see("array", n // 16 * 16)
    doc = {"l": [[i] for i in range(n)], "s": [0, {"x": 1}]}
    ops = []
    for _ in range(rng.choice([1, 2, 3, 6])):
        i = rng.choice([n - 2, n - 1, n, n + 1, 0, 1, n // 2, rng.randint(0, n), rng.randint(0, n)])
        i = rng.choice([str(max(i, 0)), str(max(i, 0)), "-"])
        j = str(rng.choice([0, n - 1, n, max(n - 2, 0), rng.randint(0, n)]))
        ops.append(
            rng.choice(
                [
                    {"op": "add", "path": "/l/" + i, "value": {"v": len(ops)}},
                    {"op": "remove", "path": "/l/" + j},
                    {"op": "replace", "path": "/l/" + j, "value": len(ops)},
                    {"op": "move", "from": "/l/" + j, "path": "/l/" + i},
                    {"op": "copy", "from": "/l/" + j, "path": "/l/" + i},
                    {"op": "move", "from": "/s", "path": "/l/" + i},
                    {"op": "test", "path": "/l/" + j, "value": [int(j)]},
                ]
            )
        )
    judge(mon, rng, doc, ops)


def containers(rng, mon):
    """Documents of other mutable mappings and sequences than dict and list."""
    names = names_for(rng)
    g = docs.DocGen(rng, names=names, depth=rng.randint(1, 4), leaves=None if rng.random() < 0.5 else genq.SCALARS)
    plain = g.value(container=True)
    pg = ptr.PatchGen(rng, plain, names=names, values=VALUES, invalid=rng.choice([0, 0.1]))
    ops = pg.patch(rng.choice([1, 1, 2, 3, 5]))
    texts = "".join(op["path"] + op.get("from", "") for op in ops)
    if any(ptr.beyond_limit(t) for op in ops for k in ("path", "from") if k in op for t in ptr.untext(op[k])):
        return
    doc = foreign.wrap(rng, plain, rng.choice([0.3, 1]), mutable=True)
    js = docs.to_json(plain)
    mon.case(json.dumps(ops) + "\0wrapped" + js, bool(ops))
    mon.count("foreign_containers")
    try:
        want, fail = ptr.apply(ops, docs.clone(plain)), None
    except ptr.PatchFail as e:
        want, fail = None, e
    out = mon.call(lambda: jsonpath.JSONPatch(docs.clone(ops), unicode_escape="\\" not in texts).apply(doc))
    info = dict(patch=json.dumps(ops), document=js, got=repr(out))
    if fail is None:
        if not (out.ok and docs.jeq(foreign.unwrap(out.value), want)):
            mon.violation("containers", "a patch was not applied as RFC 6902 says to a document of mutable mappings and sequences other than dict and list", expected=docs.to_json(want), **info)
    elif out.ok or not isinstance(out.exc, PE):
        mon.violation("containers-refusal", f"a patch RFC 6902 refuses ({fail}) was not refused with a patch error on a document of mutable mappings and sequences other than dict and list", **info)


def alike(rng, mon):
    """JSON text documents and patches, one after the other, that differ in one place only."""
    ds, loc = docs.alike(rng)
    at = ptr.text(ptr.tokens_of(loc))
    value, _ = docs.alike(rng)
    for i, d in enumerate(ds):
        mon.count("alike")
        v = value[i % len(value)]
        ops = rng.choice([
            [{"op": "test", "path": at, "value": docs.resolve(ds[0], loc)}],
            [{"op": "copy", "from": at, "path": rng.choice(["", at])}],
            [{"op": "replace", "path": at, "value": v}, {"op": "test", "path": at, "value": v}],
            [{"op": "test", "path": "", "value": d}, {"op": "remove", "path": at}],
        ])
        text, js = json.dumps(ops), docs.to_json(d)
        mon.case("alike" + text + "\0" + js, True)
        try:
            want = ptr.apply(ops, docs.clone(d))
        except ptr.PatchFail:
            want = PE
        for form in (text, io.StringIO(text), ops):
            o = mon.call(jsonpath.patch.apply, form, rng.choice([js, io.StringIO(js)]))
            if want is PE:
                if o.ok or not isinstance(o.exc, PE):
                    mon.violation("alike-accepted", "a patch RFC 6902 refuses did not fail with a patch error", patch=text[:3000], document=js[:3000], got=repr(o)[:500])
            elif not (o.ok and docs.jeq(o.value, want)):
                mon.violation("alike", "the patched document is not the one RFC 6902 defines", patch=text[:3000], document=js[:3000], got=repr(o)[:3000])


def limit_names(rng, mon):
    """Names that are integers beyond the index limit (the known finding)."""
    n = str(rng.choice([2**53, 9007199254740993, 10**20]))
    doc = {n: 1, "a": {n: [1]}}
    op = rng.choice([{"op": "add", "path": "/" + n, "value": 1}, {"op": "remove", "path": "/a/" + n}, {"op": "copy", "from": "/" + n, "path": "/b"}])
    want = ptr.apply([op], docs.clone(doc))
    mon.case(json.dumps(op), True)
    out = mon.call(lambda: jsonpath.JSONPatch([op]).apply(docs.clone(doc)))
    if not out.ok:
        mon.violation("index-limit-name", "a patch on a member whose name is an integer beyond the index limit is refused", patch=json.dumps([op]), document=docs.to_json(doc), got=repr(out))
    if not docs.jeq(out.value, want):
        mon.violation("index-limit-name-value", "a patch on a member with a big integer name gave the wrong document", patch=json.dumps([op]), got=repr(out))


WORKLOADS = {
    "alike": (alike, 800, 15000),
    "sequences": (sequences, 60000, 900000),
    "grid": (grid, len(TOKS) * 2, len(TOKS) * 20),
    "equality": (equality, 25000, 300000),
    "arrays": (arrays, 25000, 250000),
    "roots": (roots, 25000, 250000),
    "large": (large, 2500, 40000),
    "wide_arrays": (wide_arrays, 5000, 80000),
    "containers": (containers, 5000, 80000),
    "limit_names": (limit_names, 20, 100),
}
