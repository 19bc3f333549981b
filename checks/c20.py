"""C20: match -> pointer -> patch edits exactly the matched node."""

import json

import jsonpath
from jsonpath import JSONPatch

from vlib import big
from vlib import docs
from vlib import genq
from vlib import jp
from vlib import ptr
from vlib import render

PROPERTY = "C20"
RULE = (
    "Random $-rooted queries (no keys selector) over documents with hostile and integer-like member names; each match's pointer is used "
    "as the target of test, replace and remove patches (built with the pointer object, with its text, and as JSON documents), and the "
    "result is compared with the document edited directly at the match's location.  Non-trivial: a match below the root. Distinct by "
    "(location, document)."
)
REQUIRED = {"edits": 10000, "replace": 3000, "remove": 3000, "test": 3000}
ASSUMPTIONS = ["`remove` of the root is not judged", "pointer texts with backslashes are parsed with escape decoding off"]


def loose(v):
    """Fingerprint with exact types but without member order."""
    if isinstance(v, dict):
        return "{" + ",".join(f"{k!r}:{loose(v[k])}" for k in sorted(v, key=repr)) + "}"
    if isinstance(v, list):
        return "[" + ",".join(loose(x) for x in v) + "]"
    return f"{type(v).__name__}{v!r}"


def patch_for(rng, mon, op, pointer, value=None):
    """A patch with one operation aimed at the pointer; (how, patch)."""
    text = str(pointer)
    esc = "\\" not in text and rng.random() < 0.5
    can_text = not any(ptr.beyond_limit(t) for t in ptr.untext(text))
    r = rng.random() if can_text else 0.0
    args = () if op == "remove" else (value,)
    if r < 0.4:
        return "pointer object", lambda: getattr(JSONPatch(unicode_escape=esc), op)(pointer, *args)
    if r < 0.6:
        return "pointer text", lambda: getattr(JSONPatch(unicode_escape=esc), op)(text, *args)
    d = [{"op": op, "path": text, **({} if op == "remove" else {"value": value})}]
    if r < 0.8:
        return "document", lambda: JSONPatch(d, unicode_escape=esc)
    return "JSON text", lambda: JSONPatch(json.dumps(d), unicode_escape=esc)


def edit(rng, mon, m, doc, info):
    loc = tuple(m.parts)
    pointer = m.pointer()
    op = rng.choice(["test", "replace", "remove"])
    if op == "remove" and not loc:
        op = "replace"
    old = docs.resolve(doc, loc)
    value = None
    if op == "test":
        value = docs.clone(m.obj)
    elif op == "replace":
        value = docs.clone(rng.choice(genq.CONFUSABLE + [{"new": [1, {"deep": None}]}, ptr.confuse(rng, old)]))
    want = docs.clone(doc)
    if op == "replace":
        if loc:
            docs.resolve(want, loc[:-1])[loc[-1]] = docs.clone(value)
        else:
            want = docs.clone(value)
    elif op == "remove":
        del docs.resolve(want, loc[:-1])[loc[-1]]
    how, mk = patch_for(rng, mon, op, pointer, value)
    mon.count("edits")
    mon.count(op)
    mon.see("how", op + " by " + how)
    info = dict(info, path=m.path, operation=op, value=repr(value), target=how, pointer=str(pointer))
    target = docs.clone(doc)
    out = mon.call(lambda: mk().apply(target))
    if not out.ok:
        mon.violation(f"{op}:{out.kind}", f"{op} at a match's pointer failed", got=repr(out), **info)
    if loose(out.value) != loose(want):
        mon.violation(f"{op}:document", f"{op} at a match's pointer did not edit exactly the matched node", expected=docs.to_json(want), got=repr(out), **info)
    # siblings keep their order
    if op != "replace" or not loc:
        return
    a, b = docs.resolve(out.value, loc[:-1]), docs.resolve(doc, loc[:-1])
    if isinstance(b, dict) and set(a) != set(b):
        mon.violation("replace:names", "replace changed the member names of the parent", got=repr(list(a)), **info)


def judge(mon, rng, q, text, doc):
    info = dict(query=text, document=docs.to_json(doc))
    keep = docs.fingerprint(doc)
    out = mon.call(lambda: list(jsonpath.finditer(text, doc)))
    if not out.ok:
        mon.violation(f"raised:{out.kind}", "a valid query raised", got=repr(out), **info)
    want = {l for _, l in jp.evaluate(q, doc)}
    got = out.value
    if {tuple(m.parts) for m in got} != want:
        mon.violation("locations", "the matches are not at the locations the query selects", got=repr([m.parts for m in got][:10]), expected=repr(list(want)[:10]), **info)
    for m in rng.sample(got, min(8, len(got))):
        mon.case(m.path + "\0" + keep, bool(m.parts))
        edit(rng, mon, m, doc, info)
    if docs.fingerprint(doc) != keep:
        mon.violation("document-changed", "editing a copy changed the queried document", **info)
    if mon.want_sample() and len(got) > 1:
        mon.sample({"query": ascii(text), "document": docs.to_json(doc)[:150], "matches": len(got)})


def make(rng, ints=False):
    if ints or rng.random() < 0.4:
        names = ["0", "1", "2", "-1", "-", "00", "01", "10", "a", "+1", "1e0", "9007199254740993"]
    else:
        names = rng.sample(docs.HOSTILE, rng.randint(3, 7)) + ["a"]
        if rng.random() < 0.5:
            names += ["".join(rng.choice("~/01\\#'\" é😀%") for _ in range(rng.randint(1, 5))) for _ in range(3)]
    g = docs.DocGen(rng, names=names, unique=rng.random() < 0.6, depth=rng.randint(1, 4), leaves=None)
    return g.value(container=True)


def general(rng, mon):
    """Random queries; a patch built from a match's pointer."""
    doc = make(rng)
    qg = genq.QueryGen(rng, doc, filters=0.1, max_segments=4, desc=0.25)
    r = render.Renderer(rng, brackets=rng.random())
    for _ in range(2):
        q = qg.query("$")
        judge(mon, rng, q, r.query(q), doc)


def everything(rng, mon):
    """Every node of one document edited in turn."""
    doc = make(rng)
    q = rng.choice([("q", "$", (("desc", (("wild",),)),)), ("q", "$", (("child", (("wild",),)),)), ("q", "$", ()), ("q", "$", (("desc", (("index", -1), ("slice", None, None, 2), ("index", 1))),))])
    judge(mon, rng, q, render.Renderer(rng).query(q), doc)


def mixed(rng, mon):
    """Arrays beside objects whose members look like indices, same path shapes."""
    leaf = lambda: rng.choice([1, True, "x", None, [1], {"0": 1}, [[0]], {"1": [0, 1]}])  # noqa: E731
    arr = [leaf() for _ in range(rng.randint(1, 12))]
    obj = {str(i): leaf() for i in rng.sample(range(-2, 12), rng.randint(1, 6))}
    doc = {"x": arr, "y": obj, "0": {"0": arr, "1": [docs.clone(obj), docs.clone(arr)]}, "-": [docs.clone(obj)], "1": [[[1, 2], 3], {"0": {"-1": 4}}]}
    doc = docs.clone(doc)
    q = ("q", "$", (("desc", (rng.choice([("wild",), ("index", rng.choice([0, 1, -1, 2, 10, 11])), ("slice", None, None, -1)]),)),))
    judge(mon, rng, q, render.Renderer(rng).query(q), doc)


def sequence(rng, mon):
    """Several matches edited one after the other, from the last to the first."""
    doc = make(rng)
    ms = list(jsonpath.finditer("$..*", doc))
    if not ms:
        return
    pick = sorted(rng.sample(range(len(ms)), min(len(ms), rng.randint(2, 5))), reverse=True)
    chosen = []
    for i in pick:  # pre-order reversed: editing a later node never moves an earlier one
        chosen.append(ms[i])
    p = JSONPatch()
    want = docs.clone(doc)
    for m in chosen:
        loc = tuple(m.parts)
        # a replaced or removed descendant does not affect its ancestors' locations
        if rng.random() < 0.5:
            p.replace(m.pointer(), ["r", len(loc)])
            docs.resolve(want, loc[:-1])[loc[-1]] = ["r", len(loc)]
        else:
            p.remove(m.pointer())
            del docs.resolve(want, loc[:-1])[loc[-1]]
    mon.case("seq" + docs.fingerprint(doc) + repr([m.path for m in chosen]), True)
    out = mon.call(p.apply, docs.clone(doc))
    mon.count("edits", len(chosen))
    if not (out.ok and loose(out.value) == loose(want)):
        mon.violation("sequence", "editing several matches did not edit exactly the matched nodes", document=docs.to_json(doc), paths=repr([m.path for m in chosen]), patch=repr(p.asdicts()), expected=docs.to_json(want), got=repr(out))


def large(rng, mon):
    """Deep and wide documents, long names and long queries."""
    doc, kind = big.Maker(rng).document(most=130)
    mon.see("large", kind)
    q = big.query(rng, doc, most_nodes=150)
    judge(mon, rng, q, render.Renderer(rng, brackets=rng.choice([0, 1])).query(q), doc)


WORKLOADS = {
    "general": (general, 20000, 250000),
    "everything": (everything, 10000, 120000),
    "large": (large, 800, 12000),
    "mixed": (mixed, 6000, 60000),
    "sequence": (sequence, 10000, 120000),
}
