"""C03: every match location identifies exactly that node."""

import re

import jsonpath
from jsonpath import JSONPointer

from vlib import big
from vlib import docs
from vlib import foreign
from vlib import genq
from vlib import jp
from vlib import ptr
from vlib import render

PROPERTY = "C03"
RULE = (
    "Random $-rooted queries (names, indices from both ends, slices, wildcards, filters, descendants; no keys selector) over documents with "
    "hostile member names; for every match the monitor checks the path (grammar of RFC 9535 section 2.7, equality with the normalized "
    "path of the location the reference evaluator computed, evaluation back to the very same object), the parts, the pointer and its "
    "re-parsed text, the parent chain up to the root, and that equal paths are equal locations. Non-trivial: at least one match below "
    "the root. Distinct by (query, document)."
)
REQUIRED = {"matches": 20000, "requeried": 10000, "parents": 10000, "pairs": 10000, "foreign_matches": 2000}
ASSUMPTIONS = ["pointer texts with backslashes are parsed with escape decoding off"]

NORMAL = re.compile(
    r"\$(?:\[(?:0|[1-9][0-9]*)\]|\['(?:[\x20-\x26\x28-\x5b\x5d-\ud7ff\ue000-\U0010ffff]|\\[btnfr'\\]|\\u(?:00(?:0[0-7bef]|1[0-9a-f])))*'\])*"
)

ENV = jsonpath.JSONPathEnvironment()


def check_match(mon, rng, m, want, loc, doc, info):
    mon.count("matches")
    if m.obj is not want and not (isinstance(want, (str, int, float)) and docs.same(m.obj, want)):
        mon.violation("value", "the match's value is not the node's value", location=repr(loc), got=m.obj, **info)
    if m.value is not m.obj:
        mon.violation("value-property", "value and obj of a match differ", location=repr(loc), **info)
    path = m.path
    if not (isinstance(path, str) and NORMAL.fullmatch(path)):
        mon.violation("not-normalized", "the path is not an RFC 9535 normalized path", location=repr(loc), path=ascii(path), **info)
    if path != jp.normalized_path(loc):
        mon.violation("path", "the path is not the normalized path of the matched node", expected=jp.normalized_path(loc), path=path, **info)
    if len(m.parts) != len(loc) or any(type(a) is not type(b) or a != b for a, b in zip(m.parts, loc)):
        mon.violation("parts", "the parts are not the member names and indices of the node", location=repr(loc), got=repr(m.parts), **info)
    v = doc
    for p in m.parts:
        v = v[p]
    if v is not m.obj:
        mon.violation("parts-resolve", "following the parts does not lead to the matched object", location=repr(loc), got=repr(m.parts), **info)
    o = mon.call(m.pointer)
    if not o.ok:
        mon.violation(f"pointer:{o.kind}", "pointer() raised", location=repr(loc), got=repr(o), **info)
    p = o.value
    text = str(p)
    if text != jp.pointer_text(loc):
        mon.violation("pointer-text", "the pointer is not the RFC 6901 pointer of the node", expected=jp.pointer_text(loc), got=text, **info)
    o = mon.call(p.resolve, doc)
    if not (o.ok and o.value is m.obj):
        mon.violation("pointer-resolve", "the match's pointer does not resolve to the matched object", pointer=text, got=repr(o), **info)
    if not any(ptr.beyond_limit(str(x)) for x in loc):
        for esc in (False,) if "\\" in text else (False, True):
            o = mon.call(lambda: JSONPointer(text, unicode_escape=esc).resolve(doc))
            if not (o.ok and o.value is m.obj):
                mon.violation("pointer-reparse", "the pointer's text, parsed again, does not resolve to the matched object", pointer=text, unicode_escape=esc, got=repr(o), **info)
    return path


def judge(mon, rng, q, text, doc, env=jsonpath):
    want = jp.evaluate(q, doc)
    info = dict(query=text, document=docs.to_json(doc))
    out = mon.call(lambda: list(env.finditer(text, doc)))
    mon.case(text + "\0" + docs.fingerprint(doc), any(l for _, l in want))
    if not out.ok:
        mon.violation(f"raised:{out.kind}", "a valid query raised", got=repr(out), **info)
    got = out.value
    if [tuple(map(str, m.parts)) for m in got] != [tuple(map(str, l)) for _, l in want] and sorted(map(str, (l for _, l in want))) != sorted(str(m.parts) for m in got):
        mon.violation("nodes", "the matches are not at the locations of the nodes the query selects", expected=repr([l for _, l in want][:20]), got=repr([m.parts for m in got][:20]), **info)
    paths = {}
    byloc = {}
    for v, l in want:
        byloc[l] = v
    pick = set(range(len(got))) if len(got) <= 25 else set(rng.sample(range(len(got)), 25))
    for i, m in enumerate(got):
        if i not in pick:
            continue
        loc = tuple(m.parts)
        if loc not in byloc:
            mon.violation("location", "a match is at a location the query does not select", location=repr(loc), **info)
        path = check_match(mon, rng, m, byloc[loc], loc, doc, info)
        # equal paths if and only if the same node
        if paths.setdefault(path, loc) != loc:
            mon.violation("same-path", "two different nodes have the same path", path=path, **info)
        mon.count("pairs", i)
        if rng.random() < 0.4:
            o = mon.call(ENV.findall if rng.random() < 0.5 else jsonpath.findall, path, doc)
            mon.count("requeried")
            if not (o.ok and len(o.value) == 1 and o.value[0] is m.obj):
                mon.violation("requery", "the path, evaluated as a query, does not return exactly the matched object", path=path, got=repr(o), **info)
        # parents
        x, n = m, len(loc)
        while n:
            par = x.parent
            n -= 1
            mon.count("parents")
            if par is None:
                mon.violation("no-parent", "a match below the root has no parent", location=repr(loc), **info)
            if par.path != jp.normalized_path(loc[:n]) or tuple(par.parts) != loc[:n] or par.obj is not docs.resolve(doc, loc[:n]):
                mon.violation("parent", "the parent is not the match whose location is one step shorter", location=repr(loc), parent_path=par.path, expected=jp.normalized_path(loc[:n]), **info)
            x = par
        if x.parent is not None:
            mon.violation("root-parent", "the root match has a parent", **info)
        if x.obj is not doc or m.root is not doc:
            mon.violation("root", "the root of a match is not the document", **info)
    mon.see("depth", max((len(l) for _, l in want), default=0))
    if mon.want_sample() and len(want) > 1:
        mon.sample({"query": text, "document": docs.to_json(doc)[:150], "paths": [ascii(p) for p in list(paths)[:4]]})


def hostile_names(rng):
    ns = [n for n in rng.sample(docs.HOSTILE, rng.randint(3, 8)) if not ptr.beyond_limit(n)]
    if rng.random() < 0.5:
        ns += ["".join(rng.choice("'\"\\/~ab\n\t\x01\x1f\x7f[]$.é😀 0u") for _ in range(rng.randint(1, 6))) for _ in range(3)]
    return [n for n in ns if not ptr.beyond_limit(n)] or ["a"]


def general(rng, mon):
    """Random queries over documents of hostile names; every match's location is judged."""
    names = hostile_names(rng) if rng.random() < 0.6 else rng.sample(docs.PLAIN, 4) + ["0", "1", "-1"]
    g = docs.DocGen(rng, names=names, unique=rng.random() < 0.7, depth=rng.randint(1, 5))
    doc = g.value(container=True)
    if rng.random() < 0.12:
        docs.alias(rng, doc)
    qg = genq.QueryGen(rng, doc, filters=0.15, max_segments=4, desc=0.25)
    r = render.Renderer(rng, brackets=rng.random())
    for _ in range(3):
        q = qg.query("$")
        judge(mon, rng, q, r.query(q), doc)


def everything(rng, mon):
    """All nodes of one document, through several spellings of 'everything'."""
    g = docs.DocGen(rng, names=hostile_names(rng), depth=rng.randint(1, 4))
    doc = g.value(container=True)
    nm = rng.choice(hostile_names(rng))
    q = rng.choice(
        [
            ("q", "$", (("desc", (("wild",),)),)),
            ("q", "$", (("desc", (("slice", None, None, -1), ("name", nm))),)),
            ("q", "$", (("desc", (("slice", -3, None, None), ("index", -1), ("index", 0))),)),
            ("q", "$", (("child", (("wild",), ("wild",))), ("child", (("wild",),)))),
            ("q", "$", (("desc", (("filter", ("test", ("q", "@", ()))),)),)),
            ("q", "$", (("child", (("filter", ("not", ("test", ("q", "@", (("child", (("name", nm),)),))))),)), ("desc", (("wild",),)))),
            ("q", "$", (("desc", (("wild",),)), ("desc", (("wild",),)))),
            ("q", "$", ()),
        ]
    )
    judge(mon, rng, q, render.Renderer(rng).query(q), doc)


def single_names(rng, mon):
    """Each code point as (part of) a member name: canonical escapes."""
    i = mon.current[1]
    if i < 0x180:
        ch = chr(i)
    else:
        ch = chr(rng.choice([rng.randint(0x180, 0xD7FF), rng.randint(0xE000, 0xFFFF), rng.randint(0x10000, 0x10FFFF)]))
    for name in (ch, ch + ch, "a" + ch, ch + "a", "\\" + ch, ch + "\\", "'" + ch, ch + "'", ch + "u0041", '"' + ch):
        if ptr.beyond_limit(name):
            continue
        doc = {name: {name: [1, {name: 2}], "other": 0}, "z": 3}
        q = ("q", "$", (("desc", (("name", name),)),)) if rng.random() < 0.5 else ("q", "$", (("desc", (("wild",),)),))
        judge(mon, rng, q, render.Renderer(rng).query(q), doc)


def object_index(rng, mon):
    """An index selector applied to an object selects the member named like it."""
    names = ["0", "1", "-1", "2", "10", "-2", "00", "a"]
    g = docs.DocGen(rng, names=names, depth=rng.randint(1, 4))
    doc = g.value(container=True)
    segs = []
    for _ in range(rng.randint(1, 3)):
        segs.append((rng.choice(["child", "child", "desc"]), tuple(("index", rng.choice([0, 1, -1, 2, 10, -2])) if rng.random() < 0.8 else ("wild",) for _ in range(rng.randint(1, 2)))))
    q = ("q", "$", tuple(segs))
    judge(mon, rng, q, render.Renderer(rng).query(q), doc)


def big_arrays(rng, mon):
    """Indices of more than one digit, from both ends."""
    n = rng.randint(5, 130)
    doc = {"l": [[i] for i in range(n)], "k": [{"l": i} for i in range(rng.randint(0, 12))]}
    s = rng.choice([("index", rng.randint(-n - 2, n + 1)), ("slice", rng.choice([None, rng.randint(-n, n)]), rng.choice([None, rng.randint(-n, n)]), rng.choice([None, 1, -1, 2, -3, 7])), ("wild",)])
    q = ("q", "$", ((rng.choice(["child", "desc"]), (("name", "l"),)), ("child", (s,)), *((("child", (("index", rng.choice([0, -1])),)),) if rng.random() < 0.5 else ())))
    judge(mon, rng, q, render.Renderer(rng).query(q), doc)


def limit_names(rng, mon):
    """Names that are integers beyond the index limit (the known finding)."""
    n = rng.choice(["9007199254740993", "9007199254740992", "-9007199254740992", "100000000000000000000"])
    doc = {n: [1]}
    q = ("q", "$", (("child", (("name", n),)),))
    text = render.Renderer(rng, brackets=1).query(q)
    judge(mon, rng, q, text, doc)
    m = next(iter(jsonpath.finditer(text, doc)))
    o = mon.call(lambda: JSONPointer(str(m.pointer())).resolve(doc))
    if not o.ok:
        mon.violation("index-limit-name", "the pointer text of a match cannot be parsed again when a name is an integer beyond the index limit", document=docs.to_json(doc), pointer=str(m.pointer()), got=repr(o))
    if o.value is not m.obj:
        mon.violation("index-limit-name-value", "the re-parsed pointer of a match resolves to something else", document=docs.to_json(doc), pointer=str(m.pointer()), got=repr(o))


def large(rng, mon):
    """Deep and wide documents, long names and long queries."""
    doc, kind = big.Maker(rng).document(most=130)
    mon.see("large", kind)
    q = big.query(rng, doc, most_nodes=150)
    judge(mon, rng, q, render.Renderer(rng, brackets=rng.choice([0, 1])).query(q), doc)


def containers(rng, mon):
    """Locations in documents of other mappings and sequences than dict and list."""
    g = docs.DocGen(rng, names=hostile_names(rng) if rng.random() < 0.5 else rng.sample(docs.PLAIN, 4) + ["0", "1"], unique=True, depth=rng.randint(1, 4))
    plain = g.value(container=True)
    doc = foreign.wrap(rng, plain, rng.choice([0.3, 1]))
    qg = genq.QueryGen(rng, plain, filters=0.1, max_segments=3, desc=0.3)
    q = qg.query("$")
    text = render.Renderer(rng, brackets=rng.random()).query(q)
    want = [l for _, l in jp.evaluate(q, plain)]
    info = dict(query=text, document=docs.to_json(plain))
    mon.case(text + "\0wrapped" + docs.fingerprint(plain), any(want))
    out = mon.call(lambda: list(jsonpath.finditer(text, doc)))
    if not out.ok:
        mon.violation(f"containers-raised:{out.kind}", "a valid query raised over mappings and sequences other than dict and list", got=repr(out), **info)
    got = [tuple(m.parts) for m in out.value]
    if sorted(map(repr, got)) != sorted(map(repr, want)):
        mon.violation("containers-nodes", "the matches are not at the locations of the nodes the query selects", expected=repr(want[:20]), got=repr(got[:20]), **info)
    for m in out.value[:25]:
        mon.count("foreign_matches")
        loc = tuple(m.parts)
        here = foreign.at(doc, loc)
        if m.obj is not here or m.path != jp.normalized_path(loc):
            mon.violation("containers-match", "a match's path, parts and value do not belong together", location=repr(loc), path=m.path, got=repr(m.obj), **info)
        o = mon.call(lambda: m.pointer().resolve(doc))
        if not (o.ok and o.value is here):
            mon.violation("containers-pointer", "the match's pointer does not resolve to the matched object", location=repr(loc), got=repr(o), **info)
        o = mon.call(jsonpath.findall, m.path, doc)
        if not (o.ok and len(o.value) == 1 and o.value[0] is here):
            mon.violation("containers-requery", "the path, evaluated as a query, does not return exactly the matched object", path=m.path, got=repr(o), **info)
        x = m
        for n in range(len(loc) - 1, -1, -1):
            x = x.parent
            if x is None or tuple(x.parts) != loc[:n] or x.obj is not foreign.at(doc, loc[:n]):
                mon.violation("containers-parent", "the parent is not the match whose location is one step shorter", location=repr(loc), parent=repr(x), **info)
        if x.parent is not None or m.root is not doc:
            mon.violation("containers-root", "the chain of parents does not end at the document", location=repr(loc), **info)


WORKLOADS = {
    "general": (general, 12000, 180000),
    "everything": (everything, 6000, 80000),
    "single_names": (single_names, 0x180 + 600, 0x180 + 12000),
    "object_index": (object_index, 4000, 50000),
    "big_arrays": (big_arrays, 2000, 20000),
    "containers": (containers, 3000, 40000),
    "large": (large, 900, 12000),
    "limit_names": (limit_names, 20, 60),
}
