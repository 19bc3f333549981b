"""C01: RFC 9535 segments and selectors yield exactly the specified nodelist."""


import jsonpath

from vlib import big
from vlib import docs
from vlib import foreign
from vlib import genq
from vlib import jp
from vlib import render
from vlib import rt

PROPERTY = "C01"
RULE = (
    "Random JSON documents (numbered leaves, hostile member names, confusable shapes) and document-guided random "
    "queries of name/index/slice/wildcard selectors in child and descendant segments, each written in a random RFC 9535 "
    "spelling; the values returned by findall/finditer/compile().findall are compared, as a sequence, with an "
    "independent reference nodelist.  Non-trivial: the reference nodelist is non-empty, or the query applies a selector "
    "to a value of the wrong kind.  Distinct by (query text, document)."
)
REQUIRED = {"nonempty": 200, "wrong_kind": 50, "api_calls": 1000}
ASSUMPTIONS = ["the reference evaluator vlib/jp.py is a correct reading of RFC 9535 sections 2.3 and 2.5"]


def observe(mon, q, text, doc, label):
    expected = [v for v, _ in jp.evaluate(q, doc)]
    how = mon.current[1] % 3
    if how == 0:
        out = mon.call(jsonpath.findall, text, doc)
    elif how == 1:
        out = mon.call(lambda: [m.obj for m in jsonpath.finditer(text, doc)])
    else:
        out = mon.call(lambda: jsonpath.compile(text).findall(doc))
    mon.case(text + "\0" + docs.fingerprint(doc), bool(expected) or label == "wrong")
    if expected:
        mon.count("nonempty")
        mon.count("values_checked", len(expected))
    if label == "wrong":
        mon.count("wrong_kind")
    for f in jp.features(q):
        mon.see("construct", f)
    mon.see("query_skeletons", jp.skeleton(q))
    if not out.ok:
        mon.violation(
            "raised:" + out.kind, "a valid RFC 9535 query raised instead of returning its nodelist",
            query=text, document=docs.to_json(doc), got=repr(out), expected=expected,
        )
    if not (isinstance(out.value, list) and docs.same_list(out.value, expected)):
        mon.violation(
            "nodelist", "the nodelist differs from the one RFC 9535 defines",
            query=text, document=docs.to_json(doc), got=out.value, expected=expected,
        )
    if mon.want_sample() and expected and len(text) > 12:
        mon.sample({"query": text, "document": docs.to_json(doc)[:300], "values": len(expected)})


def general(rng, mon):
    """Random queries of every selector over random documents, in random spellings."""
    g = docs.DocGen(rng, depth=rng.randint(1, 5), hostile=0.4)
    doc = g.document()
    if isinstance(doc, str):
        doc = [doc]
    if isinstance(doc, (list, dict)) and rng.random() < 0.1:
        docs.alias(rng, doc)
        mon.count("shared_containers")
    qg = genq.QueryGen(rng, doc, max_segments=rng.choice([1, 2, 3, 4, 5]), desc=rng.choice([0.0, 0.15, 0.4]))
    for _ in range(4):
        q = qg.query(min_segments=0)
        r = render.Renderer(rng, blanks=rng.choice([0, 0.1, 0.5]), escapes=rng.choice([0, 0.1, 0.6]), brackets=rng.random())
        text = r.query(q)
        for u in r.used:
            mon.see("spelling", u)
        observe(mon, q, text, doc, "")


def slices(rng, mon):
    """Dense boundary coverage of index and slice arithmetic."""
    n = rng.randint(0, 6)
    doc = [100 + i for i in range(n)]
    qg = genq.QueryGen(rng, doc)
    for _ in range(6):
        sels = tuple(qg.slice(n) if rng.random() < 0.75 else ("index", qg.index(n)) for _ in range(rng.randint(1, 3)))
        q = ("q", "$", (("child", sels),))
        text = render.Renderer(rng, blanks=rng.choice([0, 0.4]), brackets=1).query(q)
        observe(mon, q, text, doc, "")


LEAVES = ["", "a", "abc", "0", "[1]", "é😀", 0, 1, -1, 1.5, True, False, None, 12345]


def wrong_kind(rng, mon):
    """Selectors over values of every kind, at the root and one level down."""
    leaf = rng.choice(LEAVES)
    wrapped = rng.choice(["obj", "arr", "mix"])
    key = rng.choice(["a", "0", "1", ""])
    doc = {"obj": {key: leaf}, "arr": [leaf], "mix": {key: [leaf, {"0": leaf, "a": [leaf]}], "b": leaf}}[wrapped]
    qg = genq.QueryGen(rng, doc)
    for _ in range(4):
        sel = rng.choice([
            ("name", key), ("name", "a"), ("index", rng.randint(-2, 2)), qg.slice(rng.randint(0, 3)), ("wild",), ("name", "length"),
        ])
        kind = rng.choice(["child", "child", "desc"])
        segs = [("child", (("wild",),))] if rng.random() < 0.7 else [("desc", (("wild",),))]
        if rng.random() < 0.2:
            segs = []
        segs.append((kind, (sel,) if rng.random() < 0.7 else (sel, ("wild",))))
        q = ("q", "$", tuple(segs))
        text = render.Renderer(rng, brackets=rng.random()).query(q)
        observe(mon, q, text, doc, "wrong")


def scalar_root(rng, mon):
    """The query argument itself is a scalar (strings are passed as JSON text)."""
    doc = rng.choice([0, 1, 1.5, True, False, None])
    qg = genq.QueryGen(rng, doc)
    q = qg.query(max_segments=2)
    observe(mon, q, render.Renderer(rng).query(q), doc, "wrong")


def names(rng, mon):
    """Every member name, in every spelling, in documents with near-miss names."""
    name = rng.choice(docs.HOSTILE + docs.PLAIN)
    r = rng.random()
    if r < 0.3:
        name = "".join(rng.choice(docs.HOSTILE) for _ in range(rng.randint(1, 3)))
    elif r < 0.5:
        name = "".join(chr(rng.choice([rng.randint(0, 0x7F), rng.randint(0x80, 0x7FF), rng.randint(0x800, 0xD7FF), rng.randint(0xE000, 0xFFFF), rng.randint(0x10000, 0x10FFFF)])) for _ in range(rng.randint(1, 4)))
    elif r < 0.62:
        name = rng.choice(docs.RESERVED) + rng.choice(["", "_", "x", "☺", "é", "0", "😀"])
    if rng.random() < 0.1:
        name = rng.choice(rng.choice(docs.ALIKE))
    alike = {docs.near_string(rng, name): 20 + i for i in range(4)}
    near = {**alike, name: 1, name + " ": 2, name + "\\": 3, "\\" + name: 4, name.upper(): 5, name.strip(): 6, name.replace("\\", "\\\\"): 7, name[:-1]: 8, name + "'": 9, name + '"': 10, "x": {name: 11}}
    near[name] = 12
    items = list(near.items())
    rng.shuffle(items)
    doc = dict(items)
    for _ in range(3):
        kind = rng.choice(["child", "child", "desc"])
        sels = (("name", name),) if rng.random() < 0.7 else (("name", name), ("name", rng.choice(list(doc))))
        q = ("q", "$", ((kind, sels),))
        rr = render.Renderer(rng, blanks=rng.choice([0, 0.3]), escapes=rng.choice([0, 0.2, 1.0]), brackets=rng.choice([0, 0.5, 1]))
        text = rr.query(q)
        for u in rr.used:
            mon.see("spelling", u)
        observe(mon, q, text, doc, "")


def large(rng, mon):
    """Wide and deep documents, long names, long queries, many selectors."""
    doc, kind = big.Maker(rng).document()
    mon.see("large", kind)
    for _ in range(2):
        q = big.query(rng, doc)
        mon.see("segments", len(q[2]) // 10 * 10)
        mon.see("selectors", max((len(s[1]) for s in q[2]), default=0) // 8 * 8)
        observe(mon, q, render.Renderer(rng, blanks=rng.choice([0, 0.2]), escapes=rng.choice([0, 0.3]), brackets=rng.choice([0, 0.5, 1])).query(q), doc, "")


def descents(rng, mon):
    """`..` over documents of every depth up to about a hundred."""
    m = big.Maker(rng)
    d = rng.choice([big.size(rng, 100), rng.randint(1, 100)])
    doc = m.chain(d, side=rng.choice([0, 0.2, 0.5]))
    mon.see("depth", d // 10 * 10)
    s = rng.choice([("wild",), ("name", rng.choice(m.names)), ("index", rng.choice([0, -1, 1])), ("slice", None, None, -1), ("slice", 0, None, None)])
    segs = [("desc", (s,) if rng.random() < 0.7 else (s, ("index", 0), ("name", rng.choice(m.names))))]
    if rng.random() < 0.3:
        segs.append(("child", (rng.choice([("wild",), ("name", rng.choice(m.names)), ("index", 0)]),)))
    if rng.random() < 0.2:
        segs.insert(0, ("child", (("wild",),)))
    q = ("q", "$", tuple(segs))
    observe(mon, q, render.Renderer(rng, brackets=rng.random()).query(q), doc, "")


def containers(rng, mon):
    """Documents made of other mappings and sequences than dict and list."""
    g = docs.DocGen(rng, depth=rng.randint(1, 4), hostile=0.3)
    plain = g.value(container=True)
    doc = foreign.wrap(rng, plain, rng.choice([0.3, 1]))
    qg = genq.QueryGen(rng, plain, max_segments=4, desc=rng.choice([0.0, 0.3]))
    for _ in range(3):
        q = qg.query(min_segments=0)
        text = render.Renderer(rng, brackets=rng.random()).query(q)
        expected = [v for v, _ in jp.evaluate(q, plain)]
        out = mon.call(jsonpath.findall, text, doc) if rng.random() < 0.5 else mon.call(lambda: [m.obj for m in jsonpath.finditer(text, doc)])
        mon.case(text + "\0wrapped" + docs.fingerprint(plain), bool(expected))
        mon.count("foreign_containers")
        if not (out.ok and isinstance(out.value, list) and docs.same_list([foreign.unwrap(v) for v in out.value], expected)):
            mon.violation(
                "containers", "the nodelist over mappings and sequences other than dict and list is not the one RFC 9535 defines",
                query=text, document=docs.to_json(plain), got=repr(out) if not out.ok else [foreign.unwrap(v) for v in out.value], expected=expected,
            )


def endless(rng, mon):
    """Paths of hundreds and thousands of segments (documents no deeper than a few hundred levels)."""
    n = rng.choice([150, 300, 420, 420, 600, 1200, 2500])
    m = big.Maker(rng)
    doc = m.chain(rng.choice([1, 3, 100, 300] if n <= 420 else [1, 3, 20]), side=rng.choice([0, 0.2]))
    segs, v = [], doc
    for i in range(n):
        kind = "child"
        if isinstance(v, dict) and v and rng.random() < 0.97:
            k = list(v)[-1] if rng.random() < 0.5 else max(v, key=lambda x: isinstance(v[x], (dict, list)))
            sel, v = ("name", k), v[k]
        elif isinstance(v, list) and v and rng.random() < 0.97:
            k = max(range(len(v)), key=lambda x: isinstance(v[x], (dict, list)))
            sel, v = ("index", k), v[k]
        else:
            sel = rng.choice([("name", "a"), ("index", 0), ("wild",), ("slice", None, None, None)])
            kind = "desc" if rng.random() < 0.05 else "child"
            v = None
        segs.append((kind, (sel,)))
    if rng.random() < 0.5 and n < 450:
        # only as long as the document is deep
        segs = segs[: rng.choice([100, 150, 300])]
    q = ("q", "$", tuple(segs))
    text = render.Renderer(rng, brackets=rng.random()).query(q)
    mon.count("endless_paths")
    mon.see("segments", len(segs) // 10 * 10)
    if n > 450:
        with rt.ordinary_stack():
            out = mon.call(jsonpath.findall, text, doc)
        if isinstance(out.exc, RecursionError):
            mon.violation("recursion-limit-path", "a path of hundreds of segments raised RecursionError", query=text[:100], segments=n, got=repr(out)[:200])
    observe(mon, q, text, doc, "")


def near(rng, mon):
    """Queries one after the other that differ little, or far inside a long text."""
    doc, locs = docs.near_docs(rng)
    r = render.Renderer(rng, blanks=rng.choice([0, 0.1]))
    pad = rng.choice(["", "", " " * 30, "\n" * 70, " \t" * 150])
    for loc in rng.sample(locs, len(locs)) + rng.sample(locs, min(2, len(locs))):
        q = ("q", "$", tuple(("child", (("name", s) if isinstance(s, str) else ("index", s),)) for s in loc))
        text = r.query(q)
        if rng.random() < 0.2:
            q = (*q[:2], q[2] + (("child", (("wild",),)),))
            text += "[*]"
        mon.count("near")
        observe(mon, q, text[0] + pad + text[1:], doc, "near")


WORKLOADS = {
    "near": (near, 3000, 40000),
    "general": (general, 14000, 250000),
    "slices": (slices, 5000, 80000),
    "wrong_kind": (wrong_kind, 4000, 40000),
    "scalar_root": (scalar_root, 600, 6000),
    "names": (names, 9000, 120000),
    "large": (large, 2500, 40000),
    "descents": (descents, 1200, 15000),
    "containers": (containers, 4000, 50000),
    "endless": (endless, 240, 3000),
}
