"""C19: projection returns exactly the selected values, nothing more, in place."""

import jsonpath
from jsonpath import Projection

from vlib import big
from vlib import docs
from vlib import foreign
from vlib import genq
from vlib import jp
from vlib import render

PROPERTY = "C19"
RULE = (
    "Random documents (falsy leaves, sparse arrays, keys that look like integers) x match queries x lists of relative queries, projected "
    "in the three styles and compared with a reference projection built from the locations the reference evaluator selects: the flat "
    "list in selection order; the sparse value whose array indices are ranks and whose leaves are exactly the selected ones; no entry "
    "for non-containers and empty selections; and the document fingerprint before and after.  Lists that select an array's indices out "
    "of order, or an array and something inside it, are judged only on the flat style and on the document.  Non-trivial: something is "
    "selected below a container.  Distinct by (document, queries, style)."
)
REQUIRED = {"projections": 10000, "relative": 3000, "root": 3000, "flat": 3000, "ranked": 1000, "falsy_selected": 1000, "skipped_scalar": 300, "skipped_empty": 300}
ASSUMPTIONS = [
    "an array and something inside it selected together: the rank of the inner index is not determined by the property, so not judged",
    "member order of a projected object is not judged",
]

LEAVES = [0, False, "", None, 0.0, 1, True, "a", "0", -1, 2.5, "x"]


def canon(v):
    """Type-exact and member-order-free."""
    if isinstance(v, dict):
        return "{" + ",".join(f"{k!r}:{canon(v[k])}" for k in sorted(v, key=repr)) + "}"
    if isinstance(v, list):
        return "[" + ",".join(canon(x) for x in v) + "]"
    return f"{type(v).__name__}{v!r}"


def ascending(locs):
    """First selections of each array's indices happen in ascending order."""
    seen = {}
    for loc in locs:
        for i, p in enumerate(loc):
            if isinstance(p, int):
                xs = seen.setdefault(loc[:i], [])
                if p not in xs:
                    if xs and p < xs[-1]:
                        return False
                    xs.append(p)
    return True


def array_overlap(locs):
    """Is something selected inside an array that lies in a selected value?"""
    s = set(locs)
    for loc in s:
        for i in range(len(loc)):
            if loc[:i] in s and any(isinstance(p, int) for p in loc[i:]):
                return True
    return False


def sparse(obj, locs, prefix=()):
    """The reference projection of the values at locs, below prefix."""
    tree = {}
    for loc in locs:
        node = tree
        for p in (*prefix, *loc):
            node = node.setdefault(p, {})
    s = set(locs)

    def build(node, at):
        rel = at[len(prefix):]
        if len(at) > len(prefix) and any(rel[:i] in s for i in range(1, len(rel) + 1)):
            i = next(i for i in range(1, len(rel) + 1) if rel[:i] in s)
            assert i == len(rel)
            return docs.resolve(obj, rel)
        if any(isinstance(k, int) for k in node):
            return [build(node[k], (*at, k)) for k in sorted(node)]
        return {k: build(x, (*at, k)) for k, x in node.items()}

    return build(tree, ())


def ranks(loc, locs):
    """loc with every index replaced by its rank among the selected indices."""
    out = []
    for i, p in enumerate(loc):
        if isinstance(p, int):
            sel = sorted({x[i] for x in locs if len(x) > i and x[:i] == loc[:i]})
            p = sel.index(p)
        out.append(p)
    return tuple(out)


def observe(rng, mon, doc, mq, mtext, rels, rtexts, style, given=None):
    given = doc if given is None else given
    matches = jp.evaluate(mq, doc)
    before = docs.fingerprint(doc)
    judged = True
    expected = []
    selected = 0
    for v, loc in matches:
        if not isinstance(v, (dict, list)):
            mon.count("skipped_scalar")
            continue
        sel = []
        for q in rels:
            sel += jp.evaluate(q, v) if q[0] == "q" else [m for part in q[1:] for m in jp.evaluate(part, v)]
        locs = [x for _, x in sel]
        if any(not x for x in locs):
            return  # selects the match itself: not a relative query below it
        if not sel:
            mon.count("skipped_empty")
            continue
        selected += len(sel)
        if any(not x for x, _ in sel):
            mon.count("falsy_selected")
        if style == "flat":
            expected.append([x for x, _ in sel])
            continue
        if not ascending(locs) or array_overlap(locs):
            judged = False
            expected.append(None)
            continue
        uniq = list(dict.fromkeys(locs))
        want = sparse(v, uniq, loc if style == "root" else ())
        # the statement itself, on the reference value: every selected node is where it must be
        for x, at in sel:
            place = ranks(at, uniq)
            if place != at:
                mon.count("ranked")
            full = (*(0 if isinstance(p, int) else p for p in loc), *place) if style == "root" else place
            assert docs.resolve(want, full) is x or docs.same(docs.resolve(want, full), x)
        expected.append(want)
    args = [rng.choice([t, jsonpath.compile(t)]) if rng.random() < 0.2 else t for t in rtexts]
    proj = {"flat": Projection.FLAT, "root": Projection.ROOT, "relative": Projection.RELATIVE}[style]
    kw = {} if style == "relative" and rng.random() < 0.5 else {"projection": proj}
    how = rng.random()

    def run():
        if how < 0.6:
            q = jsonpath.query(mtext, given)
        elif how < 0.8:
            q = jsonpath.JSONPathEnvironment().query(mtext, given)
        else:
            q = jsonpath.compile(mtext).query(given)
        return list(q.select(*args, **kw))

    out = mon.call(run)
    mon.count("projections")
    mon.count(style)
    mon.case(before + "\0" + mtext + "\0" + "\0".join(rtexts) + style, selected > 0)
    detail = {"document": docs.to_json(doc), "query": mtext, "select": repr(rtexts), "style": style}
    if docs.fingerprint(foreign.unwrap(given)) != before:
        mon.violation(f"{style}:modified", "projection modified the document", after=docs.fingerprint(doc), **detail)
    if not out.ok:
        if judged:
            mon.violation(f"{style}:raised:{out.kind}", "projection raised", got=repr(out), **detail)
        return
    got = out.value if given is doc else [foreign.unwrap(v) for v in out.value]
    if len(got) != len(expected):
        mon.violation(f"{style}:count", "the number of projections is not that of the containers with a selection", got=repr(got)[:1000], expected=repr(expected)[:1000], **detail)
    for g, e in zip(got, expected):
        if e is None:
            continue
        mon.count("values_judged")
        if style == "flat":
            ok = isinstance(g, list) and len(g) == len(e) and all(canon(x) == canon(y) for x, y in zip(g, e))
        else:
            ok = canon(g) == canon(e)
        if not ok:
            mon.violation(f"{style}:value", "the projection is not exactly the selected values in place", got=repr(g)[:1000], expected=repr(e)[:1000], **detail)
    if selected and mon.want_sample() and style != "flat":
        mon.sample({"document": docs.to_json(doc)[:160], "query": mtext, "select": rtexts, "style": style, "projected": len(got)})


def make(rng):
    names = rng.choice([["a", "b", "c"], ["a", "0", "1"], ["0", "1", "2", "10"], ["a b", "0", "'"], ["a", "b", "-1", "00", "~0", "/"], rng.sample(docs.HOSTILE, 5)])
    g = docs.DocGen(rng, names=names, unique=rng.random() < 0.4, depth=rng.randint(1, 5), leaves=LEAVES if rng.random() < 0.7 else None)
    return g.value(container=True), names


def loc_query(loc):
    return ("q", "$", tuple(("child", (("index", p) if isinstance(p, int) else ("name", p),)) for p in loc))


def spell(rng, q):
    r = render.Renderer(rng, blanks=rng.choice([0, 0.1]), escapes=0.05, brackets=rng.random(), parens=0, ext=0)
    return r.query(q, no_root=bool(q[2]) and rng.random() < 0.5 and q[1] == "$")


def match_query(rng, doc, names):
    r = rng.random()
    if r < 0.2:
        return ("q", "$", ())
    if r < 0.35:
        return ("q", "$", (("child", (("wild",),)),))
    if r < 0.5:
        return ("q", "$", (("desc", (("wild",),)),))
    if r < 0.6:
        return ("q", "$", (("desc", (("name", rng.choice(names)),)),))
    qg = genq.QueryGen(rng, doc, filters=rng.choice([0, 0.2]), ext=False, max_segments=2, desc=0.25)
    return qg.query("$")


def chosen(rng, mon):
    """Pick nodes below the match and select each of them, in document order."""
    doc, names = make(rng)
    mq = match_query(rng, doc, names)
    ms = [v for v, _ in jp.evaluate(mq, doc) if isinstance(v, (dict, list)) and v]
    if not ms:
        return
    v = rng.choice(ms)
    below = [loc for _, loc in docs.walk(v) if loc]
    k = rng.randint(1, min(6, len(below)))
    locs = sorted(rng.sample(range(len(below)), k))
    locs = [below[i] for i in locs]
    if rng.random() < 0.85:
        # an antichain: drop what lies below another selected node
        s = set(locs)
        locs = [x for x in locs if not any(x[:i] in s for i in range(len(x)))]
    if rng.random() < 0.2:
        # another order of first selection (names may come in any order)
        rng.shuffle(locs)
    if rng.random() < 0.2:
        locs.append(rng.choice(locs))
    rels = [loc_query(x) for x in locs]
    merged = []
    for q in rels:
        # siblings in one bracketed selection
        if merged and rng.random() < 0.3 and merged[-1][2][:-1] == q[2][:-1]:
            last = merged[-1]
            sels = (*last[2][-1][1], *q[2][-1][1])
            merged[-1] = ("q", "$", (*last[2][:-1], ("child", sels)))
        else:
            merged.append(q)
    observe(rng, mon, doc, mq, spell(rng, mq), merged, [spell(rng, q) for q in merged], rng.choice(["relative", "root", "flat"]))


def random_queries(rng, mon):
    """Random match queries and relative queries, judged where the property determines the projection."""
    doc, names = make(rng)
    mq = match_query(rng, doc, names)
    ms = [v for v, _ in jp.evaluate(mq, doc) if isinstance(v, (dict, list)) and v]
    v = rng.choice(ms) if ms else doc
    qg = genq.QueryGen(rng, v, filters=rng.choice([0, 0, 0.25]), ext=False, max_segments=3, desc=rng.choice([0, 0.15]))
    rels = [qg.query("$", min_segments=1) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
    texts = [spell(rng, q) for q in rels]
    if rng.random() < 0.1:
        q = qg.query("$", min_segments=1)
        texts[-1] = texts[-1] + " | " + spell(rng, q)
        rels[-1] = ("u", rels[-1], q)
    for style in ("relative", "root", "flat"):
        observe(rng, mon, doc, mq, spell(rng, mq), rels, texts, style)


def slices(rng, mon):
    """Sparse selections of nested arrays."""
    depth = rng.randint(1, 3)
    n = 0

    def mk(d):
        nonlocal n
        if d == 0:
            n += 1
            return rng.choice([n, n, {"v": n, "w": [n, n + 1]}, [], {}, 0, "", None])
        return [mk(d - 1) for _ in range(rng.randint(0, 5))]

    doc = mk(depth)
    wrap = rng.random()
    if wrap < 0.4:
        doc = {"a": doc, "b": mk(1)}
    mq = ("q", "$", ()) if rng.random() < 0.5 else ("q", "$", (("child", (("wild",),)),))

    def sel():
        r = rng.random()
        if r < 0.4:
            return ("slice", rng.choice([None, 0, 1, 2, -2]), rng.choice([None, 3, -1]), rng.choice([None, 1, 2, 3]))
        if r < 0.7:
            return ("index", rng.choice([0, 1, 2, 3, -1, -2]))
        if r < 0.85:
            return ("wild",)
        return ("name", rng.choice(["a", "b", "v", "w"]))

    rels = []
    for _ in range(rng.choice([1, 1, 2])):
        segs = [("child", (sel(),)) for _ in range(rng.randint(1, depth + 1))]
        if rng.random() < 0.5:
            segs.append(("child", (("name", rng.choice(["v", "w"])),)))
        rels.append(("q", "$", tuple(segs)))
    for style in ("relative", "root", "flat"):
        observe(rng, mon, doc, mq, spell(rng, mq), rels, [spell(rng, q) for q in rels], style)


def keys_below(rng, mon):
    """Whatever is selected - the keys selector and overlaps included - the document stays as it is."""
    doc, names = make(rng)
    v = doc
    qg = genq.QueryGen(rng, v, filters=0, ext=True, max_segments=3, desc=0.2)
    texts = []
    for _ in range(rng.randint(2, 4)):
        q = qg.query("$", min_segments=1, max_segments=2)
        t = spell(rng, q)
        if rng.random() < 0.6:
            t += rng.choice([".~", "[~]", "..~", ".*", "..*", "[0, ~]"])
        texts.append(t)
    before = docs.fingerprint(doc)
    mq = rng.choice(["$", "$.*", "$..*"])
    style = rng.choice(list(Projection))
    mon.call(lambda: list(jsonpath.query(mq, doc).select(*texts, projection=style)))
    mon.count("purity_only")
    mon.case(before + mq + repr(texts) + style.name, True)
    if docs.fingerprint(doc) != before:
        mon.violation("modified", "projection modified the document", before=before, after=docs.fingerprint(doc), query=mq, select=repr(texts), style=style.name)


def containers(rng, mon):
    """Documents of other mappings and sequences than dict and list."""
    doc, names = make(rng)
    mq = match_query(rng, doc, names)
    ms = [v for v, _ in jp.evaluate(mq, doc) if isinstance(v, (dict, list)) and v]
    v = rng.choice(ms) if ms else doc
    qg = genq.QueryGen(rng, v, filters=rng.choice([0, 0.25]), ext=False, max_segments=3, desc=0.1)
    rels = [qg.query("$", min_segments=1) for _ in range(rng.choice([1, 1, 2]))]
    texts = [spell(rng, q) for q in rels]
    given = foreign.wrap(rng, doc, rng.choice([0.3, 1]))
    mon.count("foreign_containers")
    for style in ("relative", "root", "flat"):
        observe(rng, mon, doc, mq, spell(rng, mq), rels, texts, style, given)


def large(rng, mon):
    """Many selected items of long arrays, deep selections, many queries."""
    m = big.Maker(rng)
    r = rng.random()
    if r < 0.3:
        # deep
        v = m.chain(big.size(rng, 70), side=0.3)
        below = [loc for _, loc in docs.walk(v) if loc]
        locs = sorted(rng.sample(range(len(below)), min(len(below), rng.choice([1, 2, 5]))))
        locs = [below[i] for i in locs]
        s = set(locs)
        locs = [x for x in locs if not any(x[:i] in s for i in range(len(x)))]
        rels = [loc_query(x) for x in locs]
        doc, mq = (v, ("q", "$", ())) if rng.random() < 0.5 else ([0, v], ("q", "$", (("child", (("index", 1),)),)))
    else:
        n = big.size(rng, 257, 2)
        items = [rng.choice([i, {"v": i, "w": [i, i + 1]}, [i, {"v": 0}], "", {}, {"v": None}]) for i in range(n)]
        doc, mq = rng.choice([(items, ("q", "$", ())), ({"a": items}, ("q", "$", (("child", (("name", "a"),)),))), ({"a": items}, ("q", "$", ())), ([items, items[: n // 2]], ("q", "$", (("child", (("wild",),)),)))])
        pre = (("child", (("name", "a"),)),) if isinstance(doc, dict) and not mq[2] else ()
        idx = sorted(rng.sample(range(n), min(n, rng.choice([2, 3, 10, 11, 12, 20, 40, 100]))))
        mon.see("indices", len(idx))
        r = rng.random()
        tail = rng.choice([(), (), (("child", (("name", "v"),)),), (("child", (("wild",),)),)])
        neg = lambda i: ("index", i if rng.random() < 0.8 else i - n)  # noqa: E731
        if len(doc) == 2 and isinstance(doc, list) and mq[2]:
            neg = lambda i: ("index", i)  # noqa: E731
        if r < 0.4:
            rels = [("q", "$", (*pre, ("child", tuple(neg(i) for i in idx)), *tail))]
        elif r < 0.8:
            rels = [("q", "$", (*pre, ("child", (neg(i),)), *tail)) for i in idx]
        else:
            rels = [("q", "$", (*pre, ("child", (("slice", idx[0], None, rng.choice([1, 2, 7])),)), *tail))]
    observe(rng, mon, doc, mq, spell(rng, mq), rels, [spell(rng, q) for q in rels], rng.choice(["relative", "root", "flat", "relative", "root"]))


WORKLOADS = {
    "chosen": (chosen, 20000, 800000),
    "random_queries": (random_queries, 8000, 300000),
    "slices": (slices, 6000, 200000),
    "containers": (containers, 2000, 40000),
    "large": (large, 2500, 60000),
    "keys_below": (keys_below, 4000, 150000),
}
