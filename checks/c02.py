"""C02: RFC 9535 filter expressions select exactly the nodes the RFC makes true."""

import jsonpath

from vlib import big
from vlib import docs
from vlib import foreign
from vlib import genq
from vlib import jp
from vlib import render
from vlib import rt

PROPERTY = "C02"
RULE = (
    "Type-directed random well-typed RFC 9535 filter expressions (existence tests, comparisons, ! && || with grouping, "
    "length count value match search, nested filters, $ and @ at every depth) in random spellings, over arrays and objects "
    "of values drawn from a pool of confusable values; the values selected are compared with an independent reference "
    "evaluator (own regular-expression matcher).  Non-trivial: the filter is evaluated on at least one candidate.  "
    "Distinct by (query text, document)."
)
REQUIRED = {"again": 10000, "candidates": 2000, "selected": 200, "rejected": 200, "api_calls": 1000}
ASSUMPTIONS = [
    "the reference evaluator vlib/jp.py is a correct reading of RFC 9535 sections 2.3.5 and 2.4",
    "regular expressions are limited to the constructs generated by vlib/iregexp.py",
    "numbers stay within the I-JSON range",
]


def observe(mon, q, text, doc):
    parent = [v for v, _ in jp._segments([(doc, ())], q[2][:-1], doc, None)]
    n = 0
    for p in parent:
        if isinstance(p, (list, dict)):
            n += len(p)
    expected = [v for v, _ in jp.evaluate(q, doc)]
    out = mon.call(jsonpath.findall, text, doc)
    mon.case(text + "\0" + docs.fingerprint(doc), n > 0)
    mon.count("candidates", n)
    mon.count("selected", len(expected))
    mon.count("rejected", max(0, n - len(expected)))
    for f in jp.features(q):
        mon.see("construct", f)
    mon.see("query_skeletons", jp.skeleton(q))
    if not out.ok:
        mon.violation(
            "raised:" + out.kind, "a well-typed RFC 9535 filter query raised instead of selecting nodes",
            query=text, document=docs.to_json(doc), got=repr(out), expected=expected,
        )
    if not (isinstance(out.value, list) and docs.same_list(out.value, expected)):
        mon.violation(
            "filter", "the filter selects other children than RFC 9535 makes true",
            query=text, document=docs.to_json(doc), got=out.value, expected=expected,
        )
    if mon.want_sample() and expected and 20 < len(text) < 200:
        mon.sample({"query": text, "document": docs.to_json(doc)[:300], "selected": len(expected), "of": n})


def make_doc(rng):
    """An array or object of candidates, plus $-reachable reference values."""
    conf = genq.CONFUSABLE
    keys = rng.choice([["a", "b", "c"], ["a", "b"], ["a", "0", ""], ["x y", "é", "a"]])
    g = docs.DocGen(rng, names=keys, unique=False, depth=rng.randint(1, 3), leaves=conf)

    def cand():
        r = rng.random()
        if r < 0.3:
            return docs.clone(rng.choice(conf))
        if r < 0.8:
            return {k: docs.clone(rng.choice(conf)) for k in keys if rng.random() < 0.75}
        return docs.clone(g.value(container=True))

    n = rng.randint(0, 5)
    items = [cand() for _ in range(n)]
    if rng.random() < 0.5:
        kids = items
    else:
        pool = list(dict.fromkeys(keys + ["k0", "k1", "k2", "k3", "k4"]))
        rng.shuffle(pool)
        kids = dict(zip(pool, items))
    r = rng.random()
    if r < 0.4:
        return kids, ()
    doc = {"a": docs.clone(rng.choice(conf)), "b": docs.clone(rng.choice(conf)), "v": kids}
    if r < 0.5:
        return [kids, docs.clone(rng.choice(conf))], (("child", (("index", 0),)),)
    return doc, (("child", (("name", "v"),)),)


def renderer(rng):
    return render.Renderer(rng, blanks=rng.choice([0, 0.1, 0.4]), escapes=rng.choice([0, 0.1]), brackets=rng.random(), parens=rng.choice([0, 0.1, 0.4]))


def general(rng, mon):
    """Random logical expressions over random candidates."""
    doc, prefix = make_doc(rng)
    if rng.random() < 0.15:
        docs.alias(rng, docs.resolve(doc, [s[1][0][1] for s in prefix]))
    kids = docs.resolve(doc, [s[1][0][1] for s in prefix])
    qg = genq.QueryGen(rng, doc, filters=0.0)
    for _ in range(4):
        qg.filters = rng.choice([0, 0.3])
        e = qg.expr(kids, rng.choice([0, 1, 2, 3]))
        qg.filters = 0
        sels = [("filter", e)]
        if rng.random() < 0.1:
            sels.append(qg.selector(kids))
        kind = "child" if rng.random() < 0.9 else "desc"
        q = ("q", "$", (*prefix, (kind, tuple(sels))))
        observe(mon, q, renderer(rng).query(q), doc)


OPS = ["==", "!=", "<", "<=", ">", ">="]


def containers(rng, mon):
    """Candidates and reference values in other mappings and sequences than dict and list."""
    plain, prefix = make_doc(rng)
    kids = docs.resolve(plain, [s[1][0][1] for s in prefix])
    doc = foreign.wrap(rng, plain, rng.choice([0.3, 1]))
    qg = genq.QueryGen(rng, plain, filters=0.0)
    for _ in range(3):
        qg.filters = rng.choice([0, 0.3])
        e = qg.expr(kids, rng.choice([0, 1, 2]))
        qg.filters = 0
        q = ("q", "$", (*prefix, ("child", (("filter", e),))))
        text = renderer(rng).query(q)
        expected = [v for v, _ in jp.evaluate(q, plain)]
        mon.case(text + "\0wrapped" + docs.fingerprint(plain), bool(kids))
        mon.count("foreign_containers")
        out = mon.call(jsonpath.findall, text, doc)
        if not (out.ok and isinstance(out.value, list) and docs.same_list([foreign.unwrap(v) for v in out.value], expected)):
            mon.violation(
                "containers", "a filter over mappings and sequences other than dict and list selects other children than RFC 9535 makes true",
                query=text, document=docs.to_json(plain), got=repr(out) if not out.ok else [foreign.unwrap(v) for v in out.value], expected=expected,
            )


def comparisons(rng, mon):
    """Every operator over pairs of confusable values, all operand shapes."""
    conf = genq.CONFUSABLE
    a, b = docs.clone(rng.choice(conf)), docs.clone(rng.choice(conf))
    if rng.random() < 0.3:
        b = docs.clone(a)
    if rng.random() < 0.25 and isinstance(a, (list, dict)):
        # perturb deep inside
        b = docs.clone(a)
        locs = [loc for _, loc in docs.walk(b) if loc]
        if locs:
            loc = rng.choice(locs)
            v = docs.resolve(b, loc)
            w = {True: 1, False: 0}.get(v, None) if isinstance(v, bool) else (v == 1 if docs.is_num(v) and v in (0, 1) else rng.choice([None, 0, "a", True]))
            docs.resolve(b, loc[:-1])[loc[-1]] = w
    item = {"x": a, "y": b}
    doc = [item] if rng.random() < 0.5 else {"k": item, "l": docs.clone(rng.choice(conf))}
    rel = lambda k: ("sq", ("q", "@", (("child", (("name", k),)),)))  # noqa: E731
    absq = ("sq", ("q", "$", (("child", (("index", 0) if isinstance(doc, list) else ("name", "k"),)), ("child", (("name", "y"),)))))
    missing = ("sq", ("q", "@", (("child", (("name", "zz"),)),)))
    val = ("fn", "value", (("nodes", ("q", "@", (("child", (("name", "y"),)),))),))
    valmany = ("fn", "value", (("nodes", ("q", "@", (("child", (("wild",),)),))),))
    length = ("fn", "length", (rel("x"),))
    ops = [rel("x"), rel("y"), absq, missing, val, valmany, length]
    for v in (a, b):
        if not isinstance(v, (list, dict)):
            ops += [("lit", v)] * 2
    for _ in range(5):
        l, r = rng.choice(ops), rng.choice(ops)
        e = ("cmp", rng.choice(OPS), l, r)
        if rng.random() < 0.2:
            e = ("not", e)
        q = ("q", "$", (("child", (("filter", e),)),))
        observe(mon, q, renderer(rng).query(q), doc)


def strings(rng, mon):
    """Strings and names that a normalisation, folding or trimming would identify."""
    fam = list(rng.choice(docs.ALIKE))
    if rng.random() < 0.4:
        base = rng.choice(docs.HOSTILE + genq.SCALARS[-9:])
        fam = list(dict.fromkeys([base if isinstance(base, str) else "a", *(docs.near_string(rng, str(base)) for _ in range(5))]))
    pick = lambda: rng.choice(fam)  # noqa: E731
    items = []
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        if r < 0.5:
            items.append({"s": pick(), "t": pick(), "n": rng.choice([1, None])})
        elif r < 0.7:
            items.append({pick(): rng.choice([1, False]), "s": {pick(): 1, "x": pick()}, "t": {pick(): 1, "x": pick()}})
        elif r < 0.9:
            items.append({"s": [pick(), pick()], "t": [pick(), pick()], pick(): pick()})
        else:
            items.append(pick())
    doc = {"l": items, "ref": pick(), "by": {pick(): i for i in range(4)}}
    at = lambda *names: ("sq", ("q", "@", tuple(("child", (("name", n),)) for n in names)))  # noqa: E731
    ops = [at("s"), at("t"), at(pick()), at("s", pick()), at(), ("lit", pick()), ("lit", pick()), ("sq", ("q", "$", (("child", (("name", "ref"),)),))), at("s", "x")]
    for _ in range(5):
        r = rng.random()
        if r < 0.75:
            e = ("cmp", rng.choice(OPS), rng.choice(ops), rng.choice(ops))
        elif r < 0.9:
            e = ("cmp", rng.choice(OPS), ("fn", "length", (rng.choice(ops),)), ("lit", rng.choice([0, 1, 2, 3, 41])))
        else:
            e = ("test", ("q", "@", (("child", (("name", pick()),)),)))
        where = (("name", "by"),) if rng.random() < 0.1 else (("name", "l"),)
        q = ("q", "$", (("child", where), ("child", (("filter", e),))))
        observe(mon, q, renderer(rng).query(q), doc)


def existence(rng, mon):
    """Bare queries: the value found never matters."""
    conf = genq.CONFUSABLE
    v = docs.clone(rng.choice(conf))
    doc = rng.choice([lambda: [v, 1, docs.clone(v)], lambda: {"a": v, "b": {"a": v}}, lambda: [{"a": v}, {"a": [v]}, {"b": v}], lambda: {"p": [v], "q": {"a": v}}])()
    qg = genq.QueryGen(rng, doc)
    for _ in range(4):
        cand = qg.candidate(doc)
        root = rng.choice("@@$")
        sub = rng.choice([
            ("q", root, ()),
            ("q", root, (("child", (("name", "a"),)),)),
            ("q", root, (("child", (("wild",),)),)),
            ("q", root, (("desc", (("name", "a"),)),)),
            ("q", root, (("child", (("index", 0),)),)),
            qg.query(root, cand, max_segments=2),
        ])
        e = ("test", sub)
        r = rng.random()
        if r < 0.3:
            e = ("not", e)
        elif r < 0.5:
            e = (rng.choice(["and", "or"]), e, ("not", ("test", qg.singular("@", cand))))
        q = ("q", "$", (("child", (("filter", e),)),))
        observe(mon, q, renderer(rng).query(q), doc)


def logic(rng, mon):
    """Operator precedence and grouping over all eight truth assignments."""
    doc = [{k: True for k, bit in zip("abc", (i & 1, i & 2, i & 4)) if bit} for i in range(8)]
    for d, i in zip(doc, range(8)):
        d["i"] = i

    def tree(depth):
        r = rng.random()
        if depth == 0 or r < 0.2:
            k = rng.choice("abc")
            e = ("q", "@", (("child", (("name", k),)),))
            if rng.random() < 0.6:
                return ("test", e)
            return ("cmp", rng.choice(["==", "!="]), ("sq", e), ("lit", True))
        if r < 0.4:
            return ("not", tree(depth - 1))
        return (rng.choice(["and", "or"]), *[tree(depth - 1) for _ in range(rng.choice([2, 2, 3]))])

    for _ in range(3):
        e = tree(rng.randint(1, 4))
        q = ("q", "$", (("child", (("filter", e),)),))
        observe(mon, q, renderer(rng).query(q), doc)


def roots(rng, mon):
    """`$` is the query argument and `@` the candidate at every nesting depth."""
    conf = genq.CONFUSABLE
    pick = lambda: docs.clone(rng.choice(conf))  # noqa: E731
    doc = {
        "a": rng.choice([1, 2, True, "s", None, [1], {"a": 1}]),
        "k": [{"a": rng.choice([1, 2, True]), "k": [{"a": rng.choice([1, 2]), "k": [pick(), {"a": 1}]} for _ in range(rng.randint(0, 2))]} for _ in range(rng.randint(1, 3))],
    }

    def q_of(root, depth):
        r = rng.random()
        if r < 0.35 or depth == 0:
            return ("q", root, (("child", (("name", "a"),)),))
        e = expr(depth - 1)
        segs = [("child", (("name", "k"),))] if rng.random() < 0.8 else [("desc", (("name", "k"),))]
        return ("q", root, (*segs, ("child", (("filter", e),))))

    def expr(depth):
        r = rng.random()
        if r < 0.45 and depth > 0:
            return ("test", q_of(rng.choice("@$@"), depth))
        if r < 0.6 and depth > 0:
            return ("cmp", rng.choice(OPS), ("fn", "count", (("nodes", q_of(rng.choice("@$"), depth)),)), ("lit", rng.choice([0, 1, 2])))
        if r < 0.7:
            return ("not", expr(depth - 1)) if depth > 0 else ("test", ("q", rng.choice("@$"), ()))
        s = lambda root: ("sq", ("q", root, (("child", (("name", "a"),)),)))  # noqa: E731
        return ("cmp", rng.choice(OPS), s(rng.choice("@$")), rng.choice([s("@"), s("$"), ("lit", 1), ("lit", 2)]))

    for _ in range(4):
        segs = rng.choice([(("child", (("name", "k"),)),), (("desc", (("name", "k"),)),), ()])
        q = ("q", "$", (*segs, ("child", (("filter", expr(rng.randint(0, 3))),))))
        observe(mon, q, renderer(rng).query(q), doc)


def functions(rng, mon):
    """The five functions on every kind of argument."""
    from vlib import iregexp

    strs = ["", "\x00", "a\x00", " a", "a ", "\ta", "\x1f", "\u2028a", "a\u0301", "\x7f", "", "a", "ab", "abc", "aab", "b", "ba", "xabx", "é", "😀", "a😀b", "A", "a-b", "0", "a.c", "abcabc"]
    pats = []
    for _ in range(3):
        p = iregexp.gen(rng, rng.randint(0, 3))
        t = iregexp.text(p)
        if "$" not in t:
            jp.PATTERNS[t] = p
            pats.append((p, t))
    if not pats:
        return
    items = []
    for _ in range(rng.randint(1, 5)):
        p, t = rng.choice(pats)
        s = rng.choice(strs) if rng.random() < 0.4 else iregexp.sample(rng, p)
        if rng.random() < 0.3:
            s = rng.choice(["x", "", "a", "b"]) + s + rng.choice(["x", "", "a"])
        s = s.replace("\n", "").replace("\r", "")
        items.append({"s": rng.choice([s, s, s, s, rng.choice(genq.CONFUSABLE)]), "p": rng.choice([t, t, 1, None, "ab", ["a"]]), "n": [1, {"s": 2}]})
    doc = items if rng.random() < 0.6 else {f"k{i}": x for i, x in enumerate(items)}
    sq = lambda k: ("sq", ("q", "@", (("child", (("name", k),)),)))  # noqa: E731
    for _ in range(4):
        r = rng.random()
        if r < 0.65:
            f = rng.choice(["match", "search"])
            subj = rng.choice([sq("s"), sq("s"), sq("s"), sq("zz"), ("fn", "value", (("nodes", ("q", "@", (("desc", (("name", "s"),)),))),)), ("lit", rng.choice(strs))])
            pat = rng.choice([("lit", rng.choice(pats)[1])] * 3 + [sq("p"), sq("zz"), ("lit", rng.choice([1, None, True]))])
            e = ("ftest", f, (subj, pat))
            if rng.random() < 0.25:
                e = ("not", e)
        else:
            f = rng.choice(["length", "count", "value", "length"])
            if f == "length":
                arg = rng.choice([sq("s"), sq("n"), sq("zz"), ("lit", rng.choice(strs + [1, None, True])), ("sq", ("q", "@", ())), ("fn", "value", (("nodes", ("q", "@", (("child", (("wild",),)),))),)), ("fn", "length", (sq("s"),)), ("fn", "count", (("nodes", ("q", "@", (("child", (("wild",),)),))),))])
            else:
                arg = ("nodes", rng.choice([("q", "@", ()), ("q", "@", (("child", (("wild",),)),)), ("q", "@", (("desc", (("name", "s"),)),)), ("q", "$", (("child", (("wild",),)), ("child", (("name", "s"),)))), ("q", "@", (("child", (("name", "s"), ("name", "s"))),)), ("q", "@", (("desc", (("wild",),)),))]))
            l = ("fn", f, (arg,))
            rr = rng.choice([("lit", rng.choice([0, 1, 2, 3, 5, "a", True, None, 1.0])), sq("s"), sq("zz"), ("fn", "length", (sq("n"),))])
            if rng.random() < 0.3:
                l, rr = rr, l
            e = ("cmp", rng.choice(OPS), l, rr)
        q = ("q", "$", (("child", (("filter", e),)),))
        observe(mon, q, renderer(rng).query(q), doc)


def large(rng, mon):
    """Long chains, deep groups, long literals, many candidates."""
    m = big.Maker(rng)
    n = rng.choice([1, 3, 8, 20, 40, 120])
    kids = m.array(n, rng.choice([0, 1])) if rng.random() < 0.5 else m.object(n, rng.choice([0, 1]))
    for v in [v for v, _ in docs.walk(kids) if isinstance(v, dict)][:2]:
        v.pop("", None)
    doc, segs = rng.choice([(kids, ()), ({"v": kids, "a": 1}, (("child", (("name", "v"),)),)), ([0, kids], (("child", (("index", 1),)),))])
    for _ in range(2):
        e = big.long_expr(rng, doc, kids)
        mon.see("operands", min(33, len(e)))
        q = ("q", "$", (*segs, ("child", (("filter", e),))))
        observe(mon, q, renderer(rng).query(q), doc)


def deep(rng, mon):
    """Long singular queries and deep values in tests, comparisons and functions."""
    m = big.Maker(rng)
    v = m.chain(big.size(rng, 60, 2), side=rng.choice([0, 0.3]))
    w = docs.clone(v)
    loc = max((loc for _, loc in docs.walk(w)), key=len)
    change = rng.random()
    if change < 0.5:
        docs.resolve(w, loc[:-1])[loc[-1]] = rng.choice([1, True, None, "x", [], {}])
    doc = [{"x": v, "y": w}, {"x": docs.clone(v)}, {"y": w}]
    steps = tuple(("child", (("index", s) if isinstance(s, int) else ("name", s),)) for s in loc)
    cut = rng.choice([len(steps), rng.randint(0, len(steps))])
    full = lambda k, n: ("q", "@", (("child", (("name", k),)), *steps[:n]))  # noqa: E731
    sx, sy = ("sq", full("x", cut)), ("sq", full("y", cut))
    e = rng.choice([
        ("test", full("x", cut)),
        ("not", ("test", full("x", cut))),
        ("cmp", rng.choice(["==", "!=", "<=", ">="]), sx, sy),
        ("cmp", rng.choice(["==", "!="]), ("sq", full("x", 0)), ("sq", full("y", 0))),
        ("cmp", rng.choice(["==", ">", "<"]), ("fn", "count", (("nodes", ("q", "@", (("desc", (("wild",),)),))),)), ("lit", rng.choice([len(loc), len(loc) * 2, 10, 100]))),
        ("cmp", "==", ("fn", "length", (sx,)), ("lit", 1)),
        ("cmp", "==", ("fn", "value", (("nodes", full("x", cut)),)), sy),
    ])
    q = ("q", "$", (("child", (("filter", e),)),))
    observe(mon, q, renderer(rng).query(q), doc)


def sizes(rng, mon):
    """Functions and comparisons of long strings, wide arrays and wide objects."""
    from vlib import iregexp

    p = iregexp.gen(rng, rng.randint(0, 2))
    t = iregexp.text(p)
    if "$" in t:
        return
    jp.PATTERNS[t] = p
    ch = rng.choice(["a", "é", "😀", "ab", "a😀"])
    items = []
    base = big.size(rng, 400, 1)
    leaf = rng.choice([1, 0, True, "x", None, 1.5])
    for _ in range(rng.randint(1, 4)):
        n = max(0, rng.choice([base, base, base + rng.choice([-1, 1]), big.size(rng, 400, 1)]))
        wide = rng.choice([[leaf] * n, [rng.choice([leaf, [leaf], {"a": leaf}]) for _ in range(n)], {f"k{i}": leaf for i in range(n)}, list(range(n))])
        text = (ch * n)[:n] if rng.random() < 0.7 else "x" * rng.randint(0, min(n, 60)) + iregexp.sample(rng, p) + rng.choice(["", "x" * rng.randint(0, 60)])
        items.append({"w": wide, "s": text.replace("\n", "").replace("\r", ""), "n": rng.choice([n, n + 1, max(0, n - 1), base])})
    if len(items) > 1 and rng.random() < 0.5:
        other = docs.clone(items[0]["w"])
        if other and rng.random() < 0.5:
            k = rng.choice(list(other)) if isinstance(other, dict) else rng.randrange(len(other))
            other[k] = rng.choice([1, True, 0, False, "x", None, [], {}])
        items[1]["w"] = other
    doc = items if rng.random() < 0.7 else {f"m{i}": x for i, x in enumerate(items)}
    mon.see("width", min(257, base))
    sq = lambda k: ("sq", ("q", "@", (("child", (("name", k),)),)))  # noqa: E731
    first = ("name", "m0") if isinstance(doc, dict) else ("index", 0)
    w = lambda *segs: ("q", "@", (("child", (("name", "w"),)), *segs))  # noqa: E731
    cnt = [w(("child", (("wild",),))), w(("desc", (("wild",),))), w(("child", (("slice", None, None, None),))), ("q", "@", (("child", (("name", "w"), ("name", "s"))),)), ("q", "$", (("desc", (("wild",),)),)),
           w(("child", (("wild",), ("wild",)))), w(("child", (("filter", ("cmp", "==", ("sq", ("q", "@", ())), ("lit", leaf))),)))]
    for _ in range(3):
        right = rng.choice([sq("n"), ("lit", base), ("lit", base)])
        e = rng.choice([
            ("cmp", rng.choice(OPS), ("fn", "count", (("nodes", rng.choice(cnt)),)), right),
            ("cmp", rng.choice(OPS), ("fn", "count", (("nodes", rng.choice(cnt)),)), ("fn", "length", (sq("w"),))),
            ("cmp", rng.choice(OPS), ("fn", "length", (sq(rng.choice("ws")),)), right),
            ("cmp", rng.choice(["==", "!=", "<=", ">="]), sq("w"), ("sq", ("q", "$", (("child", (first,)), ("child", (("name", "w"),)))))),
            ("cmp", rng.choice(OPS), sq("s"), ("sq", ("q", "$", (("child", (first,)), ("child", (("name", "s"),)))))),
            ("cmp", "==", ("fn", "value", (("nodes", rng.choice(cnt)),)), ("lit", leaf)),
            ("ftest", rng.choice(["match", "search"]), (sq("s"), ("lit", t))),
            ("test", w(("child", (("index", rng.choice([base - 1, -base, base, -base - 1])),)))),
            ("test", w(("child", (("name", f"k{base - 1}"),)))),
        ])
        q = ("q", "$", (("child", (("filter", e),)),))
        observe(mon, q, renderer(rng).query(q), doc)


def chains(rng, mon):
    """Flat && and || chains of many operands: every operand can decide."""
    n = rng.choice([20, 64, 65, 100, 128, 257, 400, 420, 600, 1500])
    op = rng.choice(["and", "or"])
    names = [f"k{i}" for i in range(n)]
    lit = rng.choice([1, "x", None, True])

    def term(k):
        e = ("q", "@", (("child", (("name", k),)),))
        return ("test", e) if rng.random() < 0.5 else ("cmp", rng.choice(["==", "!="]), ("sq", e), ("lit", lit))

    terms = [term(k) for k in names]
    if rng.random() < 0.3:
        terms = [("not", t) if rng.random() < 0.2 else t for t in terms]
    if rng.random() < 0.3 and n < 450:
        # the other operator inside, two or three operands at a time
        other = "or" if op == "and" else "and"
        groups, i = [], 0
        while i < n:
            j = i + rng.choice([1, 2, 3])
            groups.append((other, *terms[i:j]) if j - i > 1 and len(terms[i:j]) > 1 else terms[i])
            i = j
        terms = groups
    e = (op, *terms) if len(terms) > 1 else terms[0]
    rows = []
    base = {k: lit for k in names} if op == "and" else {}
    for t, k in zip(terms, names):
        if t[0] == "cmp" and t[1] == "!=" and op == "and":
            base[k] = "other"
        elif t[0] == "cmp" and t[1] == "!=" and op == "or":
            base[k] = lit
    for _ in range(4):
        row = dict(base)
        for k in rng.sample(names, rng.choice([0, 1, 1, 2])):
            r = rng.random()
            if r < 0.4:
                row.pop(k, None)
            else:
                row[k] = rng.choice([lit, 0, "y", False])
        rows.append(row)
    doc = rows
    q = ("q", "$", (("child", (("filter", e),)),))
    text = render.Renderer(rng, brackets=rng.choice([0, 0.5]), parens=0).query(q)
    mon.count("chains")
    mon.see("chain", f"{op}/{n}")
    if n > 450:
        with rt.ordinary_stack():
            out = mon.call(jsonpath.findall, text, doc)
        if isinstance(out.exc, RecursionError):
            mon.violation("recursion-limit-chain", "a filter of hundreds of && or || operands raised RecursionError", query=text[:100], operands=n, got=repr(out)[:200])
    observe(mon, q, text, doc)


def again(rng, mon):
    """One compiled query over a document that changes in place."""
    doc = docs.clone(make_doc(rng)[0])
    q = genq.QueryGen(rng, doc, filters=0.9, max_segments=2).query("$")
    text = render.Renderer(rng).query(q)
    out = mon.call(jsonpath.JSONPathEnvironment(filter_caching=rng.random() < 0.5).compile, text)
    if not out.ok:
        mon.violation("again:raised:" + out.kind, "a well-typed RFC 9535 filter query was refused", query=text, got=repr(out))
    for _ in range(4):
        expected = [v for v, _ in jp.evaluate(q, doc)]
        o = mon.call(out.value.findall, doc)
        mon.case("again" + text + "\0" + docs.fingerprint(doc), bool(expected))
        mon.count("again")
        if not (o.ok and docs.same_list(o.value, expected)):
            mon.violation("again", "after a change of the document the filter selects other children than RFC 9535 makes true", query=text, document=docs.to_json(doc), got=repr(o), expected=expected)
        docs.mutate(rng, doc)


WORKLOADS = {
    "again": (again, 3000, 50000),
    "chains": (chains, 600, 8000),
    "sizes": (sizes, 1500, 25000),
    "containers": (containers, 3000, 50000),
    "general": (general, 20000, 400000),
    "strings": (strings, 4000, 60000),
    "comparisons": (comparisons, 12000, 200000),
    "existence": (existence, 5000, 80000),
    "logic": (logic, 4000, 60000),
    "roots": (roots, 8000, 120000),
    "functions": (functions, 10000, 160000),
    "large": (large, 1500, 25000),
    "deep": (deep, 1500, 25000),
}
