"""C13: documented non-standard syntax means what the documentation says."""

import jsonpath

from vlib import big
from vlib import docs
from vlib import genq
from vlib import iregexp
from vlib import jp
from vlib import render

PROPERTY = "C13"
RULE = (
    "Random queries of the documented extensions (missing leading $, bare names in brackets, keys selector, fake root, "
    "current key, filter context at any depth, in/contains, =~ with flags, <>, and/or/not, undefined/missing, nil/none and "
    "capitalised literals) over random documents and filter contexts, compared as a value sequence with a reference "
    "evaluator of the documented meaning, and with the result of the library on the documented equivalent RFC form.  "
    "Non-trivial: the query really uses an extension and has a candidate or a result.  Distinct by (text, document, context)."
)
REQUIRED = {"again": 10000, "nonempty": 500, "api_calls": 1000, "pairs_compared": 200}
ASSUMPTIONS = [
    "docs/syntax.md and docs/advanced.md are the specification of the extensions",
    "member names that begin with the filter-context identifier are not written bare",
]


def renderer(rng, ext=0.6):
    r = render.Renderer(rng, blanks=rng.choice([0, 0.1, 0.4]), escapes=rng.choice([0, 0.1]), brackets=rng.random(), parens=rng.choice([0, 0.1, 0.4]), ext=ext)
    r.bare = 0.7
    return r


def observe(mon, q, text, doc, extra, label, nontrivial=None, canon=None):
    expected = [v for v, _ in jp.evaluate(q, doc, extra)]
    out = mon.call(jsonpath.findall, text, doc, filter_context=extra)
    mon.case(text + "\0" + docs.fingerprint(doc) + "\0" + docs.fingerprint(extra), bool(expected) if nontrivial is None else nontrivial)
    mon.count("label:" + label)
    if expected:
        mon.count("nonempty")
    for f in jp.features(q):
        mon.see("construct", f)
    if not out.ok:
        mon.violation(f"{label}:raised:{out.kind}", "a query in documented extension syntax raised", query=text, document=docs.to_json(doc), context=docs.to_json(extra), got=repr(out), expected=expected)
    if not (isinstance(out.value, list) and docs.same_list(out.value, expected)):
        mon.violation(f"{label}:values", "an extension query does not mean what the documentation says", query=text, document=docs.to_json(doc), context=docs.to_json(extra), got=out.value, expected=expected)
    if canon is not None:
        o2 = mon.call(jsonpath.findall, canon, doc, filter_context=extra)
        mon.count("pairs_compared")
        if not (o2.ok and docs.same_list(o2.value, out.value)):
            mon.violation(f"{label}:pair", "an extension query differs from its documented equivalent", query=text, equivalent=canon, document=docs.to_json(doc), context=docs.to_json(extra), got=out.value, equivalent_got=repr(o2))
    if mon.want_sample() and expected and len(text) > 15:
        mon.sample({"query": text, "document": docs.to_json(doc)[:200], "context": docs.to_json(extra)[:100], "values": len(expected)})


def make(rng, names=None):
    names = names or rng.choice([["a", "b", "c"], ["a", "0", "1", "x_1"], ["k-v", "é", "a", "order", "inner"], ["a", "nothing", "android", "in-stock", "😀"], ["", "a", "0", "b"]])
    g = docs.DocGen(rng, names=names, unique=False, depth=rng.randint(1, 4), leaves=genq.SCALARS)
    doc = g.value(container=True)
    eg = docs.DocGen(rng, names=["a", "b", "x"], unique=False, depth=3, leaves=genq.SCALARS)
    extra = {k: eg.value() for k in rng.sample(["a", "b", "x", "who"], rng.randint(1, 3))}
    if rng.random() < 0.3:
        extra["who"] = docs.clone(rng.choice(genq.CONFUSABLE))
    return doc, extra


def general(rng, mon):
    """Random queries with extensions against the reference evaluator."""
    doc, extra = make(rng)
    qg = genq.QueryGen(rng, doc, filters=0.35, ext=True, extra=extra, max_segments=3)
    for _ in range(3):
        root = "$" if rng.random() < 0.8 else "^"
        q = qg.query(root)
        if root == "^" and not (q[2] and q[2][0][0] == "child" and q[2][0][1][0][0] == "filter") and rng.random() < 0.7:
            q = ("q", "^", (("child", (("filter", qg.expr([doc], 2)),)), *q[2]))
        if root == "^" and any("~" == s[0] for s in ()):
            continue
        observe(mon, q, renderer(rng).query(q), doc, extra, "general")


def no_root(rng, mon):
    """A query without a leading root identifier equals its $-prefixed form."""
    doc, extra = make(rng)
    if rng.random() < 0.3:
        doc, extra = make(rng, rng.sample([n for n in docs.HOSTILE if render.is_shorthand(n) and not n.startswith("_")] + docs.PLAIN, 5))
    qg = genq.QueryGen(rng, doc, filters=0.15, ext=True, extra=extra, max_segments=3)
    q = qg.query("$", min_segments=1)
    r = renderer(rng)
    text = r.query(q, no_root=True)
    canon = render.Renderer(rng, blanks=0, escapes=0, brackets=1.0, ext=0).query(q)
    for u in r.used:
        mon.see("spelling", u)
    observe(mon, q, text, doc, extra, "no_root", canon=canon)


def bare(rng, mon):
    """Bare names in brackets equal quoted names."""
    names = [n for n in docs.HOSTILE + docs.PLAIN if render.is_shorthand(n) and n not in docs.RESERVED and not n.startswith("_")]
    names += [w + s for w in docs.RESERVED for s in ("x", "_", "1", "é", "-x", "☺")]
    names += ["a" + w for w in docs.RESERVED]
    pick = rng.sample(names, 4)
    doc = {n: {m: i * 10 + j for j, m in enumerate(pick)} for i, n in enumerate(pick)}
    doc["other"] = {"z": 1}
    segs = []
    text = ["$"] if rng.random() < 0.7 else []
    canon = ["$"]
    for _ in range(rng.randint(1, 2)):
        sels = tuple(("name", rng.choice(pick)) if rng.random() < 0.8 else ("wild",) for _ in range(rng.randint(1, 3)))
        kind = "child" if rng.random() < 0.7 else "desc"
        if not text and not segs:
            kind = "child"
        segs.append((kind, sels))
        b = lambda: rng.choice(["", "", " ", "\t", "\n "])  # noqa: E731
        parts, cparts = [], []
        for s in sels:
            if s[0] == "wild":
                parts.append("*")
                cparts.append("*")
            else:
                cparts.append("'" + s[1] + "'")
                parts.append(s[1] if rng.random() < 0.75 else "'" + s[1] + "'")
        dots = ".." if kind == "desc" else ""
        text.append(dots + "[" + b() + (b() + "," + b()).join(parts) + b() + "]")
        canon.append(dots + "[" + ",".join(cparts) + "]")
    observe(mon, ("q", "$", tuple(segs)), "".join(text), doc, {}, "bare", canon="".join(canon))


def keys_selector(rng, mon):
    """The keys selector, its matches' locations included."""
    doc, extra = make(rng)
    if rng.random() < 0.4:
        doc, extra = make(rng, rng.sample(docs.HOSTILE, 6))
    qg = genq.QueryGen(rng, doc, max_segments=2, desc=0.3)
    q = qg.query("$")
    k = rng.choice(["child", "child", "desc"])
    sels = (("keys",),) if rng.random() < 0.7 else tuple(rng.choice([("keys",), ("wild",), ("name", qg.name()), ("index", 0)]) for _ in range(2)) + (("keys",),)
    q = ("q", "$", (*q[2], (k, sels)))
    if rng.random() < 0.15:
        q = ("q", "$", (*q[2], ("child", (rng.choice([("wild",), ("index", 0), ("name", "a"), ("slice", 0, 1, None), ("keys",)]),))))
    observe(mon, q, renderer(rng).query(q), doc, {}, "keys", nontrivial=True)


def fake_root(rng, mon):
    """The fake root, at the top and in filters."""
    doc, extra = make(rng)
    if rng.random() < 0.2:
        doc = rng.choice([0, 1, True, False, None, 1.5])
    qg = genq.QueryGen(rng, doc, filters=0.0, ext=True, extra=extra)
    e = qg.expr([doc], rng.randint(0, 2))
    q = ("q", "^", (("child", (("filter", e),)), *(qg.query("@", doc, max_segments=2)[2] if rng.random() < 0.5 else ())))
    if rng.random() < 0.15:
        q = ("q", "^", (("child", (rng.choice([("wild",), ("index", 0), ("index", -1), ("index", 1), ("slice", None, None, None), ("name", "0")]),)), *q[2][1:]))
    observe(mon, q, renderer(rng).query(q), doc, extra, "fake_root", nontrivial=True)


def filters(rng, mon):
    """Extension operators in filters, over confusable values."""
    conf = genq.CONFUSABLE
    keys = rng.choice([["a", "b"], ["a", "0", "1"], ["a", "é"]])
    items = [{k: docs.clone(rng.choice(conf)) for k in keys if rng.random() < 0.85} for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.4:
        items = [docs.clone(rng.choice(conf)) for _ in items]
    doc = items if rng.random() < 0.5 else {k: v for k, v in zip(["a", rng.choice(["0", ""]), "k", rng.choice(["b", "None"]), "10"], items)}
    extra = {"x": docs.clone(rng.choice(conf)), "a": docs.clone(rng.choice(conf)), "l": [docs.clone(rng.choice(conf)) for _ in range(3)], "o": {rng.choice(["a", "k", "0", "b"]): 1}, "n": rng.choice([0, 1, 2, "a", "k"])}
    qg = genq.QueryGen(rng, doc, filters=0.2, ext=True, extra=extra)
    for _ in range(4):
        cand = qg.candidate(doc)
        r = rng.random()
        if r < 0.6:
            e = qg.ext_cmp(doc, cand)
        else:
            e = qg.expr(doc, rng.randint(0, 2), cand)
        if rng.random() < 0.2:
            e = ("not", e)
        q = ("q", "$", (("child", (("filter", e),)),))
        observe(mon, q, renderer(rng).query(q), doc, extra, "filters", nontrivial=True)


def equivalents(rng, mon):
    """Aliases against their documented RFC form, both run by the library."""
    doc, extra = make(rng)
    qg = genq.QueryGen(rng, doc, filters=0.0)
    e = qg.expr(doc, rng.randint(0, 3))
    kids_path = qg.query("$", max_segments=2)[2]
    q = ("q", "$", (*kids_path, ("child", (("filter", e),))))
    st = rng.getstate()
    text = renderer(rng, ext=0.9).query(q)
    rng.setstate(st)
    canon = render.Renderer(rng, blanks=0, escapes=0, brackets=1.0, parens=0.0).query(q)
    # <> for != in the extension spelling
    observe(mon, q, text, doc, {}, "alias", nontrivial=True, canon=canon)
    # undefined / missing against existence tests
    s = qg.singular("@", qg.candidate(doc))
    neg = rng.random() < 0.5
    q2 = ("q", "$", (*kids_path, ("child", (("filter", ("not", ("test", s)) if neg else ("test", s)),))))
    st_text = render.Renderer(rng, blanks=0).query(s, strict_singular=True)
    word = rng.choice(["undefined", "missing"])
    op = "==" if neg else rng.choice(["!=", "<>"])
    expr = f"{st_text} {op} {word}" if rng.random() < 0.7 else f"{word} {op} {st_text}"
    text2 = render.Renderer(rng, brackets=0.5).query(("q", "$", kids_path)) + "[?" + expr + "]"
    canon2 = render.Renderer(rng, brackets=0.5).query(q2)
    observe(mon, q2, text2, doc, {}, "undefined", nontrivial=True, canon=canon2)


FLAGCASES = ["a", "A", "ab", "AB", "aB", "é", "É", "1", "١", "a\nb", "\n", "a\n", "\na", "b", "a.b", "axb", "", "_", "ß", "K", "\u212a", "x\ny\nz"]


def fold(c):
    return {c, c.lower(), c.upper()}


def regex_flags(rng, mon):
    """=~ is a full match honouring the flags a, i, m, s (own matcher)."""
    kinds = []
    toks = []

    def item():
        r = rng.random()
        if r < 0.45:
            c = rng.choice("abABxyé1.")
            return ("c", c), ("\\." if c == "." else c)
        if r < 0.7:
            return ("dot",), "."
        if r < 0.85:
            return ("digit",), "\\d"
        return ("word",), "\\w"

    n = rng.randint(1, 3)
    for _ in range(n):
        k, t = item()
        q = rng.choice(["", "", "", "*", "?"])
        kinds.append((k, q))
        toks.append(t + q)
    anchors = rng.random() < 0.3
    flags = "".join(f for f in "aims" if rng.random() < 0.35)
    flags = "".join(rng.sample(flags, len(flags)))
    A, I, S = "a" in flags, "i" in flags, "s" in flags

    def one(k, ch):
        if k[0] == "dot":
            return S or ch != "\n"
        if k[0] == "digit":
            return ch in "0123456789" if A else ch.isdecimal()
        if k[0] == "word":
            return (ch.isascii() and (ch.isalnum() or ch == "_")) if A else (ch.isalnum() or ch == "_")
        c = k[1]
        if c == ch:
            return True
        if not I:
            return False
        if A:
            return c.isascii() and ch.isascii() and c.lower() == ch.lower()
        return c.lower() == ch.lower()

    def full(s):
        cur = {0}
        for k, q in kinds:
            nxt = set()
            if q in ("*", "?"):
                nxt |= cur
            step = {i + 1 for i in cur if i < len(s) and one(k, s[i])}
            nxt |= step
            if q == "*":
                while step:
                    step = {i + 1 for i in step if i < len(s) and one(k, s[i])} - nxt
                    nxt |= step
            cur = nxt
        return len(s) in cur

    subjects = rng.sample([x for x in FLAGCASES if x not in ("ß", "K", "\u212a")], 8)
    if rng.random() < 0.3:
        subjects += [1, True, None, ["a"], {"a": 1}]
    doc = [{"s": s, "i": i} for i, s in enumerate(subjects)] + [{"i": -1}]
    pat = "".join(toks)
    if anchors:
        pat = rng.choice(["^" + pat, pat + "\\Z", "^" + pat + "\\Z"])
    node = ("re", full, pat, flags)
    e = ("cmp", "=~", ("sq", ("q", "@", (("child", (("name", "s"),)),))), node)
    if rng.random() < 0.2:
        e = ("not", e)
    q = ("q", "$", (("child", (("filter", e),)),))
    mon.see("flags", "".join(sorted(flags)))
    observe(mon, q, renderer(rng).query(q), doc, {}, "regex", nontrivial=True)


def context_depth(rng, mon):
    """The filter context is readable at every nesting depth, and is the caller's."""
    extra = {"x": rng.choice([1, 2, "a"]), "o": {"a": rng.choice([1, 2]), "l": [1, "a"]}, "0": 2}
    doc = {"k": [{"a": rng.choice([1, 2, "a"]), "k": [{"a": rng.choice([1, 2, "a"]), "k": [{"a": 1}, {"a": 2}]} for _ in range(rng.randint(0, 2))]} for _ in range(rng.randint(1, 3))], "x": 3}

    def ctx():
        return ("q", "_", rng.choice([(("child", (("name", "x"),)),), (("child", (("name", "o"),)), ("child", (("name", "a"),))), (("child", (("name", "o"),)), ("child", (("name", "l"),)), ("child", (("index", rng.choice([0, 1, -1, 5])),))), (("child", (("name", "zz"),)),), (("child", (("name", "0"),)),)]))

    def expr(depth):
        if depth > 0 and rng.random() < 0.7:
            inner = expr(depth - 1)
            root = rng.choice("@@$_")
            q = ("q", root, (("child", (("name", "o" if root == "_" else "k"),)), ("child", (("filter", inner),))))
            return ("test", q) if rng.random() < 0.7 else ("cmp", rng.choice(["==", ">="]), ("fn", "count", (("nodes", q),)), ("lit", rng.choice([0, 1, 2])))
        r = rng.random()
        if r < 0.7:
            return ("cmp", rng.choice(["==", "!=", "<", "<>"]), ("sq", ("q", "@", (("child", (("name", "a"),)),) if rng.random() < 0.7 else ())), ("sq", ctx()))
        if r < 0.85:
            return ("test", ctx())
        return ("cmp", "in", ("sq", ("q", "@", (("child", (("name", "a"),)),))), ("sq", ("q", "_", (("child", (("name", "o"),)), ("child", (("name", "l"),))))))

    for _ in range(3):
        e = expr(rng.randint(0, 3))
        q = ("q", "$", (("child", (("name", "k"),)), ("child", (("filter", e),))))
        observe(mon, q, renderer(rng).query(q), doc, extra, "context", nontrivial=True)


def again(rng, mon):
    """One compiled query, over a document and a context that change in place."""
    if rng.random() < 0.5:
        doc, extra = make(rng)
        q = genq.QueryGen(rng, doc, filters=0.8, ext=True, extra=extra, max_segments=2).query("$")
    else:
        doc = {"k": [{"a": rng.choice([1, 2, "a"])} for _ in range(rng.randint(1, 4))], "x": 2}
        extra = {"x": rng.choice([1, 2, "a"]), "o": {"a": 1, "l": [1, "a"]}}
        right = ("q", rng.choice("__$"), rng.choice([(("child", (("name", "x"),)),), (("child", (("name", "o"),)), ("child", (("name", "a"),)))]))
        e = ("cmp", rng.choice(["==", "!=", "<", ">="]), ("sq", ("q", "@", (("child", (("name", "a"),)),))), ("sq", right))
        if rng.random() < 0.3:
            e = ("test", right)
        q = ("q", "$", (("child", (("name", "k"),)), ("child", (("filter", e),))))
    text = renderer(rng).query(q)
    out = mon.call(jsonpath.JSONPathEnvironment(filter_caching=rng.random() < 0.5).compile, text)
    if not out.ok:
        mon.violation(f"again:raised:{out.kind}", "a query in documented extension syntax was refused", query=text, got=repr(out))
    doc, extra = docs.clone(doc), docs.clone(extra)
    for _ in range(4):
        expected = [v for v, _ in jp.evaluate(q, doc, extra)]
        o = mon.call(out.value.findall, doc, filter_context=extra)
        mon.case("again" + text + "\0" + docs.fingerprint(doc) + "\0" + docs.fingerprint(extra), bool(expected))
        mon.count("again")
        if not (o.ok and docs.same_list(o.value, expected)):
            mon.violation("again", "after a change of the document or the context a compiled query does not mean what the documentation says", query=text, document=docs.to_json(doc), context=docs.to_json(extra), got=repr(o), expected=expected)
        r = rng.random()
        if r < 0.7:
            docs.mutate(rng, extra)
            if rng.random() < 0.5:
                extra["x"] = rng.choice([1, 2, "a"])
        if r > 0.4:
            docs.mutate(rng, doc)


def compound(rng, mon):
    """| concatenates, & keeps what is common to both sides, from left to right."""
    doc, extra = make(rng)
    qg = genq.QueryGen(rng, doc, filters=0.2, ext=True, extra=extra, max_segments=2)
    q = qg.compound()
    observe(mon, q, renderer(rng).compound(q), doc, extra, "compound")


def dots(rng, mon):
    """A dot before a bracket and a third dot after `..` change nothing."""
    names = rng.choice([["a", "b", "c"], ["a", "in", "or_", "é"], ["k-v", "x_1", "title", "null"]])
    g = docs.DocGen(rng, names=names, unique=False, depth=rng.randint(2, 5), leaves=genq.SCALARS)
    doc = g.value(container=True)
    segs, text = [], ["$"]
    for _ in range(rng.randint(1, 3)):
        desc = rng.random() < 0.4
        r = rng.random()
        if r < 0.45:
            n = rng.choice(names)
            sels = (("name", n),)
            # A third dot, or none: both spellings are documented.
            text.append((rng.choice(["..", "..."]) if desc else ".") + n)
        else:
            sels = tuple(rng.choice([("name", rng.choice(names)), ("index", rng.randint(-2, 2)), ("wild",), ("slice", 1, None, None)]) for _ in range(rng.randint(1, 3)))
            body = ", ".join("'" + s[1] + "'" if s[0] == "name" else str(s[1]) if s[0] == "index" else "*" if s[0] == "wild" else "1:" for s in sels)
            text.append(("..[" if desc else rng.choice(["[", ".["])) + body + "]")
        segs.append(("desc" if desc else "child", sels))
    canon = render.Renderer(rng, blanks=0, escapes=0, brackets=1.0, ext=0).query(("q", "$", tuple(segs)))
    observe(mon, ("q", "$", tuple(segs)), "".join(text), doc, {}, "dots", canon=canon)


ALIASES = {
    "undefined": ("undefined", "missing"),
    "null": ("null", "nil", "None", "none"),
    "string": ("str", "string"),
    "array": ("array", "list", "sequence", "tuple"),
    "object": ("object", "dict", "mapping"),
    "boolean": ("bool", "boolean"),
    "int": ("number", "int"),
    "float": ("number", "float"),
}
_WORDS = sorted({w for ws in ALIASES.values() for w in ws})


def kind(v):
    return "null" if v is None else "boolean" if isinstance(v, bool) else "string" if isinstance(v, str) else "array" if isinstance(v, list) else "object" if isinstance(v, dict) else "int" if isinstance(v, int) else "float"


def type_functions(rng, mon):
    """The tables of docs/functions.md for isinstance(), is(), typeof() and type()."""
    vals = [docs.clone(rng.choice(genq.CONFUSABLE + [[], {}, "", 0, 0.0, False, None, 1.5, -1, [None], {"v": 1}])) for _ in range(rng.randint(2, 8))]
    doc = [{"v": v, "i": i} if rng.random() < 0.85 else {"i": i} for i, v in enumerate(vals)]
    kinds = [kind(d["v"]) if "v" in d else "undefined" for d in doc]
    w = rng.choice(_WORDS)
    neg = rng.random() < 0.2
    if rng.random() < 0.5:
        fn = rng.choice(["isinstance", "is"])
        text = f"$[?{'!' if neg else ''}{fn}(@.v, {rng.choice([repr(w), chr(34) + w + chr(34)])})]"
        want = [d for d, k in zip(doc, kinds) if (w in ALIASES[k]) != neg]
    else:
        fn = rng.choice(["typeof", "type"])
        w = rng.choice(["undefined", "null", "string", "array", "object", "boolean", "number"])
        text = f"$[?{fn}(@.v) {'!=' if neg else '=='} '{w}']"
        want = [d for d, k in zip(doc, kinds) if (("number" if k in ("int", "float") else k) == w) != neg]
    mon.case(text + "\0" + docs.fingerprint(doc), True)
    mon.see("type_word", f"{fn} {w}")
    if want:
        mon.count("nonempty")
    o = mon.call(jsonpath.findall, text, doc)
    if not (o.ok and docs.same_list(o.value, want)):
        mon.violation("types", "a type function does not mean what the documentation says", query=text, document=docs.to_json(doc), got=repr(o), expected=want)


def short(v):
    return not isinstance(v, (dict, list)) and not (isinstance(v, str) and len(v) > 60)


def large(rng, mon):
    """The extensions over wide, deep and long inputs."""
    m = big.Maker(rng)
    form = rng.choice(["member", "member", "words", "bare", "no_root", "keys", "index-key", "compound", "context", "regex"])
    child = lambda *s: ("child", tuple(s))  # noqa: E731
    extra = {}
    if form == "member":
        n = big.size(rng, 130)
        vals = [v for v in m.array(n, 0) if short(v)] + rng.sample([0, 1, True, False, None, "", "a", 1.5], 3)
        if rng.random() < 0.3:
            vals = list(range(n)) if rng.random() < 0.5 else [str(i) for i in range(n)]
        kids = [{"v": v} for v in vals] if rng.random() < 0.4 else list(vals)
        if rng.random() < 0.3:
            kids = {f"k{i}": v for i, v in enumerate(kids)}
        obj = isinstance(kids, dict)
        at = (child(("name", "v")),) if isinstance((list(kids.values()) if obj else kids)[0], dict) else ()
        items = rng.sample(vals, min(len(vals), big.size(rng, 70)))
        if rng.random() < 0.3:
            items += rng.sample([0, 1, True, "1", None, 2.0], 2)
        left = ("sq", ("q", "@", at))
        if obj and rng.random() < 0.4:
            left, items = ("key",), [f"k{rng.randint(0, n + 3)}" for _ in items]
        doc = {"s": kids, "l": items, "o": {f"k{i}": 1 for i in range(0, n, 3)}}
        extra = {"l": items}
        r = rng.random()
        right = ("list", tuple(items)) if r < 0.5 else ("sq", ("q", "$", (child(("name", "l")),))) if r < 0.7 else ("sq", ("q", "_", (child(("name", "l")),))) if r < 0.85 else ("sq", ("q", "$", (child(("name", "o")),)))
        e = ("cmp", "in", left, right) if rng.random() < 0.5 else ("cmp", "contains", right, left)
        if rng.random() < 0.2:
            e = ("not", e)
        q = ("q", "$", (child(("name", "s")), child(("filter", e))))
    elif form == "words":
        kids = m.array(rng.randint(2, 12), 1) if rng.random() < 0.5 else m.object(rng.randint(2, 12), 1)
        doc = kids
        q = ("q", "$", (child(("filter", big.long_expr(rng, kids, kids))),))
    elif form in ("bare", "no_root"):
        names = list(dict.fromkeys("".join(rng.choice("abcxyzé☺_0123456789ABC") for _ in range(big.size(rng, 120))).lstrip("0123456789_") or "a" for _ in range(rng.choice([2, 10, 17, 33]))))
        names = [n for n in names if render.is_shorthand(n) and n not in docs.RESERVED]
        if not names:
            return
        names += [names[0] + "a", names[0][:-1] or "b"]
        doc = {n: {k: i * 100 + j for j, k in enumerate(names[:4])} for i, n in enumerate(names)}
        sels = tuple(("name", rng.choice(names)) for _ in range(rng.choice([1, 2, 9, 17, 33])))
        q = ("q", "$", (child(*sels), child(("name", rng.choice(names)))) if rng.random() < 0.5 else (child(*sels),))
    elif form == "keys":
        doc, _ = m.document(120, 60)
        base = big.query(rng, doc, segments=rng.choice([0, 1, 2, 20]))
        keys = child(("keys",)) if rng.random() < 0.6 else ("desc", (("keys",),)) if rng.random() < 0.5 else child(("keys",), ("wild",), ("keys",))
        q = ("q", "$", (*base[2], keys))
    elif form == "index-key":
        n = big.size(rng, 120)
        doc = m.object(n, 0)
        want = rng.sample(list(doc), min(n, rng.choice([1, 2, 5])))
        lit = ("lit", rng.choice([*want, rng.choice(want) + "0"]))
        if len(lit[1]) > 100:
            return
        q = ("q", "$", (child(("filter", ("cmp", rng.choice(["==", "!=", "<>", "<", ">="]), ("key",), lit))),))
    elif form == "compound":
        doc = m.array(rng.randint(1, 6), 2) if rng.random() < 0.5 else m.object(rng.randint(1, 6), 2)
        qg = genq.QueryGen(rng, doc, filters=0.1, ext=True, extra={"x": 1}, max_segments=2)
        rest = tuple((rng.choice("||&"), qg.query("$")) for _ in range(rng.choice([3, 4, 5, 8, 9, 10, 11, 12])))
        q = ("compound", qg.query("$"), rest)
    elif form == "context":
        d = big.size(rng, 60)
        extra = {"c": m.chain(d, 0.1), "l": m.array(big.size(rng, 80), 0)}
        loc = [rng.choice(["l"]), rng.randrange(len(extra["l"]))] if rng.random() < 0.4 else ["c"]
        v = extra[loc[0]] if len(loc) == 1 else None
        while len(loc) < d and loc[0] == "c" and isinstance(v, (dict, list)) and v:
            k = rng.choice(list(v)) if isinstance(v, dict) else rng.randrange(len(v))
            v = v[k]
            loc.append(k)
        cq = ("q", "_", tuple(child(("name", k) if isinstance(k, str) else ("index", k)) for k in loc))
        end = jp.evaluate(("q", "$", cq[2]), extra, None)
        leafs = [x for x, _ in end if short(x)] + [1, "a"]
        doc = [leafs[0], *m.array(3, 0), leafs[-1]]
        e = rng.choice([("cmp", rng.choice(["==", "!=", "<="]), ("sq", ("q", "@", ())), ("sq", cq)), ("test", cq), ("cmp", "in", ("sq", ("q", "@", ())), ("sq", ("q", "_", (child(("name", "l")),))))])
        q = ("q", "$", (child(("filter", e)),))
    else:
        n = big.size(rng, 150)
        s = "".join(rng.choice("abc") for _ in range(n))
        doc = [s, s + "a", s[:-1], s[:-1] + "d", "x" + s, s.upper(), s * 2, s[:-1] + "\n", ""]
        rng.shuffle(doc)
        k = rng.random()
        if k < 0.4:
            pat, full = s, lambda t: t == s
        elif k < 0.7:
            pat, full = "[a-c]{%d}" % n, lambda t: len(t) == n and all(c in "abc" for c in t)
        else:
            pat, full = "[a-d]{%d,%d}" % (n, n + 1), lambda t: n <= len(t) <= n + 1 and all(c in "abcd" for c in t)
        q = ("q", "$", (child(("filter", ("cmp", "=~", ("sq", ("q", "@", ())), ("re", full, pat, "")))),))
    mon.see("large", form)
    r = renderer(rng)
    if form == "compound":
        text = r.compound(q)
    elif form == "no_root":
        text = r.query(q, no_root=True)
    else:
        text = r.query(q)
    observe(mon, q, text, doc, extra, "large")


WORKLOADS = {
    "again": (again, 3000, 50000),
    "large": (large, 3000, 60000),
    "compound": (compound, 5000, 60000),
    "dots": (dots, 3000, 40000),
    "type_functions": (type_functions, 3000, 30000),
    "general": (general, 12000, 200000),
    "no_root": (no_root, 8000, 120000),
    "bare": (bare, 5000, 60000),
    "keys": (keys_selector, 5000, 60000),
    "fake_root": (fake_root, 5000, 80000),
    "filters": (filters, 10000, 160000),
    "equivalents": (equivalents, 8000, 120000),
    "regex_flags": (regex_flags, 5000, 60000),
    "context_depth": (context_depth, 6000, 80000),
}
