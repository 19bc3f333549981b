"""JSONPath abstract syntax and a reference evaluator.

Written from RFC 9535 and the library's documentation of its extensions; shares
no code with the library.  Queries are plain tuples:

    query     ("q", root, (segment, ...))       root in "$ @ ^ _"
    segment   ("child" | "desc", (selector, ...))
    selector  ("name", s) ("index", i) ("slice", a, b, c) ("wild",)
              ("filter", expr)  ("keys",)
    compound  ("compound", query, ((op, query), ...))   op in "| &"

    expr      ("or", e, e, ...) ("and", e, e, ...) ("not", e)
              ("test", query)   ("cmp", op, l, r)   ("ftest", fn, args)
    operand   ("lit", v) ("sq", query) ("fn", name, args)
              ("key",) ("undef",) ("re", R, pattern, flags) ("list", (v, ...))
    argument  operand | ("nodes", query) | ("logic", expr)
"""

from __future__ import annotations

from . import docs
from . import iregexp
from . import rt


class _Nothing:
    def __repr__(self):
        return "Nothing"


NOTHING = _Nothing()


class Ctx:
    """Evaluation context of a filter: query argument, candidate, key, mapping."""

    __slots__ = ("root", "cur", "key", "extra")

    def __init__(self, root, cur, key, extra):
        self.root, self.cur, self.key, self.extra = root, cur, key, extra


def evaluate(q, doc, extra=None):
    """The nodelist of a top-level query: [(value, location), ...]."""
    if q[0] == "compound":
        left = evaluate(q[1], doc, extra)
        for op, right in q[2]:
            r = evaluate(right, doc, extra)
            if op == "|":
                left = left + r
            else:
                left = [n for n in left if any(docs.jeq(n[0], m[0]) for m in r)]
        return left
    _, root, segments = q
    if root == "^":
        start = [([doc], ("^",))]
    else:
        start = [(doc, ())]
    return _segments(start, segments, doc, extra)


def _segments(nodes, segments, root, extra):
    for kind, selectors in segments:
        out = []
        for n in nodes:
            if kind == "child":
                for s in selectors:
                    out.extend(_select(n, s, root, extra))
            else:
                for d in _descend(n):
                    for s in selectors:
                        out.extend(_select(d, s, root, extra))
        nodes = out
    return nodes


def _descend(n):
    stack_value, loc = n
    yield n
    if isinstance(stack_value, dict):
        for k, v in stack_value.items():
            yield from _descend((v, (*loc, k)))
    elif isinstance(stack_value, list):
        for i, v in enumerate(stack_value):
            yield from _descend((v, (*loc, i)))


def slice_indices(n, start, end, step):
    """RFC 9535 section 2.3.4.2.2."""
    if step is None:
        step = 1
    if step == 0:
        return []
    if step > 0:
        start = 0 if start is None else start
        end = n if end is None else end
    else:
        start = n - 1 if start is None else start
        end = -n - 1 if end is None else end

    def norm(i):
        return i if i >= 0 else n + i

    ns, ne = norm(start), norm(end)
    if step > 0:
        lower, upper = min(max(ns, 0), n), min(max(ne, 0), n)
    else:
        upper, lower = min(max(ns, -1), n - 1), min(max(ne, -1), n - 1)
    out = []
    if step > 0:
        i = lower
        while i < upper:
            out.append(i)
            i += step
    else:
        i = upper
        while lower < i:
            out.append(i)
            i += step
    return out


def _select(node, sel, root, extra):
    v, loc = node
    k = sel[0]
    if k == "name":
        if isinstance(v, dict) and sel[1] in v:
            yield v[sel[1]], (*loc, sel[1])
    elif k == "index":
        i = sel[1]
        if isinstance(v, list):
            j = i if i >= 0 else len(v) + i
            if 0 <= j < len(v):
                yield v[j], (*loc, j)
        elif isinstance(v, dict) and str(i) in v:  # documented departure
            yield v[str(i)], (*loc, str(i))
    elif k == "slice":
        if isinstance(v, list):
            for i in slice_indices(len(v), *sel[1:]):
                yield v[i], (*loc, i)
    elif k == "wild":
        if isinstance(v, dict):
            for key, x in v.items():
                yield x, (*loc, key)
        elif isinstance(v, list):
            for i, x in enumerate(v):
                yield x, (*loc, i)
    elif k == "filter":
        if isinstance(v, dict):
            for key, x in v.items():
                if truth(sel[1], Ctx(root, x, key, extra)):
                    yield x, (*loc, key)
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if truth(sel[1], Ctx(root, x, i, extra)):
                    yield x, (*loc, i)
    elif k == "keys":
        if isinstance(v, dict):
            for key in v:
                yield key, (*loc, ("~", key))
    else:
        raise AssertionError(sel)


# ------------------------------------------------------------------- filters


def nodes(q, c):
    """The nodelist (values) of a query inside a filter."""
    _, root, segments = q
    if root == "$":
        start = c.root
    elif root == "@":
        start = c.cur
    elif root == "^":
        start = [c.root]
    elif root == "_":
        start = {} if c.extra is None else c.extra
    else:
        raise AssertionError(q)
    return [n[0] for n in _segments([(start, ())], segments, c.root, c.extra)]


def truth(e, c):
    k = e[0]
    if k == "or":
        return any([truth(x, c) for x in e[1:]])
    if k == "and":
        return all([truth(x, c) for x in e[1:]])
    if k == "not":
        return not truth(e[1], c)
    if k == "test":
        return len(nodes(e[1], c)) > 0
    if k == "ftest":
        return bool(call(e[1], e[2], c))
    if k == "cmp":
        return compare(e[1], e[2], e[3], c)
    raise AssertionError(e)


def operand(o, c):
    k = o[0]
    if k == "lit":
        return o[1]
    if k == "sq":
        ns = nodes(o[1], c)
        return ns[0] if ns else NOTHING
    if k == "fn":
        return call(o[1], o[2], c)
    if k == "key":
        return NOTHING if c.key is None else c.key
    if k == "undef":
        return NOTHING
    if k == "list":
        return list(o[1])
    raise AssertionError(o)


def compare(op, l, r, c):
    if op == "=~":
        v = operand(l, c)
        return isinstance(v, str) and re_full(r, v)
    a, b = operand(l, c), operand(r, c)
    if op == "==":
        return equal(a, b)
    if op in ("!=", "<>"):
        return not equal(a, b)
    if op == "<":
        return less(a, b)
    if op == ">":
        return less(b, a)
    if op == "<=":
        return less(a, b) or equal(a, b)
    if op == ">=":
        return less(b, a) or equal(a, b)
    if op == "contains":
        a, b, op = b, a, "in"
    if op == "in":
        if a is NOTHING or b is NOTHING:
            return False
        if isinstance(b, list):
            return any(docs.jeq(a, x) for x in b)
        if isinstance(b, str):
            return isinstance(a, str) and a in b
        if isinstance(b, dict):
            return isinstance(a, str) and a in b
        return False
    raise AssertionError(op)


def equal(a, b):
    if a is NOTHING or b is NOTHING:
        return a is b
    return docs.jeq(a, b)


def less(a, b):
    if docs.is_num(a) and docs.is_num(b):
        return a < b
    if isinstance(a, str) and isinstance(b, str):
        # Unicode scalar values in order
        return [ord(x) for x in a] < [ord(x) for x in b]
    return False


# ----------------------------------------------------------------- functions

PATTERNS = {}  # pattern text -> iregexp AST, filled by generators


def pattern_of(text):
    r = PATTERNS.get(text)
    if r is None and not any(ch in iregexp.META for ch in text):
        r = PATTERNS[text] = iregexp.literal(text)
    return r


def re_full(node, s):
    """node = ("re", mode, payload, flags)."""
    _, r, _, flags = node
    if callable(r):
        return r(s)
    return iregexp.full(r, s)


def call(name, args, c):
    vals = []
    for kind, a in zip(FUNCTIONS[name][0], args):
        if kind == "V":
            vals.append(operand(a, c))
        elif kind == "N":
            vals.append(nodes(a[1], c))
        else:
            vals.append(truth(a[1], c))
    return IMPL[name](*vals)


def f_length(v):
    if isinstance(v, (str, list, dict)):
        return len(v)
    return NOTHING


def f_match(s, p):
    if not (isinstance(s, str) and isinstance(p, str)):
        return False
    r = pattern_of(p)
    if r is None:
        raise rt.Unjudged  # a string no generator made as a pattern
    return iregexp.full(r, s)


def f_search(s, p):
    if not (isinstance(s, str) and isinstance(p, str)):
        return False
    r = pattern_of(p)
    if r is None:
        raise rt.Unjudged  # a string no generator made as a pattern
    return iregexp.search(r, s)


def f_value(ns):
    return ns[0] if len(ns) == 1 else NOTHING


FUNCTIONS = {
    # name: (argument kinds, result kind)
    "length": ("V", "V"),
    "count": ("N", "V"),
    "value": ("N", "V"),
    "match": ("VV", "L"),
    "search": ("VV", "L"),
}
IMPL = {"length": f_length, "count": len, "value": f_value, "match": f_match, "search": f_search}


# ------------------------------------------------------------------- queries


def singular(q):
    """Is q a singular query (RFC 9535 section 2.3.5.1)?"""
    return all(
        kind == "child" and len(sels) == 1 and sels[0][0] in ("name", "index")
        for kind, sels in q[2]
    )


def normalized_path(loc):
    """RFC 9535 section 2.7."""
    out = ["$"]
    for p in loc:
        if isinstance(p, int):
            out.append(f"[{p}]")
        else:
            out.append("['" + "".join(_norm_char(ch) for ch in p) + "']")
    return "".join(out)


def _norm_char(ch):
    m = {"\b": "\\b", "\t": "\\t", "\n": "\\n", "\f": "\\f", "\r": "\\r", "'": "\\'", "\\": "\\\\"}.get(ch)
    if m:
        return m
    if ord(ch) < 0x20:
        return "\\u%04x" % ord(ch)
    return ch


def pointer_text(loc):
    return "".join("/" + str(p).replace("~", "~0").replace("/", "~1") for p in loc)


def shape(doc):
    """(nodes, height, width) of a document."""
    n = height = 0
    width = 1
    stack = [(doc, 1)]
    while stack:
        v, d = stack.pop()
        n += 1
        if d > height:
            height = d
        if isinstance(v, (dict, list)) and v:
            if len(v) > width:
                width = len(v)
            stack.extend((x, d + 1) for x in (v.values() if isinstance(v, dict) else v))
    return n, height, width


def cost(q, n, height, width):
    """An estimate (mostly from above) of how many nodes an evaluation of q on a document of this shape looks at."""

    def query(q, start):
        """start: how many nodes there are below and at the start of the query"""
        if q[0] == "compound":
            return query(q[1], start) + sum(query(r, start) for _, r in q[2])
        count, mass = 1, n if q[1] in "$^" else start
        total = 1
        for kind, sels in q[2]:
            if kind == "desc":
                count, mass = mass, mass * height
                total += count
            c = m = 0
            for s in sels:
                if s[0] in ("wild", "slice", "filter"):
                    k = min(mass, count * width)
                    total += k
                    if s[0] == "filter":
                        total += k * expr(s[1], mass / max(k, 1))
                    c += k
                else:
                    total += count
                    c += count
                m += mass
            count, mass = c, m
        return total

    def expr(e, start):
        k = e[0]
        if k in ("or", "and", "not"):
            return sum(expr(x, start) for x in e[1:])
        if k == "test":
            return query(e[1], start)
        if k == "ftest":
            return args(e[2], start)
        return 1 + oper(e[2], start) + (oper(e[3], start) if e[1] != "=~" else 0)

    def args(xs, start):
        return 1 + sum(query(a[1], start) if a[0] == "nodes" else expr(a[1], start) if a[0] == "logic" else oper(a, start) for a in xs)

    def oper(o, start):
        if o[0] == "sq":
            return query(o[1], start)
        if o[0] == "fn":
            return args(o[2], start)
        return 0

    return query(q, n)


def features(q):
    """Short names of the constructs a query uses (for coverage counts)."""
    out = []

    def query(q):
        if q[0] == "compound":
            query(q[1])
            for op, r in q[2]:
                out.append("op" + op)
                query(r)
            return
        out.append("root" + q[1])
        for kind, sels in q[2]:
            out.append(kind + ("*" if len(sels) > 1 else ""))
            for s in sels:
                out.append(s[0])
                if s[0] == "filter":
                    expr(s[1])

    def expr(e):
        k = e[0]
        out.append("e:" + k)
        if k in ("or", "and", "not"):
            for x in e[1:]:
                expr(x)
        elif k == "test":
            query(e[1])
        elif k == "ftest":
            fn(e[1], e[2])
        elif k == "cmp":
            out.append(e[1])
            oper(e[2])
            oper(e[3])

    def fn(name, args):
        out.append("f:" + name)
        for a in args:
            if a[0] == "nodes":
                query(a[1])
            elif a[0] == "logic":
                expr(a[1])
            else:
                oper(a)

    def oper(o):
        out.append("o:" + o[0])
        if o[0] == "sq":
            query(o[1])
        elif o[0] == "fn":
            fn(o[1], o[2])

    query(q)
    return out


def skeleton(q):
    """The query with names, indices and literals abstracted: a distinct-shape key."""
    if isinstance(q, tuple):
        if q and q[0] in ("name", "index", "lit"):
            return q[0] if q[0] != "lit" else "lit:" + type(q[1]).__name__
        return "(" + " ".join(skeleton(x) for x in q) + ")"
    if isinstance(q, str):
        return q
    if isinstance(q, int) and not isinstance(q, bool):
        return "#" if q >= 0 else "-#"
    if isinstance(q, iregexp.R):
        return "R"
    return type(q).__name__
