"""Document-guided generators of abstract JSONPath queries."""

from __future__ import annotations

from . import docs
from . import iregexp
from . import jp
from . import rt

SCALARS = [0, 1, -1, 2, 1.5, 0.0, 1.0, -0.0, 10, 100, True, False, None, "", "a", "b", "ab", "0", "1", "true", "null", "é", "😀", "\ue000"]

CONFUSABLE = SCALARS + [
    [], {}, [0], [False], [1], [True], [1.0], [None], [[]], [{}], ["a"], ["1"], [1, 2], [2, 1], [0, [1, [True]]], [0, [1, [1]]],
    {"a": 1}, {"a": True}, {"a": 1.0}, {"a": False}, {"a": 0}, {"b": 1}, {"a": None}, {"a": [True]}, {"a": [1]},
    {"a": 1, "b": 2}, {"b": 2, "a": 1}, {"a": {"b": False}}, {"a": {"b": 0}}, {"0": 1}, {"a": ""},
]


MOST_COST = 50_000  # looked-at nodes: at worst about a second of the library's time


class QueryGen:
    def __init__(self, rng, doc, *, names=None, max_segments=4, filters=0.0, ext=False, extra=None, desc=0.2, big_int=False):
        self.rng = rng
        self.doc = doc
        self.extra = extra
        self.max_segments = max_segments
        self.filters = filters
        self.ext = ext
        self.desc = desc
        self.big_int = big_int
        self.filter_depth = 2
        nms = set()
        self.size = 0
        for v, loc in docs.walk(doc):
            self.size += 1
            if loc and isinstance(loc[-1], str):
                nms.add(loc[-1])
        self.names = sorted(nms) or ["a"]
        self.all_names = list(names or []) + self.names
        self.nesting = 0
        self.shape = jp.shape(doc)
        self.funcs = ["length", "count", "value", "match", "search"]

    # ------------------------------------------------------------- selectors
    def name(self, node=None):
        rng = self.rng
        if isinstance(node, dict) and node and rng.random() < 0.85:
            return rng.choice(list(node))
        r = rng.random()
        if r < 0.75:
            return rng.choice(self.all_names)
        if r < 0.9:
            return rng.choice(docs.PLAIN)
        return rng.choice(docs.HOSTILE)

    def index(self, n):
        rng = self.rng
        r = rng.random()
        if n and r < 0.75:
            return rng.randint(-n, n - 1)
        if r < 0.95:
            return rng.choice([0, 1, -1, n, -n - 1, n + 1, -n])
        return rng.choice([2**53 - 1, -(2**53) + 1, 2**31, -(2**31) - 1])

    def slice(self, n):
        rng = self.rng

        def bound():
            r = rng.random()
            if r < 0.3:
                return None
            if r < 0.93:
                return rng.randint(-n - 2, n + 2)
            return rng.choice([2**53 - 1, -(2**53) + 1, 1000, -1000])

        r = rng.random()
        if r < 0.35:
            c = None
        elif r < 0.45:
            c = 0
        elif r < 0.95:
            c = rng.choice([1, 2, 3, -1, -1, -2, -3, n or 1, -(n or 1)])
        else:
            c = rng.choice([2**53 - 1, -(2**53) + 1])
        return ("slice", bound(), bound(), c)

    def selector(self, node, keys_ok=True):
        """A selector likely to apply to node."""
        rng = self.rng
        r = rng.random()
        if self.filters and r < self.filters:
            return ("filter", self.expr(node, self.filter_depth))
        r = rng.random()
        if self.ext and keys_ok and r < 0.08:
            return ("keys",)
        r = rng.random()
        if r < 0.15:
            return ("wild",)
        if isinstance(node, dict):
            if r < 0.8:
                return ("name", self.name(node))
            if r < 0.88:
                ks = [k for k in node if k.isascii() and k.isdigit() and (k == "0" or k[0] != "0") and len(k) < 15]
                return ("index", int(rng.choice(ks))) if ks else ("index", self.index(0))
            if r < 0.92:
                return self.slice(3)
            return ("name", self.name())
        if isinstance(node, list):
            if r < 0.5:
                return ("index", self.index(len(node)))
            if r < 0.9:
                return self.slice(len(node))
            return ("name", self.name())
        if isinstance(node, str) and r < 0.6:
            return ("index", self.index(len(node))) if r < 0.35 else self.slice(len(node))
        return rng.choice([("name", self.name()), ("index", self.index(2)), self.slice(3), ("wild",)])

    # --------------------------------------------------------------- queries
    def query(self, root="$", start=None, max_segments=None, min_segments=0, most=MOST_COST):
        """A query; never one whose evaluation would take long for the size of the document."""
        self.nesting += 1
        try:
            q = self._query(root, start, max_segments, min_segments)
        finally:
            self.nesting -= 1
        if self.nesting:
            return q
        for _ in range(8):
            if jp.cost(q, *self.shape) < most:
                return q
            self.nesting += 1
            try:
                q = self._query(root, start, max_segments, min_segments)
            finally:
                self.nesting -= 1
        return ("q", root, ())

    def _query(self, root, start, max_segments, min_segments):
        rng = self.rng
        n = rng.randint(min_segments, self.max_segments if max_segments is None else max_segments)
        if root == "$":
            cur = [self.doc]
        elif root == "^":
            cur = [[self.doc]]
        elif start is not None:
            cur = [start]
        else:
            cur = [None]
        segs = []
        blow = 1
        for _ in range(n):
            node = rng.choice(cur) if cur else None
            kind = "child"
            if rng.random() < self.desc and blow < 2:
                kind = "desc"
                blow += 1
                below = [v for v, _ in docs.walk(node)]
                node = rng.choice(below)
            k = 1 if rng.random() < 0.72 else rng.randint(2, 4)
            sels = []
            for _ in range(k):
                if sels and rng.random() < 0.2:
                    sels.append(rng.choice(sels))  # duplicates matter
                else:
                    sels.append(self.selector(node))
            segs.append((kind, tuple(sels)))
            nxt = []
            for c in cur[:20]:
                cands = [c] if kind == "child" else [v for v, _ in docs.walk(c)]
                for x in cands[:40]:
                    for s in sels:
                        if s[0] == "filter":
                            nxt.extend((list(x.values()) if isinstance(x, dict) else x if isinstance(x, list) else [])[:3])
                        else:
                            nxt.extend(v for v, _ in jp._select((x, ()), s, None, None))
            cur = nxt[:60]
        return ("q", root, tuple(segs))

    def singular(self, root, start):
        rng = self.rng
        n = rng.choice([0, 1, 1, 1, 1, 2, 2, 3])
        node = start
        segs = []
        for _ in range(n):
            if isinstance(node, list):
                s = ("index", self.index(len(node))) if rng.random() < 0.9 else ("name", self.name())
            elif isinstance(node, dict):
                s = ("name", self.name(node)) if rng.random() < 0.95 else ("index", self.index(1))
            else:
                s = rng.choice([("name", self.name()), ("index", self.index(2))])
            segs.append(("child", (s,)))
            got = list(jp._select((node, ()), s, None, None))
            node = got[0][0] if got else None
        return ("q", root, tuple(segs))

    # ----------------------------------------------------------- expressions
    def candidate(self, node):
        rng = self.rng
        if isinstance(node, dict) and node:
            return rng.choice(list(node.values()))
        if isinstance(node, list) and node:
            return rng.choice(node)
        return self.doc

    def pick_root(self, cand):
        rng = self.rng
        r = rng.random()
        if self.ext and r < 0.1 and self.extra is not None:
            return "_", self.extra
        if self.ext and r < 0.14:
            return "^", [self.doc]
        if r < 0.75:
            return "@", cand
        return "$", self.doc

    def expr(self, node, depth, cand=None):
        """A well-typed logical expression for filtering the children of node."""
        rng = self.rng
        if cand is None:
            cand = self.candidate(node)
        r = rng.random()
        if depth > 0 and r < 0.3:
            k = rng.choice(["and", "or"])
            return (k, *[self.expr(node, depth - 1, cand if rng.random() < 0.6 else None) for _ in range(rng.choice([2, 2, 3]))])
        if depth > 0 and r < 0.42:
            return ("not", self.expr(node, depth - 1, cand))
        if r < 0.6:
            root, start = self.pick_root(cand)
            return ("test", self.nested(root, start))
        if r < 0.7 and self.funcs:
            f = self.ftest(node, cand)
            if f:
                return f
        return self.cmp(node, cand)

    def nested(self, root, start, singular_p=0.5):
        """A query nested in a filter (smaller; may itself contain filters)."""
        rng = self.rng
        if rng.random() < singular_p:
            return self.singular(root, start)
        save = self.filters, self.filter_depth, self.desc
        self.filters = 0.3 if self.filter_depth > 0 and self.filters else 0.0
        self.filter_depth -= 1
        self.desc = 0.15
        try:
            return self.query(root, start, max_segments=2, most=MOST_COST // 10)
        finally:
            self.filters, self.filter_depth, self.desc = save

    def cmp(self, node, cand):
        rng = self.rng
        if self.ext and rng.random() < 0.3:
            return self.ext_cmp(node, cand)
        ops = ["==", "==", "!=", "<", "<=", ">", ">="]
        if self.ext:
            ops.append("<>")
        op = rng.choice(ops)
        l = self.operand(cand)
        lv = self.peek(l, cand)
        r = self.literal_near(lv) if rng.random() < 0.5 else self.operand(cand)
        if rng.random() < 0.35:
            l, r = r, l
        return ("cmp", op, l, r)

    def ext_cmp(self, node, cand):
        rng = self.rng
        k = rng.random()
        if k < 0.2:
            q = ("sq", self.singular(*self.pick_root(cand)))
            l, r = q, ("undef",)
            if rng.random() < 0.3:
                l, r = r, l
            return ("cmp", rng.choice(["==", "!=", "<>"]), l, r)
        if k < 0.45:
            l = self.operand(cand) if rng.random() < 0.7 else ("key",)
            return ("cmp", rng.choice(["==", "!=", "<", ">=", "<>"]), l, self.literal_near(self.peek(l, cand))) if l[0] != "key" else (
                "cmp", rng.choice(["==", "!=", "<", ">=", "<>"]), l, ("lit", rng.choice([0, 1, 2, *self.names])))
        if k < 0.7:
            # membership
            l = self.operand(cand) if rng.random() < 0.7 else ("key",)
            lv = self.peek(l, cand)
            if rng.random() < 0.5:
                items = [rng.choice(SCALARS) for _ in range(rng.randint(0, 3))]
                if not isinstance(lv, (dict, list)) and lv is not jp.NOTHING and rng.random() < 0.6:
                    items.append(lv)
                if rng.random() < 0.3:
                    items += rng.sample(self.names, min(2, len(self.names)))
                    items += [rng.choice([0, 1])]
                items = [x for x in items if not (isinstance(x, float) and x != x)]
                r = ("list", tuple(items))
            else:
                r = self.operand(cand)
            if rng.random() < 0.5:
                return ("cmp", "in", l, r)
            return ("cmp", "contains", r, l)
        q = ("sq", self.singular(*self.pick_root(cand)))
        v = self.peek(q, cand)
        return ("cmp", "=~", q, self.regex(v))

    def regex(self, v):
        rng = self.rng
        if isinstance(v, str) and v and v.isascii() and v.isalnum() and rng.random() < 0.5:
            cut = rng.randint(0, len(v))
            r = iregexp.R("cat", *([iregexp.R("lit", c) for c in v[:cut]] + ([iregexp.R("rep", iregexp.R("dot"), 0, None, "*")] if rng.random() < 0.5 or cut == 0 else [])))
        else:
            r = iregexp.gen(rng, 2)
        t = iregexp.text(r)
        if not t or "/" in t or t.startswith(("*", "+", "?")):
            r = iregexp.R("lit", "a")
            t = "a"
        return ("re", r, t, "")

    def operand(self, cand):
        rng = self.rng
        r = rng.random()
        if r < 0.62:
            root, start = self.pick_root(cand)
            return ("sq", self.singular(root, start))
        if r < 0.82 or not self.funcs:
            return ("lit", rng.choice(SCALARS))
        names = [f for f in self.funcs if jp.FUNCTIONS[f][1] == "V"]
        if not names:
            return ("lit", rng.choice(SCALARS))
        return self.fn(rng.choice(names), cand)

    def fn(self, name, cand):
        rng = self.rng
        args = []
        for kind in jp.FUNCTIONS[name][0]:
            if kind == "V":
                if name == "length" and rng.random() < 0.8:
                    root, start = self.pick_root(cand)
                    args.append(("sq", self.singular(root, start)))
                else:
                    args.append(self.operand(cand))
            else:
                root, start = self.pick_root(cand)
                args.append(("nodes", self.nested(root, start, 0.3)))
        return ("fn", name, tuple(args))

    def ftest(self, node, cand):
        rng = self.rng
        names = [f for f in self.funcs if jp.FUNCTIONS[f][1] == "L"]
        if not names:
            return None
        name = rng.choice(names)
        if jp.FUNCTIONS[name][0] != "VV":
            return None
        q = ("sq", self.singular(*self.pick_root(cand))) if rng.random() < 0.85 else self.operand(cand)
        v = self.peek(q, cand)
        r = rng.random()
        if r < 0.75:
            pat = iregexp.gen(rng, rng.randint(0, 3))
            if isinstance(v, str) and v and rng.random() < 0.5:
                pat = iregexp.literal(v if rng.random() < 0.5 else v[: rng.randint(0, len(v))])
            t = iregexp.text(pat)
            if not all(ch not in "\n\r\t" and ord(ch) >= 32 for ch in t) or "$" in t:
                pat = iregexp.literal("a")
                t = "a"
            jp.PATTERNS[t] = pat
            p = ("lit", t)
        else:
            p = self.operand(cand)
            pv = self.peek(p, cand)
            if isinstance(pv, str) and jp.pattern_of(pv) is None:
                p = ("lit", rng.choice([1, None, True]))
        return ("ftest", name, (q, p))

    def peek(self, o, cand):
        try:
            return jp.operand(o, jp.Ctx(self.doc, cand, None, self.extra))
        except (RecursionError, rt.Unjudged):
            return jp.NOTHING

    def literal_near(self, v):
        """A literal that is likely to compare interestingly with v."""
        rng = self.rng
        if v is jp.NOTHING or isinstance(v, (list, dict)):
            if isinstance(v, (list, dict)) and rng.random() < 0.3:
                return ("lit", rng.choice([len(v), True, None]))
            return ("lit", rng.choice(SCALARS))
        r = rng.random()
        if r < 0.5:
            return ("lit", v)
        if docs.is_num(v):
            if r < 0.8 and abs(v) < 1e300:
                w = v + rng.choice([-1, 1, 0.5, -0.5, 0.0])
                return ("lit", w if abs(w) < 2**53 else v)
            return ("lit", rng.choice([True, False, str(v), None]))
        if isinstance(v, bool):
            return ("lit", rng.choice([int(v), not v, str(v).lower(), None, float(v)]))
        if isinstance(v, str):
            return ("lit", docs.near_string(rng, v) if rng.random() < 0.5 else rng.choice([v + "a", v[:-1], v.upper(), "", 0, True, "\uffff", "😀"]))
        return ("lit", rng.choice([0, "", False, "null"]))

    def compound(self, n=None):
        rng = self.rng
        first = self.query("$" if rng.random() < 0.9 or not self.ext else "^")
        rest = []
        for _ in range(rng.randint(1, 3) if n is None else n):
            rest.append((rng.choice("|&"), self.query("$" if rng.random() < 0.85 or not self.ext else "^")))
        return ("compound", first, tuple(rest))
