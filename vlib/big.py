"""Large inputs: wide and deep documents, long names, long queries.

Ordinary random cases are small; a defect behind a size (a cap on depth, digits,
items, operators or name length) needs one dimension pushed far while the rest
stays small, so that a case still runs in milliseconds.
"""

from __future__ import annotations

from . import docs
from . import genq
from . import iregexp
from . import jp

SIZES = [9, 10, 11, 12, 15, 16, 17, 20, 25, 31, 32, 33, 40, 50, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257]


def size(rng, most=260, least=0):
    r = rng.random()
    if r < 0.7:
        return rng.choice([s for s in SIZES if least <= s <= most])
    return rng.randint(max(least, 1), most)


def long_name(rng, most=300):
    n = size(rng, most)
    r = rng.random()
    if r < 0.4:
        return "".join(rng.choice("abcdefgxyzABC_0123456789") for _ in range(n)).lstrip("0123456789") or "a"
    if r < 0.6:
        return "".join(rng.choice("aé😀b\u2028\uffff") for _ in range(n))
    if r < 0.8:
        return "".join(rng.choice("a'\"\\/~\n\t []$.b") for _ in range(n))
    return rng.choice("ab") * n


def long_string(rng, most=300):
    return long_name(rng, most)


class Maker:
    def __init__(self, rng, names=None):
        self.rng = rng
        self.n = 0
        self.names = names or rng.choice([["a", "b", "c"], ["a", "b", "0", "1", "10", "12"], ["k", "é", "a b", "it's"], ["a"]])

    def leaf(self):
        rng = self.rng
        self.n += 1
        r = rng.random()
        if r < 0.5:
            return 100 + self.n
        if r < 0.7:
            return "s%d" % self.n
        if r < 0.8:
            return self.n + 0.25
        if r < 0.85:
            return rng.choice(["", None, True, False, 0, [], {}])
        if r < 0.9:
            return rng.randint(10**9, 2**53 - 1) * rng.choice([1, -1])
        if r < 0.95:
            return round(rng.uniform(-1000, 1000), rng.randint(5, 12))
        return long_string(rng, 140)

    def small(self, d=2):
        rng = self.rng
        if d <= 0 or rng.random() < 0.5:
            return self.leaf()
        if rng.random() < 0.5:
            return [self.small(d - 1) for _ in range(rng.randint(0, 3))]
        return {k: self.small(d - 1) for k in rng.sample(self.names, rng.randint(0, min(3, len(self.names))))}

    def array(self, n, d=1):
        return [self.small(d) for _ in range(n)]

    def object(self, n, d=1):
        rng = self.rng
        style = rng.choice(["k%d", "%d", "k%d", "%d ", "é%d", "long"])
        out = {}
        order = list(range(n))
        if rng.random() < 0.5:
            rng.shuffle(order)
        for i in order:
            k = (style % i) if style != "long" else rng.choice("ab") * 70 + str(i)
            out[k] = self.small(d)
        return out

    def chain(self, d, side=0.15):
        """A chain of containers d deep with a little on the side."""
        rng = self.rng
        v = self.leaf()
        mode = rng.choice(["mix", "mix", "arr", "obj"])
        for _ in range(d):
            if mode == "arr" or (mode == "mix" and rng.random() < 0.5):
                v = [v]
                if rng.random() < side:
                    v.insert(rng.randint(0, 1), self.small(1))
            else:
                k = rng.choice(self.names)
                v = {k: v}
                if rng.random() < side:
                    k2 = rng.choice(self.names)
                    if k2 != k:
                        v = {k2: self.small(1), **v} if rng.random() < 0.5 else {**v, k2: self.small(1)}
        return v

    def document(self, most=260, depth=100):
        """(document, kind)"""
        rng = self.rng
        kind = rng.choice(["array", "object", "chain", "names", "grid", "both"])
        if kind == "array":
            v = self.array(size(rng, most), rng.choice([0, 1, 2]))
        elif kind == "object":
            v = self.object(size(rng, most), rng.choice([0, 1, 2]))
        elif kind == "chain":
            v = self.chain(size(rng, depth))
        elif kind == "names":
            v = {}
            for _ in range(rng.randint(1, 5)):
                v[long_name(rng)] = self.small(2)
            inner = long_name(rng)
            v[rng.choice(self.names)] = {inner: {inner: self.leaf()}, inner[:-1]: self.leaf(), inner + "a": self.leaf()}
        elif kind == "grid":
            k = rng.randint(10, 16)
            v = [self.array(k, 0) if rng.random() < 0.5 else self.object(k, 0) for _ in range(k)]
        else:
            v = self.chain(size(rng, depth // 2))
            w = self.array(size(rng, most // 2), 0) if rng.random() < 0.5 else self.object(size(rng, most // 2), 0)
            v = rng.choice([lambda: [v, w], lambda: {"v": v, "w": w}, lambda: {"a": w, "b": v}])()
        r = rng.random()
        if r < 0.2:
            v = {"a": v, "b": self.leaf()}
        elif r < 0.3:
            v = [self.leaf(), v]
        return v, kind


def big_index(rng, n):
    r = rng.random()
    if n and r < 0.8:
        return rng.randint(-n, n - 1)
    return rng.choice([n, -n - 1, n + 1, n * 10, -n * 10, 10**6])


def big_slice(rng, n):
    b = lambda: None if rng.random() < 0.25 else rng.randint(-n - 3, n + 3) if rng.random() < 0.9 else rng.choice([10**4, -(10**4), 10**9])  # noqa: E731
    c = rng.choice([None, None, 1, -1, 2, 3, 7, -2, -5, 10, 11, -10, 12, -13, 25, 64, 100, -100, n, -n, 0])
    return ("slice", b(), b(), c)


def select(rng, node, names):
    if isinstance(node, list):
        r = rng.random()
        n = len(node)
        if r < 0.5:
            return ("index", big_index(rng, n))
        if r < 0.85:
            return big_slice(rng, n)
        return ("wild",)
    if isinstance(node, dict) and node:
        r = rng.random()
        if r < 0.85:
            return ("name", rng.choice(list(node)))
        if r < 0.95:
            return ("wild",)
    return rng.choice([("wild",), ("name", rng.choice(names)), ("index", rng.choice([0, -1, 10]))])


def query(rng, doc, *, segments=None, many=0.35, desc=0.12, most_nodes=400):
    """A long or broad query guided by the document (no filters)."""
    names = sorted({loc[-1] for _, loc in docs.walk(doc) if loc and isinstance(loc[-1], str)}) or ["a"]
    limit = segments if segments is not None else rng.choice([1, 2, 3, 5, 10, 20, 40, 120])
    cur = [doc]
    segs = []
    spent_desc = 0
    follow = rng.random() < 0.7  # go down as far as the document does
    for _ in range(limit):
        inner = [x for x in cur if isinstance(x, (list, dict)) and x]
        if not inner and follow:
            break
        node = rng.choice(inner or cur or [None])
        kind = "child"
        if spent_desc < 2 and len(cur) < 8 and rng.random() < desc:
            kind = "desc"
            spent_desc += 1
            below = [v for v, _ in docs.walk(node)]
            node = rng.choice(below)
        k = 1
        if rng.random() < many and len(cur) < 10:
            k = rng.choice([2, 3, 9, 10, 11, 16, 17, 25, 32, 33, 40])
            if kind == "desc":
                k = min(k, 4)
        sels = []
        for _ in range(k):
            if sels and rng.random() < 0.1:
                sels.append(rng.choice(sels))
            else:
                sels.append(select(rng, node, names))
        if k > 4:  # broad lists of broad selectors grow too fast
            sels = [s if s[0] in ("name", "index") or rng.random() < 0.15 else ("index", rng.choice([0, 1, -1, 10])) for s in sels]
        nxt = []
        for c in cur[:200]:
            cands = [c] if kind == "child" else [v for v, _ in docs.walk(c)]
            for x in cands:
                for s in sels:
                    nxt.extend(v for v, _ in jp._select((x, ()), s, None, None))
                    if len(nxt) > most_nodes * 4:
                        break
        if len(nxt) > most_nodes:
            sels = [select(rng, node, names)]
            kind = "child"
            if sels[0][0] in ("wild", "slice"):
                sels = [("index", rng.choice([0, -1]))] if isinstance(node, list) else [("name", rng.choice(names))]
            nxt = [v for c in cur for v, _ in jp._select((c, ()), sels[0], None, None)]
        segs.append((kind, tuple(sels)))
        cur = nxt
    return ("q", "$", tuple(segs))


def atoms(rng, doc, kids):
    """Small expressions over the candidates."""
    qg = genq.QueryGen(rng, doc, filters=0.0)
    qg.funcs = ["length", "count", "value"]
    return [qg.expr(kids, 0) for _ in range(rng.randint(3, 8))]


def long_expr(rng, doc, kids, ext=False):
    """A long filter expression: chains, deep groups, long lists, long literals."""
    pool = atoms(rng, doc, kids)
    pick = lambda: rng.choice(pool)  # noqa: E731
    r = rng.random()
    n = rng.choice([3, 4, 5, 6, 8, 9, 10, 11, 15, 16, 17, 20, 30, 33])
    if r < 0.3:
        op = rng.choice(["and", "or"])
        e = (op, *[pick() for _ in range(n)])
    elif r < 0.5:
        # a mixed chain: runs of && joined by ||
        runs = []
        for _ in range(rng.randint(2, 6)):
            k = rng.randint(1, 6)
            runs.append(pick() if k == 1 else ("and", *[pick() for _ in range(k)]))
        e = ("or", *runs)
    elif r < 0.75:
        # deep: every level flips operator or negates
        e = pick()
        for i in range(min(n, 20)):
            k = rng.random()
            if k < 0.35:
                e = ("not", e) if e[0] != "not" else ("and", e, pick())
            elif k < 0.7:
                e = ("and", pick(), e) if rng.random() < 0.5 else ("and", e, pick())
            else:
                e = ("or", pick(), e) if rng.random() < 0.5 else ("or", e, pick())
    else:
        cand = kids[rng.randrange(len(kids))] if isinstance(kids, list) and kids else None
        sq = ("sq", ("q", "@", ()))
        vals = list(kids.values()) if isinstance(kids, dict) else list(kids) if isinstance(kids, list) else []
        scal = [v for v in vals if not isinstance(v, (list, dict))] or [1]
        v = rng.choice(scal)
        if isinstance(v, str) and (len(v) > 100 or not v.isascii() and False):
            v = v[:100]
        e = ("cmp", rng.choice(["==", "!=", "<", "<=", ">", ">="]), sq, ("lit", v))
        if rng.random() < 0.5:
            e = ("or", e, ("cmp", "==", sq, ("lit", rng.choice(scal))), ("cmp", "==", ("fn", "length", (sq,)), ("lit", rng.choice([0, 1, 10, 20, 63, 64, 65, 100, 128]))))
        del cand
    return e


__all__ = ["Maker", "big_index", "big_slice", "iregexp", "long_expr", "long_name", "long_string", "query", "select", "size"]
