"""A small regular-expression AST with its own matcher (no `re`).

Only constructs on which I-Regexp (RFC 9485) and Python `re` agree are
generated; subjects never contain carriage returns or newlines when a `.` is
involved.
"""

from __future__ import annotations

ALPHA = "abc"
SUBJECT_CHARS = "abcxAB01 -._é☺😀"


class R:
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k, self.a = k, a


def gen(rng, depth=3):
    r = rng.random()
    if depth <= 0 or r < 0.3:
        q = rng.random()
        if q < 0.55:
            return R("lit", rng.choice("abcabcxAB01-é☺😀"))
        if q < 0.7:
            return R("dot")
        if q < 0.8:
            return R("lit", rng.choice(".*+?()[]{}|\\"))  # escaped metacharacters
        items = []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.5:
                items.append((c := rng.choice("abcx01é☺"), c))
            else:
                items.append(rng.choice([("a", "c"), ("a", "z"), ("0", "9"), ("A", "B")]))
        return R("cls", rng.random() < 0.25, tuple(items))
    if r < 0.6:
        return R("cat", *[gen(rng, depth - 1) for _ in range(rng.randint(2, 3))])
    if r < 0.75:
        return R("alt", *[gen(rng, depth - 1) for _ in range(rng.randint(2, 3))])
    lo, hi, text = rng.choice(
        [(0, None, "*"), (1, None, "+"), (0, 1, "?"), (2, 2, "{2}"), (1, 2, "{1,2}"), (2, None, "{2,}"), (0, 2, "{0,2}")]
    )
    return R("rep", gen(rng, depth - 1), lo, hi, text)


META = set(".*+?()[]{}|\\^$")


def text(r):
    k = r.k
    if k == "lit":
        c = r.a[0]
        return "\\" + c if c in META else c
    if k == "dot":
        return "."
    if k == "cls":
        neg, items = r.a
        return "[" + ("^" if neg else "") + "".join(a if a == b else f"{a}-{b}" for a, b in items) + "]"
    if k == "cat":
        return "".join("(" + text(x) + ")" if x.k == "alt" else text(x) for x in r.a)
    if k == "alt":
        return "(" + "|".join(text(x) for x in r.a) + ")"
    inner, _, _, t = r.a
    s = text(inner)
    if inner.k not in ("lit", "dot", "cls") and not (s.startswith("(") and inner.k == "alt"):
        s = "(" + s + ")"
    return s + t


def literal(s):
    """The AST matching exactly the text s."""
    return R("cat", *[R("lit", c) for c in s])


def ends(r, s, i):
    """Set of end positions of matches of r in s starting at i."""
    k = r.k
    if k == "lit":
        return {i + 1} if i < len(s) and s[i] == r.a[0] else set()
    if k == "dot":
        return {i + 1} if i < len(s) and s[i] not in "\n\r" else set()
    if k == "cls":
        if i >= len(s):
            return set()
        neg, items = r.a
        hit = any(a <= s[i] <= b for a, b in items)
        return {i + 1} if hit != neg else set()
    if k == "cat":
        cur = {i}
        for x in r.a:
            nxt = set()
            for j in cur:
                nxt |= ends(x, s, j)
            cur = nxt
        return cur
    if k == "alt":
        out = set()
        for x in r.a:
            out |= ends(x, s, i)
        return out
    inner, lo, hi, _ = r.a
    cur = {i}
    for _ in range(lo):
        cur = {e for j in cur for e in ends(inner, s, j)}
    out = set(cur)
    n = lo
    while cur and (hi is None or n < hi):
        cur = {e for j in cur for e in ends(inner, s, j)} - out
        out |= cur
        n += 1
    return out


def full(r, s):
    return len(s) in ends(r, s, 0)


def search(r, s):
    return any(ends(r, s, i) for i in range(len(s) + 1))


def sample(rng, r, depth=6):
    """A string likely to match r."""
    k = r.k
    if k == "lit":
        return r.a[0]
    if k == "dot":
        return rng.choice("abx0☺")
    if k == "cls":
        neg, items = r.a
        if neg:
            for c in "zZ9_b!":
                if not any(a <= c <= b for a, b in items):
                    return c
            return "~"
        a, b = rng.choice(items)
        return chr(rng.randint(ord(a), ord(b)))
    if k == "cat":
        return "".join(sample(rng, x) for x in r.a)
    if k == "alt":
        return sample(rng, rng.choice(r.a))
    inner, lo, hi, _ = r.a
    n = lo + rng.randint(0, 2) if hi is None else rng.randint(lo, hi)
    return "".join(sample(rng, inner) for _ in range(n))
