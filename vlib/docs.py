"""JSON values: generators, strict equality, walking.  Independent of the library."""

from __future__ import annotations

import json

PLAIN = ["a", "b", "c", "d", "aa", "x_1", "k-v"]

RESERVED = [
    "and", "or", "not", "in", "contains", "true", "false", "null", "nil", "none",
    "undefined", "missing", "True", "False", "Null", "Nil", "None",
]

HOSTILE = [
    "", " ", "  a", "a ", "a b", "0", "1", "2", "-1", "00", "01", "-0", "+1", "1.0",
    "1e0", "10", "9007199254740993", "9007199254740991", "-9007199254740991", "4503599627370497", "4294967296", "'", '"', "\\", "\\\\", "a\\", "\\'", '\\"', "a'b", 'a"b', "\\n", "\\u0041",
    "/", "a/b", "~", "~0", "~1", "~01", "~a", "m~n", "#", "#a", "#0", "%", "%41", "a%20b",
    "$", "$.a", "@", "@.a", "^", "_", "_a", "*", ".", "..", "a.b", "[", "]", "['a']", "[0]", "?", ",", ":", "-",
    "|", "&", "||", "&&", "!", "(", ")", "==", "<>", "=~",
    "\u0000", "\u0001", "\b", "\t", "\n", "\f", "\r", "\u000b", "\u001f", "\u007f", "\u0080", "\u00a0",
    "é", "e\u0301", "☺", "☺b", "\u2028", "\u2029", "\u200b", "\ud7ff", "\ue000", "\ufeff", "\ufffd", "\uffff", "😀", "x😀y", "\U0010ffff", "\U00010000",
    "١", "１", "²", "length", "keys", "items", "get", "__class__", "__len__", "name", "value", "then a", "a\nb",
] + RESERVED


# Strings that some normalisation, folding, trimming or numeric reading would identify.
ALIKE = [
    ["é", "e\u0301", "É", "E\u0301", "e"],
    ["Å", "A\u030a", "\u212b", "å", "A"],
    ["ß", "ss", "SS", "ẞ", "ſs", "s"],
    ["K", "k", "\u212a", "к"],
    ["ﬁ", "fi", "FI", "f\u200bi", "f\u00adi"],
    ["i", "I", "ı", "İ", "i\u0307"],
    ["가", "\u1100\u1161", "\u3131"],
    ["½", "1/2", "1⁄2", "0.5"],
    ["1", "１", "١", "01", "1.0", "+1", " 1", "1 ", "1e0", "²"],
    ["a", "a ", " a", "a\u0000", "a\n", "\ta", "a\u00a0", "A", "ａ", "\ufeffa", "а"],
    ["", " ", "\u0000", "\u200b", "\n", "\u00a0", "\ufeff", "\u2060"],
    ["ab", "a\u200db", "a\u0000b", "aB", "a b", "a  b", "a\tb", "ba", "abab"],
    ["\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0010ffff", "z"],
    ["😀", "☺", "☺\ufe0f", "👩\u200d👩", "👩", "\U0001f3fb"],
    ["null", "None", "nil", "Null", "undefined", "NULL"],
    ["true", "True", "TRUE", "1", "yes"],
    ["\\", "\\\\", "/", "\\/", "\\u005c", "%5C"],
    ["'", '"', "\\'", "`", "’", "''"],
    ["~", "~0", "~1", "~01", "/", "%2F", "%7E"],
    ["x" * 40 + "1", "x" * 40 + "2", "x" * 40, "x" * 41],
]


def near_string(rng, s):
    """A string that is easily mistaken for s."""
    import unicodedata

    for f in ALIKE:
        if s in f and rng.random() < 0.6:
            return rng.choice(f)
    return rng.choice([
        s + "a", s[:-1], s[1:], s.upper(), s.lower(), s.swapcase(), s.casefold(), s + " ", " " + s, s + "\u0000", s + "\n", s[::-1], s + s,
        unicodedata.normalize("NFD", s), unicodedata.normalize("NFC", s), unicodedata.normalize("NFKC", s), s + "\u0301", "\ufeff" + s, s.strip(),
        s.replace("a", "b", 1), s + "😀", "",
    ])


def near_names(rng, n):
    """Distinct names, perhaps long ones, that differ little from one another."""
    base = "".join(rng.choice("abAB01 -_é\u0301") for _ in range(rng.choice([1, 3, 10, 30, 70, 200])))
    out = {base: 0}
    while len(out) < n:
        s = rng.choice(list(out))
        i = rng.randrange(len(s)) if s else 0
        if rng.random() < 0.4:
            s = near_string(rng, s)
        else:
            s = s[:i] + rng.choice([s[i : i + 1].swapcase(), "", " ", "  ", rng.choice("abAB019-_ é")]) + s[i + rng.choice([0, 1]) :]
        out[s] = len(out)
        if rng.random() < 0.05:
            break
    return list(out)


def near_docs(rng):
    """A document of near names, and the locations of its leaves."""
    out = {}
    locs = []
    for name in near_names(rng, rng.randint(2, 6)):
        out[name] = v = {} if rng.random() < 0.7 else 1000 + len(locs)
        if v == {}:
            for last in near_names(rng, rng.randint(1, 3)):
                v[last] = 1000 + len(locs)
                locs.append((name, last))
        else:
            locs.append((name,))
    head = rng.choice([(), (near_names(rng, 1)[0],), (near_names(rng, 1)[0], 1)])
    for h in reversed(head):
        out = {h: out} if isinstance(h, str) else [None] * h + [out]
    return out, [head + l for l in locs]


def alike(rng):
    """Documents, perhaps big ones, whose JSON texts are equally long and differ
    in one place; with the location of that place."""
    n = rng.choice([2, 5, 20, 60, 150, 500])
    leaf = lambda: rng.choice([rng.randint(100, 999), "s%d" % rng.randint(10, 99), True, None])  # noqa: E731
    base = [leaf() for _ in range(n)]
    i = rng.choice([0, n - 1, n // 2, rng.randrange(n), rng.randrange(n)])
    loc = (i,)
    kind = rng.choice(["int", "str", "bool"])
    values = {"int": rng.sample(range(100, 1000), 3), "str": ["ab", "aB", "ba"], "bool": [True, None]}[kind]
    out = []
    wrap = rng.choice(["list", "dict", "nested", "rows"])
    for v in values:
        d = list(base)
        d[i] = v
        if wrap == "dict":
            d, loc = {"k%d" % j: x for j, x in enumerate(d)}, ("k%d" % i,)
        elif wrap == "nested":
            d, loc = {"a": {"b": d}}, ("a", "b", i)
        elif wrap == "rows":
            d, loc = [{"a": x} for x in d], (i, "a")
        out.append(d)
    return out, loc


def mutate(rng, doc):
    """Change the document in place, somewhere."""
    v, _ = rng.choice([(v, l) for v, l in walk(doc) if isinstance(v, (dict, list))])
    new = rng.choice([0, "changed", None, [], {}, ["x", {"a": 1}], {"a": [1], "0": 2}])
    if not v:
        if isinstance(v, list):
            v.append(new)
        else:
            v[rng.choice(["a", "0", ""])] = new
        return
    if isinstance(v, list):
        i = rng.randrange(len(v))
        how = rng.random()
        if how < 0.5:
            v[i] = new
        elif how < 0.75:
            v.insert(i, new)
        else:
            del v[i]
        return
    k = rng.choice(list(v))
    if rng.random() < 0.7:
        v[k] = new
    else:
        del v[k]


def alias(rng, doc, n=3):
    """Let one container be found at several places of the document (in place)."""
    for _ in range(rng.randint(1, n)):
        spots = [(v, loc) for v, loc in walk(doc) if isinstance(v, (list, dict))]
        src, sloc = rng.choice(spots)
        dst, dloc = rng.choice(spots)
        if len(spots) > 400 or dloc[: len(sloc)] == sloc or any(v is dst for v, _ in walk(src)):
            continue
        if isinstance(dst, list):
            i = rng.randint(0, len(dst))
            if i < len(dst) and rng.random() < 0.5:
                dst[i] = src
            else:
                dst.insert(i, src)
        elif dst:
            dst[rng.choice(list(dst))] = src
    return doc


# Strings found inside a document are strings, whatever they could be read as.
TEXTS = [
    '{"a": %d}', "[%d]", '{"a": [%d, {"b": 2}], "b": "c"}', '"s%d"', "%d", "-%d", "%d.5", "[%d", "{%d", "}%d]", '[[%d], ["a"], []]', "/a/%d", "$.a[%d]", "#/%d",
    "@.a[%d]", "%d#", "%d/a", "%%7E%d", "\\u00%d", "null%d", '{"%d": null}', " [%d] ", "['%d']",
]


def fresh_str(rng, n):
    """A string object that is equal to nothing else in the document."""
    return "s%d" % n


class DocGen:
    """Random JSON documents.

    unique=True numbers every leaf so that any dropped, repeated or reordered
    value is visible in a list of values.
    """

    def __init__(self, rng, *, names=None, unique=True, depth=4, width=4, hostile=0.3, leaves=None, texts=0.04):
        self.rng = rng
        self.unique = unique
        self.depth = depth
        self.width = width
        self.n = 0
        self.leaves = leaves
        self.texts = texts
        if names is None:
            k = rng.randint(2, 5)
            names = rng.sample(PLAIN, min(k, len(PLAIN)))
            if rng.random() < hostile:
                names = names[: rng.randint(0, 2)] + rng.sample(HOSTILE, rng.randint(2, 6))
                if rng.random() < 0.15:
                    names = list(rng.choice(ALIKE))
        self.names = names

    def leaf(self):
        rng = self.rng
        if self.leaves is not None:
            return rng.choice(self.leaves)
        if self.texts and rng.random() < self.texts:
            self.n += 1
            return rng.choice(TEXTS) % self.n
        if not self.unique:
            return rng.choice([0, 1, -1, 1.5, True, False, None, "", "a", "abc", "0", 12, 3])
        self.n += 1
        r = rng.random()
        if r < 0.45:
            return 100 + self.n
        if r < 0.75:
            return "s%d" % self.n
        if r < 0.85:
            return self.n + 0.5
        return rng.choice([None, True, False, "", 0])

    def value(self, depth=None, container=False):
        rng = self.rng
        d = self.depth if depth is None else depth
        if d <= 0 or (not container and rng.random() < 0.28):
            return self.leaf()
        width = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6]) if rng.random() < 0.9 else rng.randint(0, 12)
        width = min(width, self.width + 2) if d > 2 else min(width, self.width + 6)
        if rng.random() < 0.5:
            return [self.value(d - 1) for _ in range(width)]
        keys = []
        for _ in range(width):
            k = rng.choice(self.names)
            if k not in keys:
                keys.append(k)
        return {k: self.value(d - 1) for k in keys}

    def document(self):
        v = self.value(container=self.rng.random() < 0.97)
        # A document given as a string is JSON text, by the library's documentation.
        return "s0" if isinstance(v, str) and ("[" in v or "{" in v or v[:1] in '"-0123456789') else v


def walk(value, loc=()):
    """All nodes of a document as (value, location), pre-order."""
    yield value, loc
    if isinstance(value, dict):
        for k, v in value.items():
            yield from walk(v, (*loc, k))
    elif isinstance(value, list):
        for i, v in enumerate(value):
            yield from walk(v, (*loc, i))


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def jeq(a, b):
    """JSON equality: deep; numbers compare by value; booleans are not numbers."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if is_num(a) or is_num(b):
        return is_num(a) and is_num(b) and a == b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(jeq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(isinstance(k, str) and k in b and jeq(v, b[k]) for k, v in a.items()) and all(isinstance(k, str) for k in b)
    return False


def same(a, b):
    """Strict sameness of JSON values: types, member order and float/int kept apart."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(type(k) is str for k in a) and all(type(k) is str for k in b) and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


def same_list(xs, ys):
    return len(xs) == len(ys) and all(same(x, y) for x, y in zip(xs, ys))


def clone(v):
    """Deep copy of a JSON value (scalars shared)."""
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    if isinstance(v, list):
        return [clone(x) for x in v]
    return v


def fingerprint(v):
    """A text that determines the value including types and member order."""
    if isinstance(v, dict):
        return "{" + ",".join(f"{k!r}:{fingerprint(x)}" for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ",".join(fingerprint(x) for x in v) + "]"
    return f"{type(v).__name__}{v!r}"


def resolve(doc, loc):
    for p in loc:
        doc = doc[p]
    return doc


def canonical_value(v):
    """Order-insensitive fingerprint: equal iff JSON-equal (numbers by value)."""
    if isinstance(v, bool) or v is None:
        return repr(v)
    if isinstance(v, dict):
        return "{" + ",".join(f"{k!r}:{canonical_value(v[k])}" for k in sorted(v)) + "}"
    if isinstance(v, list):
        return "[" + ",".join(canonical_value(x) for x in v) + "]"
    if isinstance(v, float) and v.is_integer():
        return repr(int(v))
    return repr(v)


def shape(v, depth=3):
    """A coarse shape used to count distinct document structures."""
    if isinstance(v, dict):
        return "{" + ",".join(shape(x, depth - 1) for x in v.values()) + "}" if depth else "{*}"
    if isinstance(v, list):
        return "[" + ",".join(shape(x, depth - 1) for x in v) + "]" if depth else "[*]"
    return {bool: "b", int: "i", float: "f", str: "s", type(None): "n"}.get(type(v), "?")


def to_json(v, **kw):
    return json.dumps(v, **kw)
