"""Query texts beyond what the reference evaluator models.

For the properties that compare the library with itself (sync/async, cached or
not, text round trips, entry points) no reference meaning is needed, so queries
can use every construct the parser accepts, in any combination, spelled at
random, plus mutated texts.  Everything here is independent of the library.
"""

from __future__ import annotations

from . import big
from . import docs
from . import genq
from . import iregexp
from . import jp
from . import render

NAME_SETS = [
    ["a", "b", "c"],
    ["a", "b", "x", "y"],
    ["a", "0", "1", "x_1"],
    ["k-v", "é", "a", "order", "inner"],
    ["a", "b", "nothing", "android", "in-stock"],
    ["a b", "it's", 'q"q', "\\", "~", "/", "", "\n"],
    ["and", "or", "not", "in", "true", "nil", "missing"],
]

STRINGS = ["", "a", "b", "ab", "aa", "abc", "A", "aB", "a\nb", "0", "1", "true", "é", "😀", "it's", 'q"q', "\\", "a/b", "x y", "/", "#", "$", "@", "\u0000", "\u2028"]

TYPES = ["string", "number", "int", "float", "boolean", "bool", "null", "nil", "array", "list", "sequence", "object", "dict", "mapping", "undefined", "missing"]

REGEXES = ["a", "a.*", ".*", "^a", "b$", "[a-c]+", "[^a]", "(a|b)+", "a?b", "\\d+", "\\w", "a{1,2}", ".", "\\.", "A", "a b", "\\s", "é", "\\u0061", "\\/", "a\\\\b", "[/]", "(?:a)b?", "x*"]
FLAGS = ["", "", "", "i", "s", "m", "a", "im", "is", "ims", "ai"]


def make(rng, names=None):
    """A document and a filter context."""
    if names is None:
        names = rng.choice(NAME_SETS) if rng.random() < 0.85 else rng.sample(docs.HOSTILE, 5)
    leaves = genq.SCALARS + STRINGS if rng.random() < 0.6 else genq.SCALARS
    g = docs.DocGen(rng, names=names, unique=False, depth=rng.randint(1, 4), leaves=leaves)
    doc = g.value(container=rng.random() < 0.96)
    eg = docs.DocGen(rng, names=["a", "b", "x"], unique=False, depth=3, leaves=genq.SCALARS)
    extra = {k: eg.value() for k in rng.sample(["a", "b", "x", "who"], rng.randint(1, 3))}
    if rng.random() < 0.2:
        extra = {}
    return doc, extra


def renderer(rng, ext=0.4, **kw):
    r = render.Renderer(
        rng,
        blanks=rng.choice([0, 0, 0.1, 0.4]),
        escapes=rng.choice([0, 0, 0.1]),
        brackets=rng.random(),
        parens=rng.choice([0, 0.1, 0.4]),
        ext=ext,
        **kw,
    )
    r.bare = rng.choice([0, 0.5])
    return r


def ast(rng, doc, extra, *, ext=None, compound=0.15, filters=0.3, max_segments=3):
    """A random abstract query over the reference language."""
    ext = rng.random() < 0.7 if ext is None else ext
    qg = genq.QueryGen(rng, doc, filters=rng.choice([0, filters, filters]), ext=ext, extra=extra, max_segments=max_segments)
    if rng.random() < compound:
        return qg.compound()
    return qg.query("$" if rng.random() < 0.92 or not ext else "^")


# -------------------------------------------------------------- wild grammar


class Wild:
    """Random texts of the whole accepted grammar (and a little beyond)."""

    def __init__(self, rng, doc, extra, tokens=None, blanks=0.2, legacy=False):
        self.rng = rng
        self.doc = doc
        self.t = {c: c for c in "$@^_#~|&"}
        if tokens:
            self.t.update(tokens)
        self.r = render.Renderer(rng, blanks=blanks, escapes=0.1, brackets=0.5, parens=0.1, ext=0.4, tokens=self.t)
        self.names = sorted({loc[-1] for _, loc in docs.walk(doc) if loc and isinstance(loc[-1], str)}) or ["a"]
        self.strings = [v for v, _ in docs.walk(doc) if isinstance(v, str)] + STRINGS
        self.scalars = [v for v, _ in docs.walk(doc) if not isinstance(v, (dict, list))] + genq.SCALARS
        self.extra_names = sorted(extra) or ["a"]
        self.legacy = legacy

    def S(self):
        return self.r.S()

    def W(self):
        return self.rng.choice([" ", " ", "  ", "\n", "\t "])

    # queries
    def query(self, root=None, depth=2, singular=False, maxseg=3):
        rng = self.rng
        if root is None:
            root = "$" if rng.random() < 0.93 else "^"
        out = [self.t[root]]
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3][: maxseg * 2 + 1])):
            out.append(self.segment(depth, singular, root))
        return "".join(out)

    def name(self, root):
        rng = self.rng
        if root == "_" and rng.random() < 0.8:
            return rng.choice(self.extra_names)
        return rng.choice(self.names) if rng.random() < 0.9 else rng.choice(docs.HOSTILE)

    def segment(self, depth, singular, root):
        rng = self.rng
        r = rng.random()
        if singular:
            if r < 0.6:
                n = self.name(root)
                return "." + n if render.is_shorthand(n) and rng.random() < 0.6 else "[" + self.r.string(n) + "]"
            return f"[{rng.choice([0, 1, 2, -1, -2])}]"
        if r < 0.3:
            n = self.name(root)
            dots = "." if rng.random() < 0.8 else ".."
            return dots + n if render.is_shorthand(n) else "[" + self.r.string(n) + "]"
        if r < 0.4:
            return rng.choice([".*", "..*", "[*]", "..[*]"])
        if r < 0.44:
            return rng.choice([".", "", ".."]) + ("[" + self.t["~"] + "]") if rng.random() < 0.5 else rng.choice([".", ".."]) + self.t["~"]
        dots = ".." if rng.random() < 0.15 else ""
        n = rng.choice([1, 1, 1, 2, 3])
        return dots + "[" + self.S() + (self.S() + "," + self.S()).join(self.selector(depth, root) for _ in range(n)) + self.S() + "]"

    def selector(self, depth, root):
        rng = self.rng
        r = rng.random()
        if r < 0.22:
            n = self.name(root)
            return n if render.is_shorthand(n) and n not in docs.RESERVED and not n.startswith("_") and self.r.bare_ok(n) and rng.random() < 0.3 else self.r.string(n)
        if r < 0.38:
            return str(rng.choice([0, 1, 2, -1, -2, 7, -7]))
        if r < 0.5:
            b = lambda: rng.choice(["", "", "0", "1", "2", "-1", "-2", "5"])  # noqa: E731
            return b() + ":" + b() + rng.choice(["", ":", ":1", ":2", ":-1", ":0", ":-2"])
        if r < 0.57:
            return "*"
        if r < 0.61:
            return self.t["~"]
        if depth <= 0:
            return "*"
        return "?" + self.S() + self.expr(depth)

    # expressions
    def expr(self, depth):
        rng = self.rng
        r = rng.random()
        if depth > 0 and r < 0.3:
            op = rng.choice(["&&", "||", "and", "or", "&&", "||"])
            parts = [self.expr(depth - 1) for _ in range(rng.choice([2, 2, 3]))]
            if op.isalpha():
                return (self.W() + op + self.W()).join(parts)
            return (self.S() + op + self.S()).join(parts)
        if depth > 0 and r < 0.42:
            body = self.expr(depth - 1)
            if rng.random() < 0.85:
                body = "(" + self.S() + body + self.S() + ")"
            return "!" + self.S() + body if rng.random() < 0.7 else "not" + self.W() + body
        if depth > 0 and r < 0.55:
            return "(" + self.S() + self.expr(depth - 1) + self.S() + ")"
        return self.basic(depth)

    def sub(self, depth, singular=None):
        rng = self.rng
        root = rng.choice(["@", "@", "@", "@", "$", "_", "^"]) if rng.random() < 0.95 else "^"
        return self.query(root, depth - 1, rng.random() < 0.6 if singular is None else singular)

    def basic(self, depth):
        rng = self.rng
        r = rng.random()
        if r < 0.25:
            return self.sub(depth)
        if r < 0.4:
            return self.lfunc(depth)
        if r < 0.5:
            return self.operand(depth) + self.S() + "=~" + self.S() + self.regex()
        if r < 0.6:
            l, x = self.operand(depth), self.container(depth)
            if rng.random() < 0.5:
                return l + self.W() + "in" + self.W() + x
            return x + self.W() + "contains" + self.W() + l
        op = rng.choice(["==", "!=", "<", "<=", ">", ">=", "<>", "=="])
        return self.operand(depth) + self.S() + op + self.S() + self.operand(depth)

    def container(self, depth):
        rng = self.rng
        if rng.random() < 0.5:
            n = rng.randint(0, 3)
            return "[" + ", ".join(self.literal() for _ in range(n)) + "]" if n else "[1]"
        return self.sub(depth) if rng.random() < 0.8 else self.literal()

    def regex(self):
        rng = self.rng
        return "/" + rng.choice(REGEXES) + "/" + rng.choice(FLAGS)

    def literal(self):
        rng = self.rng
        r = rng.random()
        if r < 0.3:
            return self.r.string(rng.choice(self.strings))
        if r < 0.5:
            return rng.choice(["0", "1", "-1", "2", "10", "1e2", "1E+2", "12e0", "100", "9007199254740993", "-0"])
        if r < 0.65:
            return rng.choice(["0.0", "1.0", "1.5", "-0.5", "1.0e2", "1.5E-3", "1e-2", "-0.0", "0.1", "100.0", "1.0e20", "3.14159265358979"])
        if r < 0.9:
            return rng.choice(["true", "false", "null", "True", "False", "Null", "nil", "Nil", "none", "None"])
        v = rng.choice(self.scalars)
        return self.r.literal(v)

    def operand(self, depth):
        rng = self.rng
        r = rng.random()
        if r < 0.4:
            return self.sub(depth, True)
        if r < 0.7:
            return self.literal()
        if r < 0.75:
            return self.t["#"]
        if r < 0.79:
            return rng.choice(["undefined", "missing"])
        if r < 0.84:
            return "[" + ", ".join(self.literal() for _ in range(rng.randint(1, 2))) + "]"
        if r < 0.98 or depth <= 0:
            return self.vfunc(depth)
        return "(" + self.expr(depth - 1) + ")"

    def vfunc(self, depth):
        rng = self.rng
        f = rng.choice(["length", "count", "value", "typeof", "type"])
        if f == "length":
            a = self.sub(depth, True) if rng.random() < 0.7 else self.literal() if rng.random() < 0.6 or depth <= 0 else self.vfunc(depth - 1)
        else:
            a = self.sub(depth)
        return f"{f}({self.S()}{a}{self.S()})"

    def lfunc(self, depth):
        rng = self.rng
        f = rng.choice(["match", "search", "isinstance", "is"])
        if f in ("match", "search"):
            a = self.sub(depth, True) if rng.random() < 0.85 else self.literal()
            b = self.r.string(rng.choice(REGEXES[:20])) if rng.random() < 0.8 else self.sub(depth, True)
        else:
            a = self.sub(depth)
            b = "'" + rng.choice(TYPES) + "'" if rng.random() < 0.9 else self.sub(depth, True)
        return f"{f}({self.S()}{a}{self.S()},{self.S()}{b}{self.S()})"

    def top(self, compound=0.12):
        rng = self.rng
        parts = [self.query()]
        if rng.random() < compound:
            for _ in range(rng.randint(1, 3)):
                parts.append(self.t[rng.choice("|&")])
                parts.append(self.query())
            return " ".join(parts)
        q = parts[0]
        return q

    def filtered(self):
        """A query whose last selector is a filter, so that it matters."""
        rng = self.rng
        q = self.t["$"] + rng.choice(["", "", ".." if False else "", "." + "*", "..*"])
        return q + rng.choice(["", ""]) + "[?" + self.S() + self.expr(2) + self.S() + "]" + rng.choice(["", "", "", ".*", ".a", "[0]"])


def mutate(rng, text):
    """A small edit of a query text; may or may not still be a query."""
    toks = ["(", ")", "!", "&&", "||", " ", "==", "'", '"', "@", "$", ".", "..", "[", "]", ",", "*", "?", "1", "0", "-1", ":", "a", "and", "or", "not", "in", "#", "_", "~", "^", "|", "&", "length(", "true", "null", "\n", "/a/", "=~", "1.0", "e1"]
    s = text
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randint(0, len(s))
        r = rng.random()
        if r < 0.4:
            s = s[:i] + rng.choice(toks) + s[i:]
        elif r < 0.7:
            j = min(len(s), i + rng.randint(1, 3))
            s = s[:i] + s[j:]
        elif r < 0.85:
            j = min(len(s), i + rng.randint(1, 2))
            s = s[:i] + rng.choice(toks) + s[j:]
        else:
            a, b = sorted((rng.randint(0, len(s)), rng.randint(0, len(s))))
            s = s[:i] + s[a:min(b, a + 12)] + s[i:]
    return s


def any_text(rng, doc, extra):
    """(text, label): any of the sources above."""
    r = rng.random()
    if r < 0.4:
        q = ast(rng, doc, extra)
        return renderer(rng, ext=rng.choice([0, 0.5])).compound(q) if q[0] == "compound" else renderer(rng, ext=rng.choice([0, 0.5])).query(q), "ast"
    w = Wild(rng, doc, extra, blanks=rng.choice([0, 0.2]))
    if r < 0.65:
        return w.filtered(), "wild-filter"
    if r < 0.85:
        return w.top(), "wild"
    return mutate(rng, w.filtered() if rng.random() < 0.6 else w.top(0.3)), "mutated"


# ------------------------------------------------------------------- large

LONG_NUMBERS = ["1.2345678", "12345678.25", "0.000012", "1.0e10", "123456789012", "9007199254740991", "-123456.789", "1e15", "3.141592653589793", "0.1234567890123", "100000.5", "1e-7", "2.5e-9", "4294967296", "65537"]


def long_document(rng, names):
    """A few candidates with many members, or many small candidates."""
    m = big.Maker(rng, names)
    r = rng.random()
    if r < 0.35:
        return m.array(rng.randint(3, 9), 2)
    if r < 0.6:
        return {k: m.small(2) for k in [*names, *(f"{n}{i}" for i in range(3) for n in names[:2])]}
    if r < 0.75:
        return [{n: m.small(1) for n in names} for _ in range(rng.randint(1, 4))]
    if r < 0.9:
        return {"a": m.array(rng.choice([10, 11, 16, 17, 33]), 0), names[0]: m.object(rng.choice([3, 10, 12]), 0)}
    return m.chain(rng.choice([3, 8, 12]), 0.5)


def large(rng, tokens=None, names=None, seed=None):
    """(document, context, text, label): one dimension of the text or document pushed far.

    The same random stream spells the same query with other tokens.
    """
    t = {c: c for c in "$@^_#~|&"}
    t.update(tokens or {})
    names = names or rng.choice([["a", "b", "c"], ["a", "b", "x", "y"], ["k", "a", "order"]])
    label = rng.choice(["path", "path", "chain", "chain", "list", "compound", "long", "groups", "selectors", "many"])
    extra = {n: rng.choice(genq.SCALARS) for n in names[:2]}
    r = render.Renderer(rng, blanks=rng.choice([0, 0, 0.1]), escapes=rng.choice([0, 0.05]), brackets=rng.choice([0, 0.5, 1]), parens=0.1, ext=0.4, tokens=t)
    if label == "path":
        doc, _ = big.Maker(rng, names if rng.random() < 0.5 else None).document(80, 60)
        q = big.query(rng, doc)
        return doc, extra, r.query(q), label
    doc = long_document(rng, names)
    w = Wild(rng, doc, extra, tokens=t, blanks=rng.choice([0, 0.1]))
    n = rng.choice([4, 5, 6, 8, 9, 10, 11, 12, 15, 16, 17, 20, 25, 32, 33])
    head = t["$"] + rng.choice(["", "", ".*", ".." if len(names) > 9 else ""])
    tail = rng.choice(["", "", "", ".*", ".a", "[0]"])
    if label == "chain":
        style = rng.choice(["&&", "||", "mixed", "words", "mixed"])
        ops = {"&&": ["&&"], "||": ["||"], "mixed": ["&&", "||"], "words": [" and ", " or ", "&&"]}[style]
        body = w.basic(rng.choice([0, 1]))
        for _ in range(n):
            op = rng.choice(ops)
            x = w.basic(0)
            if rng.random() < 0.15:
                x = "!(" + x + ")" if rng.random() < 0.6 else "(" + x + ")"
            body += (" " + op + " " if rng.random() < 0.5 or op[0] == " " else op) + x
        return doc, extra, f"{head}[?{body}]{tail}", label
    if label == "groups":
        body = w.basic(0)
        for _ in range(min(n, 20)):
            body = rng.choice(["({0})", "!({0})", "({0} && {1})", "({1} || {0})", "(({0}) || {1})", "!({1} && {0})", "({0}) and {1}"]).format(body, w.basic(0) if rng.random() < 0.7 else w.sub(0))
        return doc, extra, f"{head}[?{body}]{tail}", label
    if label == "list":
        items = ", ".join(rng.choice([w.literal(), w.r.literal(rng.choice([v for v in w.scalars if not isinstance(v, str) or len(v) < 60])), rng.choice(LONG_NUMBERS), w.r.string(big.long_name(rng, 40))]) for _ in range(rng.choice([9, 10, 11, 16, 17, 32, 33, 50, 60])))
        op = rng.choice([f"{w.sub(0, True)} in [{items}]", f"[{items}] contains {w.sub(0, True)}", f"{t['@']} in [{items}]", f"!({t['@']} in [{items}])"])
        return doc, extra, f"{head}[?{op}]{tail}", label
    if label == "compound":
        text = w.query("$", 1, maxseg=2)
        for _ in range(rng.choice([3, 4, 5, 7, 8, 9, 10, 11, 12])):
            text += " " + t[rng.choice("|||&")] + " " + w.query("$", 1 if rng.random() < 0.3 else 0, maxseg=2)
        return doc, extra, text, label
    if label == "long":
        big_name = big.long_name(rng, 200)
        if isinstance(doc, dict):
            doc[big_name] = rng.choice([1, "a", {names[0]: big_name}, [1, big_name]])
        elif isinstance(doc, list):
            doc.append({big_name: 1, names[0]: big_name})
            doc.append(big_name)
        s = w.r.string(big_name)
        num = rng.choice(LONG_NUMBERS)
        form = rng.choice(["$[{s}]", "$..[{s}]", "$..[{s}, 'a']", "$[?@ == {s}]", "$..[?@.{a} == {s}]", "$..[?@[{s}]]", "$..[?@.{a} == {n}]", "$[?@ < {n}]", "$..[?{n} <= @ && {s} != @]", "$[?@ in [{n}, {s}]]", "$..[?# == {s}]", "$..[?count(@.*) < {n}]", "$[?length({s}) > @]"])
        text = form.format(s=s, n=num, a=names[0]).replace("$", "\0R").replace("@", "\0C").replace("#", "\0K") if "$" not in s and "@" not in s and "#" not in s else None
        if text is None:
            text = t["$"] + "[" + s + "]"
        else:
            text = text.replace("\0R", t["$"]).replace("\0C", t["@"]).replace("\0K", t["#"])
        return doc, extra, text, label
    if label == "selectors":
        sels = [w.selector(0, "$") for _ in range(n)]
        sels = [x if x != "*" and ":" not in x or rng.random() < 0.3 else w.r.string(rng.choice(names)) for x in sels]
        for i in range(len(sels)):
            if rng.random() < 0.06:
                sels[i] = "?" + w.basic(0)
        return doc, extra, head + "[" + rng.choice([",", ", ", " , "]).join(sels) + "]" + tail, label
    # many filters or many segments one after the other
    n = rng.choice([4, 6, 8, 9, 10, 12, 15, 16, 17, 20])
    if rng.random() < 0.8:
        doc = big.Maker(rng, names).chain(n + rng.randint(0, 2), 0.1)
        w = Wild(rng, doc, extra, tokens=t, blanks=rng.choice([0, 0.1]))
    text = t["$"]
    for i in range(n):
        r = rng.random()
        if r < 0.8:
            text += rng.choice(["[*]", ".*", "[*]", f"[?{t['@']} != 17.5]", f"[?!({t['@']} == 17.5)]", f"[?{t['#']} != 'zz']", f"[?{t['@']}, 99]", "[*, 'zz']", f"[?{t['$']}]"])
        elif i < 6 and r < 0.9:
            text += "[?" + w.basic(0) + " || " + t["@"] + "]"
        elif r < 0.95:
            text += "." + rng.choice(names)
        else:
            text += w.segment(0, True, "$")
    return doc, extra, text, label


__all__ = ["Wild", "any_text", "ast", "iregexp", "jp", "large", "make", "mutate", "renderer"]
