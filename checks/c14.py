"""C14: JSON Pointer text, tokens and navigation operations agree."""

import jsonpath
from jsonpath import JSONPointer

from vlib import big
from vlib import docs
from vlib import ptr

PROPERTY = "C14"
RULE = (
    "Random and near-miss token sequences (tokens that differ only in escaping, leading zeros, signs, digit scripts, case, or how they "
    "are split) turned into pointers by parsing, from_parts (strings and integers), join, '/', parent, a JSONPath match and a relative "
    "pointer; printing, equality (both ways, == and !=), parents, is_relative_to and resolution are compared with the token-sequence "
    "model. Non-trivial: at least one token. Distinct by token sequences compared."
)
REQUIRED = {"printed": 5000, "equal_pairs": 3000, "unequal_pairs": 3000, "joins": 5000, "resolved": 2000}
ASSUMPTIONS = ["tokens with backslashes and joined texts with leading blanks are outside the property"]

POOL = [t for t in sorted(set(docs.HOSTILE + docs.PLAIN + ptr.TRICKY_INDEX + ["0", "1", "2", "10", "-1", "-2", "100"])) if "\\" not in t and not ptr.beyond_limit(t)]
NEAR = [
    ["1", "01", "1 ", "+1", "-1", "1.0", "1_0", "１", "١", "10", "", "-", "1e0"],
    ["0", "00", "-0", "+0", "", "0 ", "0.0", "٠"],
    ["-1", "1", "--1", "-01", "−1", "- 1", "-1 "],
    ["/", "~1", "~01", "~", "~0", "~~1", "//", "~1~1", "~11"],
    ["a", "A", "a ", "á", "a\u0301", "aa", "", "#a", "~a"],
    ["é", "e\u0301", "Ã©", "%C3%A9", "e"],
    ["😀", "\ud83d", "\U0001f601", "%F0%9F%98%80"][:1] + ["\U0001f601", "%F0%9F%98%80"],
    ["12", "1", "2", "012", "12 "],
]


def toks(rng, n=None):
    out = []
    fam = rng.choice(NEAR)
    if n is None:
        n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
        if rng.random() < 0.015:
            n = big.size(rng, 130)
    for _ in range(n):
        r = rng.random()
        if r < 0.004:
            out.append(big.long_name(rng).replace("\\", ""))
            continue
        if r < 0.35:
            out.append(rng.choice(fam))
        elif r < 0.5:
            out.append(str(rng.randint(0, 12)))
        elif r < 0.6:
            out.append("".join(rng.choice("~/01-+ %#é😀ab") for _ in range(rng.randint(0, 5))))
        else:
            out.append(rng.choice(POOL))
    return [t for t in out if not ptr.beyond_limit(t)]


def near(rng, t):
    """A token sequence that is easily confused with t."""
    t = list(t)
    r = rng.random()
    if not t or r < 0.1:
        t.insert(rng.randint(0, len(t)), rng.choice(["", "0", "a"]))
    elif r < 0.2:
        t.pop(rng.randrange(len(t)))
    elif r < 0.75:
        i = rng.randrange(len(t))
        x = t[i]
        alts = [y for f in NEAR if x in f for y in f if y != x] or [x + " ", "0" + x, x + "0", x.upper(), "-" + x, x.replace("~", "~0"), x.replace("/", "~1"), ptr.enc(x)]
        t[i] = rng.choice(alts)
    elif r < 0.85 and len(t) > 1:
        i = rng.randrange(len(t) - 1)
        t[i : i + 2] = [t[i] + "/" + t[i + 1]]
    else:
        rng.shuffle(t)
    return [x for x in t if "\\" not in x and not ptr.beyond_limit(x)]


def blank_led(s):
    return s.lstrip() != s


def build(rng, mon, t):
    """A pointer for tokens t by one of the constructions; (how, pointer)."""
    text = ptr.text(t)
    esc = rng.random() < 0.5
    r = rng.random()
    if r < 0.25:
        return "parse", mon.call(JSONPointer, text, unicode_escape=esc)
    if r < 0.45:
        return "from_parts(str)", mon.call(JSONPointer.from_parts, list(t), unicode_escape=esc)
    if r < 0.6:
        parts = [int(x) if ptr.CANON.fullmatch(x) and rng.random() < 0.7 else x for x in t]
        return "from_parts(mixed)", mon.call(JSONPointer.from_parts, parts, unicode_escape=esc)
    if r < 0.72 and not any(blank_led(ptr.enc(x)) for x in t):
        k = rng.randint(0, len(t))

        def j():
            p = JSONPointer(ptr.text(t[:k]))
            rest = [ptr.enc(x) for x in t[k:]]
            # an empty first token would be a text that starts with "/" when grouped
            if rng.random() < 0.5:
                return p.join(*rest)
            for x in rest:
                p = p / x
            return p

        return "join", mon.call(j)
    if r < 0.82:
        return "parent", mon.call(lambda: JSONPointer(ptr.text([*t, rng.choice(POOL)]), unicode_escape=esc).parent())
    if r < 0.9:
        # a document that has exactly this path
        doc = 1
        for x in reversed(t):
            doc = [0] * int(x) + [doc] if ptr.CANON.fullmatch(x) and int(x) < 30 and rng.random() < 0.5 else {x: doc}
        env = jsonpath.JSONPathEnvironment()
        return "match", mon.call(lambda: [m for m in env.finditer("$..*" if t else "$", doc) if len(m.parts) == len(t) and [str(p) for p in m.parts] == list(t)][0].pointer())
    k = rng.randint(0, len(t))
    base = t[:k] + toks(rng, 1)
    up = len(base) - k
    return "relative", mon.call(lambda: JSONPointer(ptr.text(base)).to(f"{up}{ptr.text(t[k:])}"))


def printing(rng, mon):
    """Printing and parsing of pointers."""
    t = toks(rng)
    text = ptr.text(t)
    mon.case(text, bool(t))
    how, o = build(rng, mon, t)
    mon.see("construction", how)
    mon.count("printed")
    info = dict(tokens=repr(t), construction=how)
    if not o.ok:
        mon.violation(f"raised:{how}:{o.kind}", "a pointer could not be constructed", got=repr(o), **info)
    p = o.value
    s = mon.call(str, p)
    if not (s.ok and s.value == text):
        mon.violation(f"print:{how}", "a pointer does not print as the RFC 6901 spelling of its tokens", expected=text, got=repr(s), **info)
    for esc in (True, False):
        q = mon.call(JSONPointer, s.value, unicode_escape=esc)
        if not q.ok or str(q.value) != text:
            mon.violation("reparse-print", "parsing and printing a pointer text does not return it", text=text, unicode_escape=esc, got=repr(q), **info)
        if not (q.value == p and p == q.value) or q.value != p or p != q.value:
            mon.violation(f"reparse-equal:{how}", "parsing the spelling of a pointer does not give an equal pointer", text=text, unicode_escape=esc, **info)
    if mon.want_sample() and len(t) > 2:
        mon.sample({"tokens": ascii(t), "construction": how})


def equality(rng, mon):
    """Equality and hashes of pairs that are, or are nearly, equal."""
    t = toks(rng)
    u = list(t) if rng.random() < 0.45 else near(rng, t) if rng.random() < 0.85 else toks(rng)
    h1, a = build(rng, mon, t)
    h2, b = build(rng, mon, u)
    mon.case(repr(t) + repr(u) + h1 + h2, bool(t or u))
    info = dict(left=repr(t), right=repr(u), left_construction=h1, right_construction=h2)
    if not (a.ok and b.ok):
        mon.violation("raised", "a pointer could not be constructed", got=repr((a, b)), **info)
    a, b = a.value, b.value
    want = t == u
    mon.count("equal_pairs" if want else "unequal_pairs")
    mon.see("pair", h1 + "/" + h2)
    if bool(a == b) is not want or bool(b == a) is not want or bool(a != b) is want:
        mon.violation("equality", "pointer equality disagrees with equality of their token sequences", expected=want, got=bool(a == b), **info)
    if want and hash(a) != hash(b):
        mon.violation("hash", "equal pointers have different hashes", **info)
    # relative-to is: other's tokens are a proper prefix
    rel = len(u) < len(t) and t[: len(u)] == u
    if bool(a.is_relative_to(b)) is not rel:
        mon.violation("is_relative_to", "is_relative_to disagrees with the token sequences", expected=rel, got=bool(a.is_relative_to(b)), **info)
    if a == 1 or a == str(a):
        mon.violation("equals-text", "a pointer equals something that is not a pointer", **info)


def joins(rng, mon):
    """join, `/`, parent and is_relative_to against token lists."""
    t = toks(rng)
    how, o = build(rng, mon, t)
    if not o.ok:
        mon.violation("raised", "a pointer could not be constructed", tokens=repr(t), construction=how, got=repr(o))
    p = o.value
    tok = rng.choice(toks(rng, 1) + POOL[:0] + [rng.choice(POOL)])
    e = ptr.enc(tok)
    if blank_led(e):
        return
    mon.count("joins")
    mon.case(repr(t) + repr(tok) + how, True)
    info = dict(tokens=repr(t), construction=how, joined=repr(e))
    o = mon.call(p.join, e) if rng.random() < 0.5 else mon.call(lambda: p / e)
    if not o.ok:
        mon.violation(f"join-raised:{o.kind}", "joining a token failed", got=repr(o), **info)
    c = o.value
    full = ptr.text([*t, tok])
    if str(c) != full:
        mon.violation("join-print", "the joined pointer does not spell base and token", expected=full, got=str(c), **info)
    par = mon.call(c.parent)
    if not (par.ok and par.value == p and p == par.value and str(par.value) == ptr.text(t)):
        mon.violation("join-parent", "the parent of a joined pointer is not the base", got=repr(par), **info)
    if not c.is_relative_to(p) or p.is_relative_to(c):
        mon.violation("join-relative", "the joined pointer is not relative to its base", **info)
    if not (c == JSONPointer(full)) or c == p:
        mon.violation("join-equal", "the joined pointer does not equal the pointer of the whole text", **info)
    # parents up to the root
    q, n = c, len(t) + 1
    while n:
        n -= 1
        q = q.parent()
        if str(q) != ptr.text([*t, tok][:n]) or q != JSONPointer(ptr.text([*t, tok][:n])):
            mon.violation("parents", "a chain of parents does not drop one token at a time", got=str(q), **info)
    r = q.parent()
    if r != q or str(r) != "" or r != JSONPointer(""):
        mon.violation("root-parent", "the parent of the root pointer is not the root pointer", got=str(r), **info)
    # several tokens at once, and replacement
    more = [x for x in toks(rng, rng.randint(0, 3)) if not blank_led(ptr.enc(x))]
    o = mon.call(p.join, e, *map(ptr.enc, more))
    if not (o.ok and str(o.value) == ptr.text([*t, tok, *more])):
        mon.violation("join-many", "joining several tokens is not joining them one by one", more=repr(more), got=repr(o), **info)
    if more and e:
        o = mon.call(p.join, ptr.text([tok, *more])[1:])
        if not blank_led(ptr.text([tok, *more])[1:]) and not (o.ok and str(o.value) == ptr.text([*t, tok, *more])):
            mon.violation("join-multi-token", "joining a multi-token text does not append its tokens", more=repr(more), got=repr(o), **info)
    rep = toks(rng, rng.randint(1, 3))
    if rep:
        o = mon.call(p.join, ptr.text(rep)) if rng.random() < 0.5 else mon.call(lambda: p / ptr.text(rep))
        if not (o.ok and o.value == JSONPointer(ptr.text(rep)) and str(o.value) == ptr.text(rep)):
            mon.violation("join-replace", "a joined part that starts with a slash does not replace the pointer", replacement=repr(rep), got=repr(o), **info)
        o = mon.call(p.join, e, ptr.text(rep), *map(ptr.enc, more))
        if not (o.ok and str(o.value) == ptr.text([*rep, *more])):
            mon.violation("join-replace-many", "a later part that starts with a slash does not replace the pointer", replacement=repr(rep), got=repr(o), **info)
    o = mon.call(p.join)
    if not (o.ok and o.value == p):
        mon.violation("join-none", "joining nothing changes the pointer", got=repr(o), **info)
    # the same pointer joined with other tokens, again and again
    others = [x for x in [tok, *toks(rng, 3), *near(rng, [tok])] if not blank_led(ptr.enc(x)) and not ptr.beyond_limit(x)]
    for _ in range(4):
        x = rng.choice(others) if others else tok
        o = mon.call(p.join, ptr.enc(x)) if rng.random() < 0.5 else mon.call(lambda x=x: p / ptr.enc(x))
        mon.count("joined_again")
        if not (o.ok and str(o.value) == ptr.text([*t, x]) and o.value.parent() == p and str(o.value.parent()) == ptr.text(t)):
            mon.violation("join-again", "a pointer joined before was joined wrongly with another token", other=repr(x), got=repr(o), **info)
    if str(p) != ptr.text(t) or p != JSONPointer(ptr.text(t)):
        mon.violation("join-changed", "joining changed the pointer", got=str(p), **info)


def resolving(rng, mon):
    """Joining then resolving is resolving then stepping."""
    names = [n for n in rng.sample(POOL, 6) + ["0", "1", "a", "-", "01"]]
    g = docs.DocGen(rng, names=names, depth=rng.randint(1, 4))
    doc = g.value(container=True)
    nodes = [x for x in docs.walk(doc) if not isinstance(x[0], str)]
    v, loc = rng.choice(nodes)
    t = ptr.tokens_of(loc)
    if isinstance(v, dict) and v and rng.random() < 0.6:
        tok = rng.choice(list(v))
    elif isinstance(v, list) and rng.random() < 0.6:
        tok = str(rng.randint(0, len(v)))
    else:
        tok = rng.choice(POOL)
    e = ptr.enc(tok)
    if blank_led(e):
        return
    how, o = build(rng, mon, t)
    info = dict(tokens=repr(t), construction=how, joined=repr(e), document=docs.to_json(doc))
    if not o.ok:
        mon.violation("raised", "a pointer could not be constructed", got=repr(o), **info)
    p = o.value
    mon.case(repr(t) + repr(tok) + docs.fingerprint(doc) + how, True)
    base = mon.call(p.resolve, doc)
    if not (base.ok and base.value is v):
        mon.violation(f"resolve:{how}", "a pointer does not resolve to the node it spells", got=repr(base), **info)
    a = mon.call((p / e).resolve, doc)
    b = mon.call(JSONPointer("/" + e).resolve, v)
    mon.count("resolved")
    if a.ok != b.ok or (a.ok and a.value is not b.value and not (a.value == b.value and type(a.value) is type(b.value) and tok[:1] in "#~")):
        mon.violation("join-resolve", "resolving the joined pointer differs from resolving the base and stepping", joined_result=repr(a), stepped=repr(b), **info)
    if not a.ok and not isinstance(a.exc, jsonpath.JSONPointerResolutionError):
        mon.violation(f"join-resolve-error:{a.kind}", "resolution failed with something other than a resolution error", got=repr(a), **info)
    try:
        want = ptr.step(v, tok)
    except ptr.Fail as f:
        if not f.ext and a.ok:
            mon.violation("join-resolve-fail", "a joined token that selects nothing yielded a value", got=repr(a), **info)
    else:
        if not (a.ok and a.value is want):
            mon.violation("join-resolve-value", "a joined token did not select the member or element", got=repr(a), **info)


def limit_names(rng, mon):
    """Tokens that are integers beyond the index limit (the known finding)."""
    n = str(rng.choice([2**53, 9007199254740993, 10**20, -(2**53)]))
    mon.case(n, True)
    o = mon.call(JSONPointer, "/" + n)
    if not o.ok:
        mon.violation("index-limit-token", "a pointer with an integer token beyond the index limit is refused", text="/" + n, got=repr(o))
    if str(o.value) != "/" + n or o.value != JSONPointer.from_parts([n]):
        mon.violation("index-limit-token-print", "a pointer with a big integer token does not print or compare as its tokens", text="/" + n)


WORKLOADS = {
    "printing": (printing, 40000, 500000),
    "equality": (equality, 60000, 800000),
    "joins": (joins, 40000, 500000),
    "resolving": (resolving, 30000, 400000),
    "limit_names": (limit_names, 20, 60),
}
