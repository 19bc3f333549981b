"""C16: Relative JSON Pointers are parsed, printed and applied per the draft."""

import re
from urllib.parse import unquote

import jsonpath
from jsonpath import JSONPointer
from jsonpath import RelativeJSONPointer
from jsonpath.exceptions import RelativeJSONPointerError

from vlib import docs
from vlib import ptr

PROPERTY = "C16"
RULE = (
    "Random base pointers (to real nodes of hostile documents, and free token lists) x relative pointers (step counts around the base's "
    "length, signed offsets of 1 to 8 digits around the final index, '#', pointer suffixes with hostile tokens), applied through "
    "RelativeJSONPointer.to(text | pointer) and JSONPointer.to(text | object); the resulting pointer's text and what it resolves to are "
    "compared with the draft's definition, forbidden applications must raise a relative-pointer error, and printing must return the "
    "text.  Non-trivial: the base has tokens. Distinct by (base, relative pointer)."
)
REQUIRED = {"reused": 10000, "applied": 5000, "refused": 1000, "key_marker": 500, "offsets": 1000, "printed": 5000}
ASSUMPTIONS = [
    "an offset that takes an index past the documented index limit (2^53-1) is not judged",
    "an index offset on a final token that is not a canonical array index is not judged (the draft needs the document to decide)",
    "the key marker is judged by what the result resolves to",
]

POOL = [t for t in sorted(set(docs.HOSTILE + docs.PLAIN + ["0", "1", "2", "10", "01", "-", "+1"])) if not ptr.beyond_limit(t)]


def tokens(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        out.append(str(rng.choice([0, 1, 2, 3, 9, 10, 11, 99, 100, 12345])) if r < 0.35 else rng.choice(POOL) if r < 0.85 else "".join(rng.choice("~/01-+ #é😀ab\t") for _ in range(rng.randint(0, 4))))
    return [t for t in out if not ptr.beyond_limit(t)]


def relative(rng, base):
    """(text, steps, offset, suffix tokens or '#')."""
    n = len(base)
    r = rng.random()
    steps = rng.randint(0, n) if r < 0.85 else rng.choice([n + 1, n + 2, n + 10, 100, 12345678])
    off = 0
    left = base[: n - steps] if steps <= n else []
    if rng.random() < 0.45:
        last = int(left[-1]) if left and ptr.CANON.fullmatch(left[-1]) else 5
        off = rng.choice([1, -1, 2, 9, 10, 11, 12, 99, 100, 101, 12345, 10**7 + 1, -last, -last, 10 - last, 100 - last, -last - 1, -last + 1, -10, -11, -100, -last - 10])
    if rng.random() < 0.25:
        suffix = "#"
    else:
        suffix = tokens(rng, rng.choice([0, 0, 1, 1, 2, 3]))
    text = f"{steps}" + (f"{off:+d}" if off else "") + ("#" if suffix == "#" else ptr.text(suffix))
    return text, steps, off, suffix


def built_base(rng, base_text, esc):
    """The same base pointer, made in another way than from its text."""
    toks = ptr.untext(base_text)
    kw = {} if esc else {"unicode_escape": False}
    r = rng.random()
    if r < 0.3:
        return "from_parts(names)", lambda: JSONPointer.from_parts(toks, unicode_escape=False)
    if r < 0.5:
        parts = [int(t) if ptr.CANON.fullmatch(t) else t for t in toks]
        return "from_parts(indices)", lambda: JSONPointer.from_parts(parts, unicode_escape=False)
    if r < 0.7:
        return "rel(0).to", lambda: RelativeJSONPointer("0").to(JSONPointer(base_text, **kw))
    if r < 0.85 and "\\" not in base_text and not any(t[:1].isspace() for t in toks):
        return "joined", lambda: JSONPointer("").join(*(ptr.text([t])[1:] for t in toks))
    return "child.parent", lambda: JSONPointer(base_text + "/x", **kw).parent()


def apply_text(rng, base_text, rel_text, esc):
    """One of the four entry points."""
    r = rng.random()
    kw = {} if esc else {"unicode_escape": False}
    if rng.random() < 0.3:
        name, base = built_base(rng, base_text, esc)
        if r < 0.5:
            return f"rel.to({name})", lambda: RelativeJSONPointer(rel_text, **kw).to(base())
        return f"{name}.to(text)", lambda: base().to(rel_text, **kw)
    if r < 0.25:
        return "rel.to(text)", lambda: RelativeJSONPointer(rel_text, **kw).to(base_text, **kw)
    if r < 0.5:
        return "rel.to(pointer)", lambda: RelativeJSONPointer(rel_text, **kw).to(JSONPointer(base_text, **kw))
    if r < 0.75:
        return "pointer.to(text)", lambda: JSONPointer(base_text, **kw).to(rel_text, **kw)
    return "pointer.to(rel)", lambda: JSONPointer(base_text, **kw).to(RelativeJSONPointer(rel_text, **kw))


def judge(mon, rng, base, rel, doc=None):
    text, steps, off, suffix = rel
    btext = ptr.text(base)
    esc = "\\" not in btext + text and rng.random() < 0.5
    kw = {} if esc else {"unicode_escape": False}
    info = dict(base=btext, relative=text, unicode_escape=esc)
    mon.case(btext + "\0" + text, bool(base))
    mon.see("steps", min(steps, 20))
    o = mon.call(RelativeJSONPointer, text, **kw)
    if not o.ok:
        mon.violation(f"parse:{o.kind}", "a valid relative pointer was refused", got=repr(o), **info)
    rp = o.value
    mon.count("printed")
    if str(rp) != text:
        mon.violation("print", "printing a parsed relative pointer does not return its text", got=str(rp), **info)
    if not rp == RelativeJSONPointer(text, **kw):
        mon.violation("equal", "two relative pointers of the same text are not equal", **info)
    left = list(base[: len(base) - steps]) if steps <= len(base) else None
    if off and left and not ptr.CANON.fullmatch(left[-1]):
        mon.count("not_judged")
        return
    if off and left == []:
        mon.count("not_judged")
        return
    how, fn = apply_text(rng, btext, text, esc)
    mon.see("entry", how)
    out = mon.call(fn)
    info["entry"] = how
    why = None
    if left is None:
        why = "more steps than the base has tokens"
    else:
        if off:
            mon.count("offsets")
            mon.see("offset_digits", len(str(abs(off))))
            i = int(left[-1]) + off
            if i < 0:
                why = "the offset makes the index negative"
            else:
                left[-1] = str(i)
                if ptr.beyond_limit(left[-1]):
                    mon.count("not_judged")  # the documented index limit
                    return
        if why is None and suffix == "#" and not left:
            why = "# at the root"
    if why:
        mon.count("refused")
        mon.see("refusal", why)
        if out.ok:
            mon.violation("accepted", f"an application the draft forbids ({why}) was accepted", got=str(out.value), **info)
        if not isinstance(out.exc, RelativeJSONPointerError):
            mon.violation(f"wrong-error:{out.kind}", f"an application the draft forbids ({why}) was not refused with a relative-pointer error", got=repr(out), **info)
        return
    mon.count("applied")
    if not out.ok:
        mon.violation(f"refused:{out.kind}", "an application the draft allows was refused", got=repr(out), **info)
    p = out.value
    if suffix == "#":
        mon.count("key_marker")
        last = left[-1]
        if ptr.CANON.fullmatch(last):
            want = int(last)
            d = [0] * (want + 1) if want < 2000 else range(want + 1)
        else:
            d, want = {last: 1, "other": 2}, last
        for t in reversed(left[:-1]):
            d = [0] * int(t) + [d] if ptr.CANON.fullmatch(t) and int(t) < 200 and rng.random() < 0.6 else {t: d}
        # a literal "#name" member would win (documented); there is none here
        if isinstance(want, str) and last.startswith(("#", "~")):
            return
        o = mon.call(p.resolve, d)
        if not (o.ok and o.value == want and type(o.value) is type(want)):
            mon.violation("key-marker", "the key marker does not resolve to the member name or index", pointer=str(p), expected=repr(want), got=repr(o), **info)
        if doc is not None:
            c = doc
            try:
                c = ptr.resolve(doc, left[:-1])
                ptr.step(c, last)
            except ptr.Fail:
                return
            if isinstance(c, dict) and "#" + last in c:
                return
            want = int(last) if isinstance(c, list) else last
            o = mon.call(p.resolve, doc)
            if not (o.ok and o.value == want and type(o.value) is type(want)):
                mon.violation("key-marker-doc", "the key marker does not resolve to the member name or index", pointer=str(p), document=docs.to_json(doc), expected=repr(want), got=repr(o), **info)
        return
    full = [*left, *suffix]
    if str(p) != ptr.text(full):
        mon.violation("result", "the result is not the pointer the draft defines", expected=ptr.text(full), got=str(p), **info)
    if not p == JSONPointer(ptr.text(full), unicode_escape=False):
        mon.violation("result-equal", "the result does not equal the pointer the draft defines", expected=ptr.text(full), got=str(p), **info)
    if doc is not None:
        try:
            want = ptr.resolve(doc, full)
        except ptr.Fail as f:
            if not f.ext:
                o = mon.call(p.resolve, doc)
                if o.ok:
                    mon.violation("result-resolves", "the result yields a value where the draft's pointer selects nothing", document=docs.to_json(doc), got=repr(o), **info)
        else:
            mon.count("resolved")
            o = mon.call(p.resolve, doc)
            if not (o.ok and o.value is want):
                mon.violation("result-value", "the result does not resolve to the node the draft's pointer selects", document=docs.to_json(doc), got=repr(o), **info)


def defined(base, rel):
    """Tokens of the result, "refused", or None where it is not judged."""
    _, steps, off, suffix = rel
    if steps > len(base):
        return "refused"
    left = list(base[: len(base) - steps])
    if off:
        if not left or not ptr.CANON.fullmatch(left[-1]):
            return None
        i = int(left[-1]) + off
        if i < 0:
            return "refused"
        left[-1] = str(i)
        if ptr.beyond_limit(left[-1]):
            return None
    if suffix == "#":
        return None if left else "refused"
    return left + suffix


def close_to(rng, base):
    """A base that differs from another one a little."""
    base = list(base)
    i = rng.randrange(len(base)) if base else 0
    r = rng.random()
    if not base or r < 0.15:
        return base + tokens(rng, 1)
    if r < 0.3:
        return base[:-1]
    if r < 0.4:
        return base[1:]
    if r < 0.5:
        return base[:i] + base[i + 1 :] + [base[i]]
    new = rng.choice([base[i].swapcase(), base[i] + "0", "0", "1", rng.choice(base), rng.choice(POOL)])
    return [t for t in base[:i] + [new] + base[i + 1 :] if not ptr.beyond_limit(t)]


def reused(rng, mon):
    """A few relative pointers and a few bases, all of them used again and again."""
    bases = [tokens(rng, rng.choice([1, 2, 3, 4, 7]))]
    rels = [relative(rng, bases[0]) for _ in range(rng.randint(1, 3))]
    for _ in range(rng.randint(2, 4)):
        bases.append(close_to(rng, rng.choice(bases)))
    esc = rng.random() < 0.5 and not any("\\" in t for b in bases for t in b) and not any("\\" in r[0] for r in rels)
    kw = {} if esc else {"unicode_escape": False}
    bs = [(b, JSONPointer(ptr.text(b), **kw)) for b in bases]
    rs = [(r, RelativeJSONPointer(r[0], **kw)) for r in rels]
    for _ in range(10):
        (b, bp), (r, rp) = rng.choice(bs), rng.choice(rs)
        want = defined(b, r)
        if want is None:
            continue
        mon.case("reused" + ptr.text(b) + "\0" + r[0], True)
        mon.count("reused")
        info = dict(base=ptr.text(b), relative=r[0], bases=repr([ptr.text(x) for x in bases])[:900])
        o = mon.call(rng.choice([lambda: rp.to(bp), lambda: rp.to(bp), lambda: bp.to(rp), lambda: rp.to(ptr.text(b), **kw), lambda: bp.to(r[0], **kw)]))
        if want == "refused":
            if o.ok or not isinstance(o.exc, RelativeJSONPointerError):
                mon.violation("reused-accepted", "an application the draft forbids was not refused with a relative-pointer error, the pointers being in use elsewhere", got=repr(o), **info)
        elif not (o.ok and str(o.value) == ptr.text(want) and o.value == JSONPointer(ptr.text(want), unicode_escape=False)):
            mon.violation("reused", "the result is not the pointer the draft defines, the pointers being in use elsewhere", expected=ptr.text(want), got=repr(o), **info)
        if str(bp) != ptr.text(b) or str(rp) != r[0]:
            mon.violation("reused-changed", "using a pointer changed it", got=repr((str(bp), str(rp))), **info)


def free(rng, mon):
    """Random relative pointers on random bases."""
    base = tokens(rng, rng.choice([0, 1, 1, 2, 3, 5]))
    for _ in range(3):
        judge(mon, rng, base, relative(rng, base))


def in_doc(rng, mon):
    """From a real node to another real node of one document."""
    names = [n for n in rng.sample(POOL, 6) + ["0", "1", "a"]]
    g = docs.DocGen(rng, names=names, depth=rng.randint(1, 4))
    doc = g.value(container=True)
    if rng.random() < 0.3:
        doc = {"l": list(range(rng.randint(0, 120))), "d": doc}
    nodes = list(docs.walk(doc))
    for _ in range(4):
        base = ptr.tokens_of(rng.choice(nodes)[1])
        if rng.random() < 0.6:
            target = ptr.tokens_of(rng.choice(nodes)[1])
            k = 0
            while k < min(len(base), len(target)) and base[k] == target[k]:
                k += 1
            k = rng.randint(0, k)
            steps = len(base) - k
            if k < len(base) and k < len(target) and steps >= 1 and ptr.CANON.fullmatch(base[k]) and ptr.CANON.fullmatch(target[k]) and base[k] != target[k] and rng.random() < 0.7:
                off = int(target[k]) - int(base[k])
                rel = (f"{steps - 1}{off:+d}{ptr.text(target[k + 1:])}", steps - 1, off, target[k + 1 :])
            else:
                rel = (f"{steps}{ptr.text(target[k:])}", steps, 0, target[k:])
        else:
            rel = relative(rng, base)
        judge(mon, rng, base, rel, doc)
        if mon.want_sample() and base:
            mon.sample({"base": ascii(ptr.text(base)), "relative": ascii(rel[0])})


def grid(rng, mon):
    """Final index x offset, every sign and number of digits."""
    i = [0, 1, 2, 5, 9, 10, 11, 19, 99, 100, 101, 1000, 123456][mon.current[1] % 13]
    pre = tokens(rng, rng.randint(0, 2))
    for off in sorted({1, 2, 9, 10, 11, 12, 20, 99, 100, 110, 999, 1000, 1234567, i, i + 1, i - 1} - {0}):
        for sg in (off, -off):
            if sg == 0:
                continue
            for suffix in ([], "#", ["a"], ["0", ""]):
                extra = tokens(rng, rng.randint(0, 2))
                base = [*pre, str(i), *extra]
                steps = len(extra)
                t = f"{steps}{sg:+d}" + ("#" if suffix == "#" else ptr.text(suffix))
                judge(mon, rng, base, (t, steps, sg, suffix))


def deep(rng, mon):
    """Step counts of every number of digits, against bases as long."""
    k = mon.current[1]
    n = k % 131 if rng.random() < 0.9 else rng.choice([200, 255, 256, 999, 1000, 1001])
    base = [t if rng.random() < 0.8 else str(i) for i, t in enumerate(rng.choice(POOL) for _ in range(n))]
    for steps in {0, 1, n - 1, n, n + 1, n // 2, 10 * n, rng.randint(0, n), 9, 10, 11, 99, 100, 101}:
        if steps < 0:
            continue
        suffix = rng.choice(["#", [], [], tokens(rng, 1), tokens(rng, rng.randint(1, 15))])
        mon.see("deep_base", n)
        judge(mon, rng, base, (f"{steps}" + ("#" if suffix == "#" else ptr.text(suffix)), steps, 0, suffix))


HUGE = [2**31 - 1, 2**31, 2**32, 2**53 - 2, 2**53 - 1, 10**15, 10**15 + 1, 9007199254740881]


def huge(rng, mon):
    """Steps, indices and offsets of many digits: they are integers, exactly."""
    i = rng.choice([*HUGE, 0, 1, 7, rng.randint(0, 2**53 - 1)])
    off = rng.choice([*HUGE, i, i - 1, i + 1, 2**53 - 1 - i, 2**53 + 1, 2**63, 10**17 + 1, 10**25 + 3, rng.randint(1, 2**53), rng.randint(2**53, 2**70)])
    off = max(off, 1) * rng.choice([1, -1, -1])
    if 0 <= i + off <= 2**53 - 1 or i + off < 0:
        extra = tokens(rng, rng.randint(0, 2))
        base = [*tokens(rng, rng.randint(0, 2)), str(i), *extra]
        suffix = rng.choice([[], [], "#", ["a"]])
        judge(mon, rng, base, (f"{len(extra)}{off:+d}" + ("#" if suffix == "#" else ptr.text(suffix)), len(extra), off, suffix))
    base = tokens(rng, rng.randint(0, 4))
    steps = rng.choice([2**31, 2**32, 2**53 + 1, 2**63, 2**64 - 1, 10**20 + 7, rng.randint(10**6, 10**30)])
    judge(mon, rng, base, (str(steps), steps, 0, []))
    # printing is exact whatever the size
    t = f"{rng.choice([0, 1, steps])}{off:+d}" + rng.choice(["", "#", "/a/0"])
    o = mon.call(RelativeJSONPointer, t)
    mon.case("huge" + t, True)
    mon.count("printed")
    if not (o.ok and str(o.value) == t):
        mon.violation("print", "printing a parsed relative pointer does not return its text", text=t, got=repr(o) if not o.ok else str(o.value))


def malformed(rng, mon):
    """Texts outside the draft's grammar: leading zeros and zero offsets."""
    t = rng.choice(["00", "01", "007", "00#", "01/a", "0+0", "0-0", "1+0#", "0+00", "0-00/a", "1+01", "0-01", "2+007/x", "", "a", "/a", "#", "+1", "-1", "-1/a", "1a", "0#a", "0##", "1.0", "0/a~2"[:3] + "b#"[:0]])
    if t == "0/a":
        return
    mon.case("malformed" + t, True)
    o = mon.call(RelativeJSONPointer, t)
    mon.count("malformed")
    if o.ok:
        mon.violation("malformed-accepted", "a text that is not a relative pointer was accepted", text=t, got=str(o.value))
    if not isinstance(o.exc, (RelativeJSONPointerError, jsonpath.JSONPointerError)):
        mon.violation(f"malformed-error:{o.kind}", "a text that is not a relative pointer raised something other than a pointer error", text=t, got=repr(o))


PIECES = ["a", "b", "%20", "%25", "%7E0", "%7e1", "~0", "~1", "0", "%30", "\\u0041", "\\u00e9", "\\u0030", "%41", "+"]


def decoded(text, uri, esc):
    """The reference tokens of a pointer text under these options; None when it is not a pointer."""
    if uri:
        text = unquote(text)
    if esc:
        text = re.sub(r"\\u([0-9a-f]{4})", lambda m: chr(int(m.group(1), 16)), text)
    toks = text.split("/")[1:]
    if any(re.search("~(?![01])", t) for t in toks):
        return None
    toks = [t.replace("~1", "/").replace("~0", "~") for t in toks]
    return None if any(ptr.beyond_limit(t) for t in toks) else toks


def decoding(rng, mon):
    """Escape and URI decoding of the base text and of the relative text, each with its own options."""

    def piece():
        return "".join("/" + "".join(rng.choice(PIECES) for _ in range(rng.randint(1, 3))) for _ in range(rng.randint(0, 3)))

    def options():
        u, e = rng.random() < 0.5, rng.random() < 0.5
        kw = {}
        if u or rng.random() < 0.5:
            kw["uri_decode"] = u
        if not e or rng.random() < 0.5:
            kw["unicode_escape"] = e
        return u, e, kw

    btext, suffix = piece(), piece()
    steps = rng.randint(0, 2)
    rtext = f"{steps}{suffix}"
    (bu, be, bkw), (ru, re_, rkw) = options(), options()
    base, tail = decoded(btext, bu, be), decoded(suffix, ru, re_)
    if base is None or tail is None or steps > len(base):
        return
    want = ptr.text([*base[: len(base) - steps], *tail])
    mon.case(f"decoding{btext}\0{rtext}\0{bu}{be}{ru}{re_}", True)
    outs = {"relative.to(text)": mon.call(lambda: RelativeJSONPointer(rtext, **rkw).to(btext, **bkw))}
    outs["relative.to(pointer)"] = mon.call(lambda: RelativeJSONPointer(rtext, **rkw).to(JSONPointer(btext, **bkw)))
    outs["pointer.to(relative)"] = mon.call(lambda: JSONPointer(btext, **bkw).to(RelativeJSONPointer(rtext, **rkw)))
    outs["pointer.to(text)"] = mon.call(lambda: JSONPointer(btext, **bkw).to(rtext, **rkw))
    for how, o in outs.items():
        mon.count("decoded")
        if not (o.ok and str(o.value) == want):
            mon.violation("decoding", "under these decoding options the result is not the pointer the draft defines", base=btext, base_options=repr(bkw), relative=rtext, relative_options=repr(rkw), entry=how, expected=want, got=repr(o) if not o.ok else str(o.value))


WORKLOADS = {
    "reused": (reused, 3000, 50000),
    "free": (free, 40000, 500000),
    "in_doc": (in_doc, 15000, 200000),
    "grid": (grid, 260, 2600),
    "deep": (deep, 1310, 26200),
    "huge": (huge, 3000, 40000),
    "decoding": (decoding, 6000, 60000),
    "malformed": (malformed, 400, 2000),
}
