"""C04: JSON Pointer resolution conforms to RFC 6901."""

import io
import re
from urllib.parse import quote
from urllib.parse import unquote

import jsonpath

from vlib import big
from vlib import docs
from vlib import foreign
from vlib import ptr

PROPERTY = "C04"
RULE = (
    "Random documents with hostile member names (digits, signs, '~', '/', quotes, backslashes, control and non-BMP characters); "
    "every node's RFC 6901 pointer is resolved by the real library (escape decoding on when it has no backslash, and off) through "
    "JSONPointer.resolve, jsonpath.resolve with text and with tokens, resolve_parent, exists, and from JSON text, and must give that "
    "very object; every valid pointer that RFC 6901 cannot evaluate (random and a full grid of tricky tokens x containers) must raise "
    "a resolution error or give the default. Non-trivial: the pointer has at least one token. Distinct by (pointer, document)."
)
REQUIRED = {"changing": 5000, "alike": 1500, "resolved_nodes": 5000, "refused": 3000, "api_calls": 20000}
ASSUMPTIONS = [
    "a Python str given as the document is JSON text (documented), so root string documents are passed as JSON text",
    "the failing token decides whether a pointer belongs to a documented extension",
]

SENTINEL = object()
R = jsonpath.JSONPointerResolutionError


def scalar_same(a, b):
    return a is b


def judge_ok(mon, doc, toks, want, mode, rng):
    """The pointer must resolve to the very object want."""
    text = ptr.text(toks)
    esc = mode
    mon.count("resolved_nodes")
    info = dict(pointer=text, document=docs.to_json(doc), unicode_escape=esc, want=want)
    p = mon.call(jsonpath.JSONPointer, text, unicode_escape=esc)
    if not p.ok:
        mon.violation(f"parse-raised:{p.kind}", "a valid RFC 6901 pointer was refused", got=repr(p), **info)
    p = p.value
    o = mon.call(p.resolve, doc)
    if not o.ok:
        mon.violation(f"resolve-raised:{o.kind}", "the pointer of an existing node did not resolve", got=repr(o), **info)
    if o.value is not want:
        mon.violation("wrong-node", "a pointer resolved to something other than the node it spells", got=o.value, **info)
    r = rng.random()
    if r < 0.2:
        o = mon.call(jsonpath.resolve, text, doc, unicode_escape=esc)
        how = "jsonpath.resolve(text)"
    elif r < 0.4:
        o = mon.call(jsonpath.resolve, list(toks), doc, unicode_escape=esc)
        how = "jsonpath.resolve(tokens)"
    elif r < 0.55:
        o = mon.call(p.resolve, doc, default=SENTINEL)
        how = "resolve(default)"
    elif r < 0.7:
        o = mon.call(p.resolve_parent, doc)
        how = "resolve_parent"
        if o.ok:
            par = ptr.resolve(doc, toks[:-1]) if toks else None
            if o.value[0] is not par:
                mon.violation("wrong-parent", "resolve_parent gave the wrong parent", got=o.value[0], **info)
            o.value = o.value[1]
    elif r < 0.85:
        o = mon.call(p.resolve, docs.to_json(doc) if rng.random() < 0.5 else io.StringIO(docs.to_json(doc)))
        how = "resolve(JSON text)"
        if not (o.ok and docs.same(o.value, want)):
            mon.violation("json-text", "resolving against JSON text differs", got=repr(o), **info)
        o = None
    else:
        o = mon.call(p.exists, doc)
        how = "exists"
        if not (o.ok and o.value is True):
            mon.violation("exists-false", "exists() is not True for an existing node", got=repr(o), **info)
        o = None
    mon.see("entry", how)
    if o is not None and not (o.ok and o.value is want):
        mon.violation(f"{how}", f"{how} did not give the node", got=repr(o), **info)


def judge_fail(mon, doc, toks, fail, esc, rng):
    text = ptr.text(toks)
    info = dict(pointer=text, document=docs.to_json(doc), unicode_escape=esc, rfc_6901=fail.why)
    p = mon.call(jsonpath.JSONPointer, text, unicode_escape=esc)
    if fail.ext or any(ptr.beyond_limit(t) for t in toks):
        mon.count("extension_tokens")
        if p.ok:
            o = mon.call(p.value.resolve, doc)
            if not o.ok and not isinstance(o.exc, R):
                mon.violation(f"wrong-error:{o.kind}", "resolution failed with something other than a pointer resolution error", got=repr(o), **info)
            e = mon.call(p.value.exists, doc)
            if not (e.ok and e.value is o.ok):
                mon.violation("exists-disagrees", "exists() disagrees with resolve()", resolve=repr(o), exists=repr(e), **info)
        return
    mon.count("refused")
    mon.see("refusal", fail.why)
    if not p.ok:
        mon.violation(f"parse-raised:{p.kind}", "a valid RFC 6901 pointer was refused", got=repr(p), **info)
    o = mon.call(p.value.resolve, doc)
    if o.ok:
        mon.violation("yielded-value", f"a pointer RFC 6901 cannot evaluate ({fail.why}) yielded a value", got=o.value, **info)
    if not isinstance(o.exc, R):
        mon.violation(f"wrong-error:{o.kind}", "resolution failed with something other than a pointer resolution error", got=repr(o), **info)
    for how, o in (
        ("resolve(default)", mon.call(p.value.resolve, doc, default=SENTINEL)),
        ("jsonpath.resolve(default)", mon.call(jsonpath.resolve, text, doc, default=SENTINEL, unicode_escape=esc)),
        ("jsonpath.resolve(tokens, default)", mon.call(jsonpath.resolve, list(toks), doc, default=SENTINEL, unicode_escape=esc)),
    ):
        if not (o.ok and o.value is SENTINEL):
            mon.violation(how, "the caller's default was not returned for an unresolvable pointer", got=repr(o), **info)
    e = mon.call(p.value.exists, doc)
    if not (e.ok and e.value is False):
        mon.violation("exists-true", "exists() is not False for an unresolvable pointer", got=repr(e), **info)
    if rng.random() < 0.2:
        o = mon.call(jsonpath.resolve, text, doc, unicode_escape=esc)
        if o.ok or not isinstance(o.exc, R):
            mon.violation("jsonpath.resolve", "jsonpath.resolve did not raise a resolution error", got=repr(o), **info)
        d = rng.choice([None, False, 0, "", []])
        o = mon.call(p.value.resolve, doc, default=d)
        if not (o.ok and o.value is d):
            mon.violation("falsy-default", "a falsy default was not returned", default=repr(d), got=repr(o), **info)
        o = mon.call(jsonpath.resolve, rng.choice([text, list(toks)]), doc, default=d, unicode_escape=esc)
        if not (o.ok and o.value is d):
            mon.violation("falsy-default", "jsonpath.resolve did not return a falsy default", default=repr(d), got=repr(o), **info)
    if rng.random() < 0.3:
        judge_parent(mon, p.value, doc, toks, info)


def judge_parent(mon, p, doc, toks, info):
    """resolve_parent where the last token, or an earlier one, can't be evaluated."""
    o = mon.call(p.resolve_parent, doc)
    mon.see("entry", "resolve_parent(refused)")
    if not o.ok:
        if not isinstance(o.exc, R):
            mon.violation(f"parent-error:{o.kind}", "resolve_parent failed with something other than a pointer resolution error", got=repr(o), **info)
        return
    try:
        par = ptr.resolve(doc, toks[:-1])
    except ptr.Fail:
        mon.violation("parent-value", "resolve_parent gave a parent that does not exist", got=repr(o), **info)
    if o.value[1] is None or isinstance(o.value[1], (bool, int, float, str, list, dict)):
        mon.violation("parent-yielded", "resolve_parent yielded a value that does not exist", got=repr(o), **info)
    if o.value[0] is not par:
        mon.violation("wrong-parent", "resolve_parent gave the wrong parent", got=repr(o), **info)


def judge(mon, doc, toks, rng):
    modes = [False] if any("\\" in t for t in toks) else [True, False]
    text = ptr.text(toks)
    mon.case(text + "\0" + docs.fingerprint(doc), bool(toks))
    mon.see("token_count", len(toks))
    for esc in modes:
        try:
            want = ptr.resolve(doc, toks)
        except ptr.Fail as e:
            judge_fail(mon, doc, toks, e, esc, rng)
        else:
            judge_ok(mon, doc, toks, want, esc, rng)


def no_limit(names):
    return [n for n in names if not ptr.beyond_limit(n)]


def make(rng):
    names = no_limit(rng.sample(docs.HOSTILE, rng.randint(3, 9))) + rng.sample(docs.PLAIN, 2)
    if rng.random() < 0.4:
        names += [str(rng.randint(0, 3)), "0", "1", "-1", "-", "00", "01"]
    if rng.random() < 0.3:
        names += ["".join(rng.choice("~/01\\#%\"' -+é😀ab") for _ in range(rng.randint(1, 5))) for _ in range(4)]
        names = no_limit(names)
    g = docs.DocGen(rng, names=names, depth=rng.randint(1, 5))
    return g.value(container=True), names


def nodes(rng, mon):
    """Every node of a document, by its own pointer."""
    doc, names = make(rng)
    all_ = list(docs.walk(doc))
    if len(all_) > 60:
        all_ = rng.sample(all_, 60)
    for v, loc in all_:
        judge(mon, doc, ptr.tokens_of(loc), rng)
    if mon.want_sample():
        mon.sample({"document": docs.to_json(doc)[:200], "nodes": len(all_), "deepest": ptr.text(ptr.tokens_of(max((l for _, l in all_), key=len)))})


def broken(rng, mon):
    """Pointers near a real one that RFC 6901 may not be able to evaluate."""
    doc, names = make(rng)
    all_ = list(docs.walk(doc))
    for _ in range(12):
        v, loc = rng.choice(all_)
        toks = ptr.tokens_of(loc)
        r = rng.random()
        if r < 0.5:
            toks.append(rng.choice(ptr.TRICKY_INDEX + names + ["0", "1", "2", "7", "100", str(len(v) if isinstance(v, (list, dict)) else 0), "-1", "a"]))
        elif r < 0.75 and toks:
            i = rng.randrange(len(toks))
            t = toks[i]
            toks[i] = rng.choice([t + " ", " " + t, "0" + t, t + "0", "+" + t, "-" + t, t.upper(), t[:-1], t + ".0", "~" + t, "#" + t, t.swapcase(), t + "\x00"])
        elif r < 0.9:
            toks = [rng.choice(names + ptr.TRICKY_INDEX) for _ in range(rng.randint(1, 4))]
        else:
            toks.extend(rng.choice(names + ["0", "-"]) for _ in range(rng.randint(1, 3)))
        judge(mon, doc, toks, rng)


def grid(rng, mon):
    """Every tricky token against every kind of value."""
    toks = no_limit(sorted(set(ptr.TRICKY_INDEX + docs.HOSTILE + ["0", "1", "2", "3", "10", "-1", "-2", "-10"])))
    t = toks[mon.current[1] % len(toks)]
    n = mon.current[1] // len(toks)
    leaf = ["abc", "", "0", 0, 1.5, True, False, None]
    values = [[], ["x"], [["x"], "yz"], list(range(3)), ["v%d" % i for i in range(12)], {}, {"a": 1}, {t: "hit"}, {t: None}, {t: {t: ["deep"]}}, {"0": "zero", "1": "one", "-1": "neg", "-": "dash"}]
    values += leaf
    for v in values:
        if isinstance(v, str):
            judge(mon, {"k": v}, ["k", t], rng)
            judge(mon, [v], ["0", t], rng)
            continue
        judge(mon, v, [t], rng)
        judge(mon, {"k": v}, ["k", t], rng)
        judge(mon, [v], ["0", t], rng)
        judge(mon, {t: v}, [t], rng)
        judge(mon, {t: v}, [t, t], rng)
        judge(mon, {t: [v]}, [t, "0"], rng)
        judge(mon, [v], ["0", t, t], rng)
        u = toks[(n * 7 + len(t)) % len(toks)]
        judge(mon, {t: {u: v}}, [t, u], rng)
        judge(mon, {t: {u: v}}, [u, t], rng)


def text_docs(rng, mon):
    """Whole documents given as JSON text, scalars and strings included."""
    doc = rng.choice(["", "abc", "0", "[", 0, 1.5, True, None, [], {}, ["a"], {"": "a"}, "é😀"])
    js = docs.to_json(doc)
    mon.case("text" + js, True)
    o = mon.call(jsonpath.JSONPointer("").resolve, js)
    if not (o.ok and docs.same(o.value, doc)):
        mon.violation("root-text", "the root pointer did not resolve to the whole JSON text document", document=js, got=repr(o))
    t = rng.choice(["0", "a", "", "-", "length", "#"])
    try:
        want = ptr.resolve(doc, [t])
    except ptr.Fail as e:
        if e.ext:
            return
        o = mon.call(jsonpath.JSONPointer("/" + ptr.enc(t)).resolve, js)
        if o.ok or not isinstance(o.exc, R):
            mon.violation("text-refusal", "a token applied to a JSON text document did not raise a resolution error", document=js, token=t, got=repr(o))
        return
    o = mon.call(jsonpath.JSONPointer("/" + ptr.enc(t)).resolve, js)
    if not (o.ok and docs.same(o.value, want)):
        mon.violation("text-value", "a pointer resolved wrongly against JSON text", document=js, token=t, got=repr(o))


def reuse(rng, mon):
    """One pointer object, many documents."""
    doc, names = make(rng)
    all_ = [(v, l) for v, l in docs.walk(doc) if l]
    if not all_:
        return
    toks = ptr.tokens_of(rng.choice(all_)[1])
    esc = False if any("\\" in t for t in toks) else rng.random() < 0.5
    p = jsonpath.JSONPointer(ptr.text(toks), unicode_escape=esc)
    for _ in range(6):
        d = doc if rng.random() < 0.3 else make(rng)[0] if rng.random() < 0.5 else {names[0]: doc, **{t: [doc] for t in toks[:1]}}
        mon.case(ptr.text(toks) + "\0" + docs.fingerprint(d), True)
        try:
            want = ptr.resolve(d, toks)
        except ptr.Fail as e:
            if e.ext:
                continue
            o = mon.call(p.resolve, d)
            if o.ok or not isinstance(o.exc, R):
                mon.violation("reuse", "a reused pointer yielded a value where it cannot be evaluated", pointer=ptr.text(toks), document=docs.to_json(d), got=repr(o))
        else:
            o = mon.call(p.resolve, d)
            if not (o.ok and o.value is want):
                mon.violation("reuse", "a reused pointer resolved wrongly", pointer=ptr.text(toks), document=docs.to_json(d), got=repr(o))


def changing(rng, mon):
    """One pointer and one document that changes between two uses of the pointer."""
    doc, names = make(rng)
    if not isinstance(doc, (dict, list)):
        doc = [doc]
    for _ in range(rng.randint(0, 2)):
        docs.mutate(rng, doc)
    doc = docs.clone(doc)
    all_ = [l for v, l in docs.walk(doc)]
    toks = ptr.tokens_of(rng.choice(all_))
    text = ptr.text(toks)
    p = jsonpath.JSONPointer(text, unicode_escape=False)
    for _ in range(6):
        mon.case("changing" + text + "\0" + docs.fingerprint(doc), bool(toks))
        try:
            want = ptr.resolve(doc, toks)
            fail = None
        except ptr.Fail as e:
            want, fail = None, e
        info = dict(pointer=text, document=docs.to_json(doc))
        if fail is None or not fail.ext:
            mon.count("changing")
            for name, o in (
                ("resolve", mon.call(p.resolve, doc)),
                ("resolve()", mon.call(jsonpath.resolve, text, doc, unicode_escape=False)),
                ("default", mon.call(p.resolve, doc, default=doc)),
                ("exists", mon.call(p.exists, doc)),
            ):
                if name == "exists":
                    ok = o.ok and o.value is (fail is None)
                elif fail is None:
                    ok = o.ok and o.value is want
                elif name == "default":
                    ok = o.ok and o.value is doc
                else:
                    ok = not o.ok and isinstance(o.exc, R)
                if not ok:
                    mon.violation(f"changing:{name}", "after a change of the document a pointer gave something else than the document holds", got=repr(o), **info)
            if toks and fail is None:
                o = mon.call(p.resolve_parent, doc)
                if not (o.ok and o.value[0] is ptr.resolve(doc, toks[:-1]) and o.value[1] is want):
                    mon.violation("changing:parent", "after a change of the document a pointer gave another parent or object than the document holds", got=repr(o), **info)
        docs.mutate(rng, doc)


def alike(rng, mon):
    """JSON text documents, one after the other, that differ in one place only."""
    ds, loc = docs.alike(rng)
    p = jsonpath.JSONPointer(ptr.text(ptr.tokens_of(loc)))
    for d in ds:
        js = docs.to_json(d)
        mon.case("alike" + str(p) + "\0" + js, True)
        mon.count("alike")
        want = docs.resolve(d, loc)
        for form in (js, io.StringIO(js)):
            o = mon.call(p.resolve, form)
            if not (o.ok and docs.same(o.value, want)):
                mon.violation("alike", "a pointer yielded another value than the JSON text given holds", pointer=str(p), document=js[:3000], got=repr(o))


def uri_form(rng, mon):
    """Percent-encoded pointers (RFC 6901 section 6) with URI decoding."""
    doc, names = make(rng)
    all_ = list(docs.walk(doc))
    for v, loc in rng.sample(all_, min(8, len(all_))):
        toks = ptr.tokens_of(loc)
        text = ptr.text(toks)
        try:
            uri = quote(text, safe=rng.choice(["/", "/~", ""]))
        except UnicodeEncodeError:
            continue
        esc = "\\" not in text and rng.random() < 0.5
        mon.case("uri" + uri + "\0" + docs.fingerprint(doc), "%" in uri)
        o = mon.call(jsonpath.resolve, uri, doc, uri_decode=True, unicode_escape=esc)
        if not (o.ok and o.value is v):
            mon.violation("uri-form", "a percent-encoded pointer did not resolve to the node it spells", pointer=uri, unicode_escape=esc, document=docs.to_json(doc), got=repr(o))


def large(rng, mon):
    """Pointers of many tokens, long tokens, big indices."""
    m = big.Maker(rng)
    if rng.random() < 0.3:
        doc, kind = m.chain(big.size(rng, 257), side=0.1), "long chain"
    else:
        doc, kind = m.document()
    mon.see("large", kind)
    all_ = list(docs.walk(doc))
    deepest = max((loc for _, loc in all_), key=len)
    for loc in [deepest, *(rng.choice(all_)[1] for _ in range(3))]:
        toks = ptr.tokens_of(loc)
        if any(ptr.beyond_limit(t) for t in toks):
            continue
        judge(mon, doc, toks, rng)
        r = rng.random()
        if toks and r < 0.5:
            i = rng.randrange(len(toks))
            t = toks[i]
            bad = list(toks)
            bad[i] = rng.choice([t + "0", "0" + t, t[:-1], t + "a", t[: len(t) // 2], t + " ", str(10 ** rng.randint(1, 15)), "-", t + t])
            if not any(ptr.beyond_limit(x) for x in bad):
                judge(mon, doc, bad, rng)
        elif r < 0.8:
            judge(mon, doc, toks + [rng.choice(["a", "0", "-", "length"])] * rng.choice([1, 2, 30, 70]), rng)


def containers(rng, mon):
    """Documents of other mappings and sequences than dict and list."""
    plain, names = make(rng)
    doc = foreign.wrap(rng, plain, rng.choice([0.3, 1]))
    all_ = list(docs.walk(plain))
    for _ in range(6):
        loc = rng.choice(all_)[1]
        toks = ptr.tokens_of(loc)
        if rng.random() < 0.4:
            toks.append(rng.choice(ptr.TRICKY_INDEX + names + ["0", "1", "a"]))
        if any(ptr.beyond_limit(t) for t in toks):
            continue
        text = ptr.text(toks)
        esc = "\\" not in text and rng.random() < 0.5
        mon.case(text + "\0wrapped" + docs.fingerprint(plain), bool(toks))
        mon.count("foreign_containers")
        info = dict(pointer=text, document=docs.to_json(plain), unicode_escape=esc)
        o = mon.call(lambda: jsonpath.JSONPointer(text, unicode_escape=esc).resolve(doc))
        e = mon.call(lambda: jsonpath.JSONPointer(text, unicode_escape=esc).exists(doc))
        try:
            ptr.resolve(plain, toks)
        except ptr.Fail as f:
            if f.ext:
                continue
            if o.ok or not isinstance(o.exc, R) or not (e.ok and e.value is False):
                mon.violation("containers-refusal", f"a pointer RFC 6901 cannot evaluate ({f.why}) was not refused over mappings and sequences other than dict and list", got=repr(o), exists=repr(e), **info)
        else:
            if not (o.ok and o.value is foreign.at(doc, loc if len(loc) == len(toks) else [*loc, int(toks[-1]) if isinstance(foreign.at(plain, loc), list) else toks[-1]]) and e.ok and e.value is True):
                mon.violation("containers", "a pointer did not resolve to its node over mappings and sequences other than dict and list", got=repr(o), exists=repr(e), **info)


def options(rng, mon):
    """One text parsed under each combination of options, in turn and again: one parse leaves nothing behind for the next."""
    name = "".join(rng.choice(["a", "b", "%20", "%25", "%2F", "%7E0", "%7e1", "~0", "~1", "0", "%30", "\\u0041", "\\u00e9", "%41", "+", "%"]) for _ in range(rng.randint(1, 4)))
    text = rng.choice(["/", "/a/", "/0/"]) + name + rng.choice(["", "", "/0", "/%61"])
    combos = [(u, e) for u in (False, True) for e in (False, True)] * 2
    rng.shuffle(combos)
    for u, e in combos:
        t = text
        if u:
            t = unquote(t)
        if e and "\\" in t:
            t = re.sub(r"\\u([0-9a-f]{4})", lambda m: chr(int(m.group(1), 16)), t)
        toks = t.split("/")[1:]
        if any(re.search("~(?![01])", x) for x in toks):
            continue
        toks = [x.replace("~1", "/").replace("~0", "~") for x in toks]
        if any(ptr.beyond_limit(x) for x in toks):
            continue
        doc = leaf = [object()]
        for x in reversed(toks):
            doc = {x: doc, x + "x": 1}
        mon.case(f"{text}{u}{e}", True)
        mon.count("option_parses")
        o = mon.call(lambda: jsonpath.JSONPointer(text, uri_decode=u, unicode_escape=e).resolve(doc) if rng.random() < 0.5 else jsonpath.resolve(text, doc, uri_decode=u, unicode_escape=e))
        if not (o.ok and o.value is leaf):
            mon.violation("options", "a pointer parsed with these options did not resolve to the node it names", pointer=text, uri_decode=u, unicode_escape=e, tokens=repr(toks), earlier=repr(combos), got=repr(o))


def limit_names(rng, mon):
    """Members whose names are integers beyond the index limit."""
    n = rng.choice([str(2**53), str(-(2**53)), "9007199254740993", str(10**rng.randint(16, 30)), "-" + str(10**20)])
    doc = {n: rng.choice([1, "x", [1], {n: 2}])}
    if rng.random() < 0.5:
        doc = {"a": doc}
    toks = ptr.tokens_of([l for v, l in docs.walk(doc) if l and l[-1] == n][-1])
    mon.case(ptr.text(toks), True)
    p = mon.call(jsonpath.JSONPointer, ptr.text(toks), unicode_escape=False)
    if not p.ok:
        mon.violation("index-limit-name", "the pointer to a member whose name is an integer beyond the index limit is refused", pointer=ptr.text(toks), document=docs.to_json(doc), got=repr(p))
    o = mon.call(p.value.resolve, doc)
    if not (o.ok and o.value is ptr.resolve(doc, toks)):
        mon.violation("index-limit-name-value", "a pointer to a member with a big integer name resolved wrongly", pointer=ptr.text(toks), got=repr(o))


_N = len(no_limit(sorted(set(ptr.TRICKY_INDEX + docs.HOSTILE + ["0", "1", "2", "3", "10", "-1", "-2", "-10"]))))

def near(rng, mon):
    """Pointers one after the other that differ little, or far inside a long text."""
    doc, locs = docs.near_docs(rng)
    esc = rng.random() < 0.5
    for loc in rng.sample(locs, len(locs)) + rng.sample(locs, min(2, len(locs))):
        toks = ptr.tokens_of(loc)
        mon.case(ptr.text(toks) + "\0" + docs.fingerprint(doc), True)
        mon.count("near")
        judge_ok(mon, doc, toks, docs.resolve(doc, loc), esc and not any("\\" in t for t in toks), rng)


WORKLOADS = {
    "near": (near, 2500, 30000),
    "nodes": (nodes, 4000, 60000),
    "broken": (broken, 6000, 90000),
    "grid": (grid, _N * 2, _N * 40),
    "text_docs": (text_docs, 400, 2000),
    "uri_form": (uri_form, 800, 8000),
    "reuse": (reuse, 2000, 20000),
    "changing": (changing, 2000, 30000),
    "alike": (alike, 800, 12000),
    "containers": (containers, 2000, 30000),
    "large": (large, 1500, 20000),
    "options": (options, 1500, 20000),
    "limit_names": (limit_names, 40, 100),
}
