"""C06: only the documented error families escape; every call terminates."""

import asyncio
import json
import re
import sys
import warnings

import jsonpath
from jsonpath import JSONPatch
from jsonpath import JSONPathError
from jsonpath import JSONPointer
from jsonpath import JSONPointerError
from jsonpath import JSONPointerResolutionError
from jsonpath import RelativeJSONPointer

from vlib import aio
from vlib import docs
from vlib import genq
from vlib import ptr
from vlib import render

PROPERTY = "C06"
RULE = (
    "Query texts: every sequence of up to 3 tokens of a 70-token alphabet (bare, and as a filter expression; 4-token sequences sampled), token soup, "
    "mutants of generated valid queries (character and token level), generated valid extension queries, hostile regular expressions, and texts evolved by "
    "behaviour novelty; each is compiled and, if accepted, evaluated (findall, finditer, match, query, async) on documents of every JSON type at every "
    "position.  Pointer, relative pointer and patch texts/lists likewise (hostile tokens, mutants, type-confused operations).  The monitor accepts a "
    "value or an exception of the documented family, renders every exception, and bounds executed library lines for termination.  Non-trivial: the text "
    "was accepted and evaluated, or rejected with an error.  Distinct by (entry, text, document)."
)
REQUIRED = {
    "compiled": 5000,
    "rejected": 5000,
    "evaluations_of_queries": 10000,
    "pointer_texts": 5000,
    "relative_texts": 2000,
    "patches_applied": 2000,
    "errors_rendered": 10000,
    "deep_cases": 100,
    "endless_cases": 200,
    "wide_cases": 100,
}
ASSUMPTIONS = [
    "a Python str document is JSON text, so root string documents are passed as JSON text",
    "text that is not JSON given as a document is outside the claim (the documents are JSON values)",
    "fluent builder calls may raise a pointer error or a patch error",
]

warnings.simplefilter("ignore", FutureWarning)

RELERR = jsonpath.RelativeJSONPointerError
PATCHERR = jsonpath.JSONPatchError

TOKENS = [
    "$", "@", "^", "_", "#", "~", "|", "&", "*", "?", "..", ".", "[", "]", "(", ")", ",", ":", "-", "!",
    "==", "!=", "<>", "<", ">", "<=", ">=", "=~", "=", "&&", "||", "and", "or", "not", "in", "contains",
    "true", "false", "null", "nil", "None", "undefined", "missing", "a", ".a", "_x", "é", "length(", "count(", "match(", "typeof(", "nosuch(",
    "'a'", '"b"', "'", '"', "'\\", "\\", "/a/", "/(/", "/", "/a/i", "0", "1", "-1", "01", "-0", "1e2", "1e-2", "1.5", "1e400", "9" * 20, "-" , " ", "\n", "\u00a0",
    "[*]", "[?", "@.a", "$.a", "[0]", "['a']", "[1:2]", "..*", "{", "%",
]
GRID = [t for i, t in enumerate(TOKENS) if t not in TOKENS[:i]]

BIG = ["9" * 17, "-" + "9" * 17, "9" * 400, "9" * 5000, "-" + "9" * 5000, "1e309", "1e400", "-1e400", "1e99999", "1.5e309", "1.", "1.e5", "-.5", "1e", "1e+", "--1", "-", "+1", "0x10", "1_0", "١", "1" + "0" * 310 + ".5", "1.5e-400", "0e0", "-0", "-0.0", "00", "1e2", "1E2", "1e-1"]

HARD_RE = ["(", ")", "[", "a{2,1}", "a{99999999999}", "*", "+a", "(?P<n", "(?P=x)", "\\", "\\p{L}", "\\p{Lu", "(?<=a*)b", "(?L)a", "(?a)(?u)x", "(?u)(?a)x", "(?i", "[z-a]", "[\\d-z]", "(?#", "\\1", "(a)\\2", "x" * 200, "\\u12", "\\x1", "\\N{foo}", "\\Z", "(?:a|b)*", "(?>a)", "a++", "a?+", "\ud800", "(?P<a>x)(?P<a>y)", "(?(1)a)", "(?(9)a|b)", "[]", "[^]", "[[:alpha:]]", "\\8", "\\c", "\\k", "(?x) # a", "^$", ".", "", "(?i)a", "a(?i)", "(?s-i:.)", "(?-i:a)", "(?a-i:a)", "(?L:a)", "(?au:a)", "a{,99999999999999999999}", "a{0,4294967296}", "(" * 90 + ")" * 90, "[" * 5, "\n", "\t", "/", "\\/", "'", "\"", "(?!", "(?=", "(?<!", "(?<", "(?"]

SUBJECTS = ["", "a", "ab", "b", "\n", "é", "😀", "(", "\ud800"]

# Shapes which surprise a node that only expects the usual: every JSON type in
# every position, strings in the place of containers, falsy values.
TYPED = [
    None, True, False, 0, 1, -1, 1.5, 2**53, 10**400, 1e308, -0.0, "", "a", "ab", "0", [], {}, [0], ["a"], [[]], [{}], {"a": 1}, {"a": []}, {"a": "a"}, {"a": None},
    {"": ""}, {"a": {"a": 1}}, ["a", "b"], [None, True, 1], {"0": 0}, {"b": "b", "a": [1, "a", {"a": 2}]}, [[1, 2], "ab", {"a": "ab"}, None, 3],
]

PLACED = [{"a": x, "b": [x], "c": {"a": x}} for x in TYPED] + [[x, {"a": x}, [x, x]] for x in TYPED]


def any_doc(rng):
    r = rng.random()
    if r < 0.3:
        return docs.clone(rng.choice(TYPED))
    if r < 0.6:
        return docs.clone(rng.choice(PLACED))
    g = docs.DocGen(rng, names=rng.sample(["a", "b", "c", "0", "1", "", "é", "_x"], 4), unique=False, depth=rng.randint(1, 4), leaves=TYPED)
    return docs.clone(g.value())


def given(rng, doc):
    """The document in a form in which it is accepted as that document."""
    if isinstance(doc, str) or rng.random() < 0.05:
        return json.dumps(doc)
    return doc


def rendered(mon, exc, where, **info):
    mon.count("errors_rendered")
    for how, fn in (("str", str), ("repr", repr)):
        o = mon.call(fn, exc)
        if not o.ok or not isinstance(o.value, str):
            mon.violation(f"{where}:render:{how}:{o.kind}", "rendering an error as text failed", error=type(exc).__name__, got=repr(o), **info)
    if isinstance(exc, JSONPathError):
        mon.see("message", type(exc).__name__ + ":" + re.sub(r"'[^']*'|\d+|\"[^\"]*\"", "_", str(exc))[:60])
    else:
        mon.see("message", type(exc).__name__ + ":" + re.sub(r"'[^']*'|\d+|\"[^\"]*\"", "_", str(exc))[:40])


def allowed(mon, out, family, where, **info):
    """Judge one outcome; True when a value came back."""
    if out.ok:
        return True
    if not isinstance(out.exc, family):
        mon.violation(f"{where}:{out.kind}", "an exception outside the documented family escaped", got=repr(out), **info)
    rendered(mon, out.exc, where, **info)
    return False


# ---------------------------------------------------------------- queries


def evaluate_everyhow(rng, mon, text, p, doc, ctx):
    d = given(rng, doc)
    info = dict(query=text, document=docs.to_json(doc), context=docs.to_json(ctx))
    mon.count("evaluations_of_queries")
    out = mon.call(p.findall, d, filter_context=ctx)
    if not allowed(mon, out, JSONPathError, "findall", **info):
        mon.count("errors_at_evaluation")
    elif not isinstance(out.value, list):
        mon.violation("findall:not-a-list", "findall returned something that is not a list", got=out.value, **info)
    r = rng.random()
    if r < 0.06:
        o = mon.call(lambda: list(p.finditer(d, filter_context=ctx)))
        allowed(mon, o, JSONPathError, "finditer", **info)
        if o.ok:
            for m in o.value[:5]:
                allowed(mon, mon.call(str, m), JSONPathError, "str(match)", **info)
    elif r < 0.09:
        allowed(mon, mon.call(p.match, d, filter_context=ctx), JSONPathError, "match", **info)
    elif r < 0.12:
        allowed(mon, mon.call(lambda: list(p.query(d, filter_context=ctx).items())), JSONPathError, "query", **info)
    elif r < 0.15:
        allowed(mon, mon.call(lambda: asyncio.run(p.findall_async(d, filter_context=ctx))), JSONPathError, "findall_async", **info)


def query_text(rng, mon, text, n_docs=2, label="query", doc=None, ctx=None):
    """Compile a text; evaluate it if it is accepted."""
    o = mon.call(jsonpath.compile, text)
    ok = allowed(mon, o, JSONPathError, "compile", query=text)
    mon.case(f"{label}\0{text}", True)
    if not ok:
        mon.count("rejected")
        return o
    mon.count("compiled")
    for i in range(n_docs):
        d = doc if (doc is not None and i == 0) else any_doc(rng)
        c = ctx if ctx is not None and rng.random() < 0.7 else rng.choice([{}, {"a": 1}, {"a": [1, "a"], "_x": {"a": 1}}, {"x": None, "a": "a"}])
        evaluate_everyhow(rng, mon, text, o.value, d, c)
    if mon.want_sample(5) and len(text) > 8:
        mon.sample({"text": text, "accepted": True}, 5)
    return o


def grid(rng, mon):
    """Consecutive token sequences (short ones exhaustively)."""
    index = mon.current[1]
    n = len(GRID)
    for j in range(64):
        k = index * 64 + j
        form, k = k % 2, k // 2
        a, b, c = k % n, (k // n) % n, (k // n // n) % n
        if k >= n * n * n:  # past the exhaustive part: sampled longer sequences
            seq = [rng.choice(GRID) for _ in range(rng.randint(4, 6))]
        else:
            seq = [GRID[a], GRID[b], GRID[c]]
        sep = "" if rng.random() < 0.8 else " "
        body = sep.join(seq)
        text = body if form == 0 else "$[?" + body + "]"
        query_text(rng, mon, text, 1, "grid")


def soup(rng, mon):
    """Random strings of fragments of the language."""
    for _ in range(8):
        pool = GRID + rng.sample(BIG, 4) + ["/" + x + "/" for x in rng.sample(HARD_RE, 2)] + ["'" + x + "'" for x in rng.sample(HARD_RE, 2)]
        if rng.random() < 0.5:
            pool = rng.sample(pool, rng.randint(4, 14))
        seq = [rng.choice(pool) for _ in range(rng.randint(1, 14))]
        text = rng.choice(["", " ", ""]).join(seq)
        r = rng.random()
        if r < 0.3:
            text = "$[?" + text + "]"
        elif r < 0.4:
            text = "$[" + text + "]"
        elif r < 0.5:
            text = "$[?(" + text + ")]"
        elif r < 0.6:
            text = "$[?" + rng.choice(["count(", "length(", "match(@.a,", "is(@.a,", "typeof(", "value("]) + text + ")" + rng.choice(["", "==1", " == 'a'"]) + "]"
        elif r < 0.7:
            text = "$[?@.a " + rng.choice(["==", "in", "contains", "=~", "<", "<>", "and"]) + " " + text + "]"
        query_text(rng, mon, text, 2, "soup")


def valid_query(rng, doc, ctx):
    qg = genq.QueryGen(rng, doc, filters=0.5, ext=rng.random() < 0.7, extra=ctx, max_segments=3)
    q = qg.query("$" if rng.random() < 0.85 else "^")
    r = render.Renderer(rng, blanks=rng.choice([0, 0.3]), escapes=rng.choice([0, 0.3]), brackets=rng.random(), parens=rng.choice([0, 0.3]), ext=rng.choice([0, 0.6]))
    r.bare = 0.5
    text = r.query(q)
    if rng.random() < 0.15:
        text += rng.choice([" | ", " & ", "|", "&"]) + r.query(qg.query("$"))
    return text


CHARS = "$@^_#~|&*?.[](),:-!=<>'\"\\/ \n\t0123456789aeinortu{}%;`\u00a0é😀\ud800\u0000"


def mutate(rng, text, pool):
    s = list(text)
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5])):
        r = rng.random()
        i = rng.randrange(len(s) + 1)
        if r < 0.25 and s:
            del s[min(i, len(s) - 1)]
        elif r < 0.5:
            s.insert(i, rng.choice(CHARS))
        elif r < 0.6 and s:
            s[min(i, len(s) - 1)] = rng.choice(CHARS)
        elif r < 0.72:
            s[i:i] = list(rng.choice(pool))
        elif r < 0.8 and s:
            j = min(len(s), i + rng.randint(1, 6))
            s[i:i] = s[i:j]
        elif r < 0.88 and s:
            j = min(len(s), i + rng.randint(1, 6))
            del s[i:j]
        elif r < 0.94:
            s = s[:i]
        elif s:
            j = rng.randrange(len(s))
            i = min(i, len(s) - 1)
            s[i], s[j] = s[j], s[i]
    return "".join(s)


def mutants(rng, mon):
    """Valid queries with a few random edits."""
    doc = any_doc(rng)
    ctx = {"a": docs.clone(rng.choice(TYPED)), "x": docs.clone(rng.choice(TYPED))}
    base = valid_query(rng, doc, ctx)
    pool = GRID + BIG
    for _ in range(6):
        query_text(rng, mon, mutate(rng, base, pool), 1, "mutant", doc=doc, ctx=ctx)


def valid(rng, mon):
    """Valid queries on documents with every type everywhere: no family error expected to be anything else."""
    doc = any_doc(rng)
    ctx = {"a": docs.clone(rng.choice(TYPED)), "x": docs.clone(rng.choice(TYPED))}
    for _ in range(2):
        query_text(rng, mon, valid_query(rng, doc, ctx), 4, "valid", doc=doc, ctx=ctx)


OPERANDS = ["@", "@.a", "@.b", "@.*", "@..a", "@.a.b", "$", "$.a", "$.*", "_", "_.a", "_.x", "_.*", "#", "1", "-1", "1.5", "'a'", "''", "true", "null", "nil", "undefined", "missing", "[1]", "[]", "['a', 1, null]", "/a/", "/a/i", "length(@)", "length(@.a)", "count(@.*)", "value(@.a)", "value(@.*)", "typeof(@.a)", "type(@)", "match(@.a, 'a')", "search(@, @.a)", "is(@.a, 'str')", "isinstance(@.*, #)", "^", "^.a", "^[0]", "@[?@.a]", "@[0]", "@[0:1]", "@~", "@.~", "$..a", "1e400", "9" * 30]


def operators(rng, mon):
    """Every operator with every pair of operands, on every type."""
    ops = ["==", "!=", "<>", "<", ">", "<=", ">=", "in", "contains", "=~", "&&", "||", "and", "or"]
    index = mon.current[1]
    n, m = len(OPERANDS), len(ops)
    k = index % (n * n * m)
    a, b, op = OPERANDS[k % n], OPERANDS[(k // n) % n], ops[(k // n // n) % m]
    e = f"{a} {op} {b}"
    r = rng.random()
    if r < 0.2:
        e = f"!({e})"
    elif r < 0.3:
        e = f"{e} && @"
    elif r < 0.4:
        e = f"!{e}"
    q = rng.choice(["$", "$.*", "$..*", "^", ""]) + f"[?{e}]"
    o = mon.call(jsonpath.compile, q)
    mon.case("op\0" + q, True)
    if not allowed(mon, o, JSONPathError, "compile", query=q):
        mon.count("rejected")
        return
    mon.count("compiled")
    mon.see("operator_pairs", f"{a} {op} {b}")
    ctx = {"a": docs.clone(rng.choice(TYPED)), "x": docs.clone(rng.choice(TYPED))}
    evaluate_everyhow(rng, mon, q, o.value, docs.clone(TYPED), ctx)
    evaluate_everyhow(rng, mon, q, o.value, [docs.clone(rng.choice(PLACED)) for _ in range(6)], ctx)


def functions(rng, mon):
    """Function calls with any arguments, type checks on and off."""
    names = ["length", "count", "match", "search", "value", "is", "isinstance", "typeof", "type", "nosuch", "keys", "_a", "l1"]
    for _ in range(3):
        f = rng.choice(names)
        args = [rng.choice(OPERANDS) if rng.random() < 0.85 else rng.choice(["@ == 1", "@.a && @.b", "!@.a", "(@.a)", "@.a in [1]", "not @"]) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))]
        e = f"{f}({', '.join(args)})"
        r = rng.random()
        if r < 0.5:
            e = f"{e} {rng.choice(['==', '!=', '<', '>=', 'in', 'contains', '=~'])} {rng.choice(OPERANDS)}"
        q = f"$[?{e}]"
        query_text(rng, mon, q, 2, "fn")
        env = jsonpath.JSONPathEnvironment(well_typed=False)
        o = mon.call(env.compile, q)
        if allowed(mon, o, JSONPathError, "compile(well_typed=False)", query=q):
            d = rng.choice([docs.clone(TYPED), docs.clone(rng.choice(PLACED))])
            mon.count("unchecked_calls")
            allowed(mon, mon.call(o.value.findall, d), JSONPathError, "findall(well_typed=False)", query=q, document=docs.to_json(d))


def regexes(rng, mon):
    """Patterns a regular-expression compiler may choke on, in every place a pattern can be."""
    p = rng.choice(HARD_RE)
    if rng.random() < 0.5:
        p = mutate(rng, p, HARD_RE)[:60]
    for flags in rng.sample(["", "i", "a", "s", "m", "aims", "ii", "x"], 2):
        query_text(rng, mon, f"$[?@ =~ /{p}/{flags}]", 1, "re", doc=list(SUBJECTS) + [1, None])
    lit = "'" + json.dumps(p, ensure_ascii=rng.random() < 0.5)[1:-1].replace('\\"', '"').replace("'", "\\'") + "'"
    for f in ("match", "search"):
        query_text(rng, mon, f"$[?{f}(@, {lit})]", 1, "refn", doc=list(SUBJECTS) + [1, None])
        query_text(rng, mon, f"$[?{f}(@.s, @.p)]", 1, "redoc", doc=[{"s": s, "p": p} for s in SUBJECTS] + [{"s": 1, "p": p}, {"s": "a"}, {"p": p}, {"s": "a", "p": 1}, {"s": ["a"], "p": [p]}, {"s": None, "p": {}}])


def novelty(out):
    if out.ok:
        return "ok:" + re.sub(r"'[^']*'|\d+", "_", mon_str(out.value))[:80]
    return out.kind + ":" + re.sub(r"'[^']*'|\d+|\"[^\"]*\"|line _, column _", "_", str(out.exc))[:60]


def mon_str(p):
    try:
        return str(p)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__


def evolve(rng, mon):
    """Behaviour-guided evolution: keep texts that show a new reaction."""
    doc = any_doc(rng)
    ctx = {"a": docs.clone(rng.choice(TYPED))}
    corpus = [valid_query(rng, doc, ctx) for _ in range(4)] + ["$[?@.a == 'x' && count(@.*) > 1]", "$..[1:2, ~]"]
    seen = set()
    pool = GRID + BIG + HARD_RE[:20]
    for _ in range(150):
        if rng.random() < 0.2:
            a, b = rng.choice(corpus), rng.choice(corpus)
            t = a[: rng.randrange(len(a) + 1)] + b[rng.randrange(len(b) + 1):]
        else:
            t = mutate(rng, rng.choice(corpus), pool)
        if len(t) > 120:
            continue
        o = query_text(rng, mon, t, 1 if rng.random() < 0.3 else 0, "evolve", doc=doc, ctx=ctx)
        if o.ok and rng.random() < 0.7:
            evaluate_everyhow(rng, mon, t, o.value, doc, ctx)
        k = novelty(o)
        if k not in seen:
            seen.add(k)
            corpus.append(t)
    mon.count("evolved_behaviours", len(seen))


# ---------------------------------------------------------------- pointers

PTR_BITS = ["/", "~", "~0", "~1", "~2", "#", "-", "0", "1", "01", "-1", "a", "b", "é", "%", "%41", "%2F", "%ff", "%", "\\", "\\u0041", "\\ud83d", "\\ude00", "\\ud83d\\ude00", "\\x", "\\n", "\\\"", "\\u00", "\"", "'", " ", "\n", "\t", "\u0000", "\ud800", "😀", "9" * 17, "-" + "9" * 17, "9" * 5000, "1e5", "1.0", "+1", "١", "²", "_", "$", "*", "[0]", "..", "\u00a0", "\u001f"]


def ptr_text(rng):
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 6, 9])
    t = "".join(rng.choice(PTR_BITS) for _ in range(n))
    if rng.random() < 0.7:
        t = "/" + t
    return t


def pointers(rng, mon):
    """Pointer texts, valid, mutated and random, through every operation of a pointer."""
    doc = any_doc(rng)
    locs = [loc for _, loc in docs.walk(doc)]
    for _ in range(5):
        r = rng.random()
        if r < 0.5:
            text = ptr_text(rng)
        else:
            text = ptr.text(ptr.tokens_of(rng.choice(locs)))
            if r < 0.9:
                text = mutate(rng, text, PTR_BITS)
        kw = {"unicode_escape": rng.random() < 0.7, "uri_decode": rng.random() < 0.3}
        info = dict(pointer=text, document=docs.to_json(doc), **kw)
        mon.count("pointer_texts")
        mon.case("ptr\0" + text + docs.fingerprint(doc), True)
        o = mon.call(JSONPointer, text, **kw)
        if allowed(mon, o, JSONPointerError, "JSONPointer", **info):
            p = o.value
            mon.count("pointers_accepted")
            d = given(rng, doc)
            e = mon.call(p.resolve, d)
            if not allowed(mon, e, JSONPointerResolutionError, "resolve", **info):
                mon.count("pointers_unresolved")
            e2 = mon.call(p.resolve, d, default=7)
            allowed(mon, e2, JSONPointerResolutionError, "resolve(default)", **info)
            allowed(mon, mon.call(p.resolve_parent, d), JSONPointerResolutionError, "resolve_parent", **info)
            allowed(mon, mon.call(p.exists, d), (), "exists", **info)
            allowed(mon, mon.call(str, p), (), "str(pointer)", **info)
            allowed(mon, mon.call(p.parent), JSONPointerError, "parent", **info)
            t2 = ptr_text(rng)
            o2 = mon.call(lambda: p / t2)
            allowed(mon, o2, JSONPointerError, "join", other=t2, **info)
            if o2.ok:
                allowed(mon, mon.call(o2.value.resolve, d), JSONPointerResolutionError, "join.resolve", other=t2, **info)
            allowed(mon, mon.call(lambda: p == o2.value), (), "==", **info)
            rel_text = rng.choice(["0", "1", "2", "0#", "1#", "0+1", "0-1", "1-1/a", "0/a", "1/b", ""]) if rng.random() < 0.6 else rel(rng)
            o3 = mon.call(p.to, rel_text, unicode_escape=kw["unicode_escape"], uri_decode=kw["uri_decode"])
            if allowed(mon, o3, (JSONPointerError, RELERR), "to", relative=rel_text, **info):
                mon.count("relative_applied")
                allowed(mon, mon.call(o3.value.resolve, d), JSONPointerResolutionError, "to.resolve", relative=rel_text, **info)
        allowed(mon, mon.call(jsonpath.pointer.resolve, text, given(rng, doc), **kw), JSONPointerError, "pointer.resolve", **info)


REL_BITS = ["0", "1", "2", "00", "01", "10", "+", "-", "+1", "-1", "+0", "-0", "+01", "#", "/", "/a", "/0", "~", "~0", "~1", "%", "\\", "\\u0041", "\\ud800", " ", "\n", "a", "é", "\ud800", "9" * 20, "9" * 5000, "+" + "9" * 5000, "-" + "9" * 20, "١", "²", "#0", "/#", "/-"]


def rel(rng):
    return "".join(rng.choice(REL_BITS) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5])))


def relative(rng, mon):
    """Relative pointer texts, valid and random, applied to bases."""
    doc = any_doc(rng)
    locs = [loc for _, loc in docs.walk(doc)]
    for _ in range(6):
        text = rel(rng)
        kw = {"unicode_escape": rng.random() < 0.7, "uri_decode": rng.random() < 0.3}
        info = dict(relative=text, **kw)
        mon.count("relative_texts")
        mon.case("rel\0" + text, True)
        o = mon.call(RelativeJSONPointer, text, **kw)
        if not allowed(mon, o, (JSONPointerError, RELERR), "RelativeJSONPointer", **info):
            continue
        r = o.value
        allowed(mon, mon.call(str, r), (), "str(relative)", **info)
        base = rng.choice([ptr.text(ptr.tokens_of(rng.choice(locs))), rng.choice(["", "/a", "/0", "/a/0", "/a/b/1", "/1/2/3", "/-", "/#a", "/é"])])
        info["base"] = base
        if "\\" in base:
            continue
        for b in (base, JSONPointer(base)) if not any(ptr.beyond_limit(t) for t in ptr.untext(base)) else ():
            o2 = mon.call(r.to, b, unicode_escape=kw["unicode_escape"], uri_decode=kw["uri_decode"])
            if allowed(mon, o2, (JSONPointerError, RELERR), "relative.to", **info):
                mon.count("relative_applied")
                allowed(mon, mon.call(o2.value.resolve, given(rng, doc)), JSONPointerResolutionError, "relative.resolve", document=docs.to_json(doc), **info)
                allowed(mon, mon.call(str, o2.value), (), "str(relative result)", **info)


# ---------------------------------------------------------------- patches

OPS = ["add", "remove", "replace", "move", "copy", "test", "addne", "addap"]


def any_op(rng, doc, locs):
    def path():
        r = rng.random()
        if r < 0.55:
            return ptr.text(ptr.tokens_of(rng.choice(locs))) + rng.choice(["", "", "", "/-", "/0", "/a", "/b", "/", "/1", "/99", "/" + rng.choice(["9" * 15, "1" + "0" * 15, "9" * 19, "9" * 20, "9" * 400, "9" * 4300, "9" * 4301, "1" + "0" * 4999, "-" + "9" * 5000, "0" * 5000, "#" + "9" * 5000, "~" + "9" * 5000])])
        if r < 0.85:
            return ptr_text(rng)
        return docs.clone(rng.choice([None, 1, True, [], {}, ["a"], "", "a", "/", 1.5, "#/a", "0", "-1"]))

    op = rng.choice(OPS)
    d = {"op": op, "path": path()}
    if op in ("move", "copy"):
        d["from"] = path()
    if op in ("add", "replace", "test", "addne", "addap"):
        d["value"] = docs.clone(rng.choice(TYPED))
    r = rng.random()
    if r < 0.08 and d:
        del d[rng.choice(list(d))]
    elif r < 0.14:
        d[rng.choice(["op", "path", "from", "value", "x"])] = docs.clone(rng.choice(TYPED + ["add", "nosuch", "ADD", " add", "move", "/a", "/"]))
    elif r < 0.17:
        return docs.clone(rng.choice(TYPED))
    return d


def patches(rng, mon):
    """Operation lists with wrong members, types and targets, as values, as text and through the builder."""
    doc = any_doc(rng)
    locs = [loc for _, loc in docs.walk(doc)]
    ops = [any_op(rng, doc, locs) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 5]))]
    kw = {"unicode_escape": rng.random() < 0.7, "uri_decode": rng.random() < 0.2}
    form = rng.random()
    if form < 0.25:
        arg = json.dumps(ops)
    else:
        arg = docs.clone(ops)
    info = dict(patch=docs.to_json(ops), document=docs.to_json(doc), **kw)
    mon.case("patch\0" + docs.fingerprint(ops) + docs.fingerprint(doc), True)
    o = mon.call(JSONPatch, arg, **kw)
    if allowed(mon, o, PATCHERR, "JSONPatch", **info):
        mon.count("patches_built")
        d = given(rng, docs.clone(doc))
        mon.count("patches_applied")
        a = mon.call(o.value.apply, d)
        if allowed(mon, a, PATCHERR, "apply", **info):
            mon.count("patches_succeeded")
        s = mon.call(o.value.asdicts)
        allowed(mon, s, (), "asdicts", **info)
        if s.ok:
            allowed(mon, mon.call(JSONPatch, s.value, **kw), PATCHERR, "JSONPatch(asdicts)", **info)
    allowed(mon, mon.call(jsonpath.patch.apply, docs.clone(ops), given(rng, docs.clone(doc)), **kw), PATCHERR, "patch.apply", **info)
    # the fluent builder
    jp = JSONPatch(**kw)
    for op in ops:
        if not isinstance(op, dict) or op.get("op") not in OPS or not isinstance(op.get("path"), str):
            continue
        f = getattr(jp, op["op"])
        if op["op"] in ("move", "copy"):
            if not isinstance(op.get("from"), str):
                continue
            b = mon.call(f, op["from"], op["path"])
        elif op["op"] == "remove":
            b = mon.call(f, op["path"])
        else:
            b = mon.call(f, op["path"], docs.clone(op.get("value")))
        mon.count("builder_calls")
        allowed(mon, b, (PATCHERR, JSONPointerError), "builder", **info)
    allowed(mon, mon.call(jp.apply, given(rng, docs.clone(doc))), PATCHERR, "builder.apply", **info)


# ---------------------------------------------------------------- nesting


def nest(n, kind):
    v = 1
    for i in range(n):
        v = [v] if kind == 0 or (kind == 2 and i % 2) else {"a": v}
    return v


def deep(rng, mon):
    """Up to a hundred levels of nesting work under the default recursion limit."""
    n = rng.choice([20, 50, 80, 99, 100])
    m = max(1, n - 2)
    d = nest(n, rng.randint(0, 2))
    forms = [
        "$[?" + "(" * m + "@" + ")" * m + "]",
        "$[?" + "!" * m + "@.a]",
        "$[?" + "not " * m + "@.a]",
        "$[?" + "(!" * (m // 2) + "@.a" + ")" * (m // 2) + "]",
        "$" + "[?@" * m + "]" * m,
        "$" + "[?@.*" * (m // 2) + "]" * (m // 2),
        "$" + "[?count(@" * (m // 2) + ")>0]" * (m // 2),
        "$[?" + "length(value(@" * (m // 2) + "))" * (m // 2) + " == 1]",
        "$" + "[" * m + "]" * m,
        "$[?" + "@ && (" * m + "@" + ")" * m + "]",
        "$[?" + " && ".join(["@"] * n) + "]",
        "$[?" + " || ".join(["@ == 1"] * n) + "]",
        "$" + ".a" * n,
        "$" + "[0]" * n,
        "$" + "[*]" * n,
        "$..*",
        "$..a",
        "$[?@ == $]",
        "$..[?@ == $]",
        "$[?" + "(" * m,
        "$[" * m,
        "$" + "[?" * m,
        "$" + "[?(@" * (m // 2),
        "$" + "[?!(@" * (m // 2) + ")]" * (m // 2),
        " | ".join(["$"] * n),
    ]
    text = rng.choice(forms)
    doc = rng.choice([d, d, [d, d], {"a": d, "b": d}])
    ctx = {"a": nest(n - 1, 1)}
    mon.count("deep_cases")
    info = dict(text=text[:80], length=len(text), n=n)
    frame = sys._getframe()
    here = 0
    while frame:
        here += 1
        frame = frame.f_back
    old = sys.getrecursionlimit()
    bad = None
    mon.case("deep\0" + text + str(n), True)
    sys.setrecursionlimit(1000 + here)  # as a caller near the bottom of its stack has it
    try:
        o = mon.call(jsonpath.compile, text)
        if o.ok:
            r = mon.call(o.value.findall, doc, filter_context=ctx)
            if not r.ok and not isinstance(r.exc, JSONPathError):
                bad = ("findall", r)
        elif not isinstance(o.exc, JSONPathError):
            bad = ("compile", o)
        toks = "".join("/a" if rng.random() < 0.5 else "/0" for _ in range(n))
        p = mon.call(lambda: JSONPointer(toks).resolve(doc))
        if not p.ok and not isinstance(p.exc, JSONPointerError):
            bad = ("pointer", p)
        q = mon.call(lambda: JSONPatch([{"op": "test", "path": "", "value": nest(n, rng.randint(0, 2))}, {"op": "add", "path": "/a", "value": d}, {"op": "copy", "from": "/a", "path": "/b"}, {"op": "move", "from": "/b", "path": "/a"}]).apply(doc))
        if not q.ok and not isinstance(q.exc, PATCHERR):
            bad = ("patch", q)
    finally:
        sys.setrecursionlimit(old)
    if bad:
        mon.violation(f"deep:{bad[0]}:{bad[1].kind}", "an input nested at most a hundred levels deep raised a built-in exception", got=repr(bad[1]), **info)


def endless(rng, mon):
    """Flat but very long inputs, under the default recursion limit."""
    n = rng.choice([300, 300, 600, 1200, 3000])
    m = rng.choice([300, 600, 1200, 3000])
    term = rng.choice(["@", "@.a", "@ == 1", "!@.a", "count(@.*) > 1", "@.a =~ /a/", "(@.b)", "@ in [1]", "@.a == @.b"])
    kind = rng.choice(["chain", "chain", "path", "path", "path", "selectors", "compound", "list", "blank", "string", "name", "regex", "tail", "pointer", "relative", "parts", "patch"])
    doc = rng.choice([{}, [], [1, {"a": 1}], {"a": {"b": [1, 2]}}, [[[]]], "x", None, 3, {"a": "a" * 400, "b": list(range(400))}, [{"a": i} for i in range(400)]])
    fragile = None
    bits = [".a", "[0]", "[*]", "['a', 'b']", "[::2]", ".*", "[?@.a]", "[-1]", "..a", "..*", "[0, 0]"]
    if kind == "chain":
        text = "$[?" + rng.choice([" && ", " || ", "&&", " or "]).join([term] * n) + "]"
        fragile = "recursion-limit-chain" if n > 450 else None
    elif kind == "path":
        b = rng.choice(bits)
        text = "$" + b * n
        if rng.random() < 0.4:
            text = f"$[?@{b * n}{rng.choice(['', '.c'])}]"
        # nested in the document's own depth: `[0, 0]` and `..*` grow with it, not with the path
        fragile = "recursion-limit-path" if n > 450 else None
    elif kind == "selectors":
        text = "$[" + ", ".join([rng.choice(["0", "'a'", "*", "?@.a", "-1", "1:2", "?@ == 1", "'" + "k" * 50 + "'"]) for _ in range(m)]) + "]"
    elif kind == "compound":
        text = rng.choice([" | ", " & ", "|"]).join(["$.a"] * m)
    elif kind == "list":
        text = "$[?@ in [" + ", ".join([rng.choice(["1", "'x'", "null"])] * m) + "]]"
    elif kind == "blank":
        text = "$" + rng.choice([" ", "\n", "\t", "\r"]) * m + "[" + " " * m + "0]"
    elif kind == "string":
        text = "$[?@ == '" + rng.choice(["x", "\\n", "\\u00e9", "é", "\\\\", "\\ud83d\\ude00"]) * m + "']"
    elif kind == "name":
        text = rng.choice(["$.{}", "$['{}']", "$..{}", "$[?_.{}]", "$[?{}(@)]"]).format("a" * m)
    elif kind == "regex":
        text = "$[?@ =~ /" + rng.choice(["a", "[ab]", "\\d", "(a)", "a|"]) * min(m, 90) + "/]"
    elif kind == "tail":
        fragile = "recursion-limit-path"  # `.` and `..` without a selector count as segments here
        n = m
        text = rng.choice(["$" + ")" * m, "$" + "]" * m, "$.a" + "." * m, "$[?@.a" + " ==" * m, "$" + "'" * m, "$[" + "," * m, "|" * m, "$[?" + "=" * m, "0" * m, "$[" + "9" * m + "]", "$[?@ == " + "9" * m + "]", "$[?@ == 1e" + "9" * m + "]", "$[?@ == 1" + "0" * m + ".5]", "$ " + "x" * m, "\u0000" * m, "$[?@." + "é" * m + "]", "$[?a" + "(@)" * m + "]"])
    else:
        text = ""
    mon.count("endless_cases")
    mon.case(f"endless\0{kind}\0{n if fragile else m}\0{text[:60]}\0{docs.fingerprint(doc)[:80]}", True)
    frame, here = sys._getframe(), 0
    while frame:
        here += 1
        frame = frame.f_back
    old = sys.getrecursionlimit()
    calls = []
    sys.setrecursionlimit(1000 + here)
    try:
        if text:
            o = mon.call(jsonpath.compile, text)
            calls.append(("compile", o, JSONPathError))
            if o.ok:
                calls.append(("str", mon.call(str, o.value), ()))
                calls.append(("findall", mon.call(o.value.findall, doc), JSONPathError))
                calls.append(("async", mon.call(lambda: aio.drive(o.value.findall_async(doc))[0]), JSONPathError))
            else:
                calls.append(("str", mon.call(str, o.exc), ()))
        elif kind in ("pointer", "parts"):
            toks = [rng.choice(["a", "0", "b", "-", "~0", "#a", "1"])] * m
            o = mon.call(JSONPointer, "/" + "/".join(toks)) if kind == "pointer" else mon.call(JSONPointer.from_parts, toks)
            calls.append(("pointer", o, JSONPointerError))
            if o.ok:
                p = o.value
                for nm, f, fam in [("resolve", lambda: p.resolve(doc), JSONPointerResolutionError), ("resolve_parent", lambda: p.resolve_parent(doc), JSONPointerResolutionError), ("exists", lambda: p.exists(doc), ()), ("str", lambda: str(p), ()), ("parent", p.parent, JSONPointerError), ("join", lambda: p / "a/b", JSONPointerError), ("eq", lambda: p == JSONPointer("/a"), ()), ("to", lambda: p.to(f"{m - 1}/a"), (JSONPointerError, RELERR)), ("hash", lambda: hash(p), ())]:
                    calls.append((nm, mon.call(f), fam))
        elif kind == "relative":
            t = rng.choice(["0", "1", "1+1", str(m), "1" * 15, "0#"]) + ("/a" * m if rng.random() < 0.7 else "")
            o = mon.call(RelativeJSONPointer, t)
            calls.append(("relative", o, (JSONPointerError, RELERR)))
            if o.ok:
                r = mon.call(o.value.to, "/a/1" + "/b" * rng.choice([0, m]))
                calls.append(("to", r, (JSONPointerError, RELERR)))
                if r.ok:
                    calls.append(("resolve", mon.call(r.value.resolve, doc), JSONPointerResolutionError))
        else:
            d = docs.clone(doc)
            op = rng.choice([{"op": "test", "path": "", "value": d}, {"op": "add", "path": "/z", "value": 1}, {"op": "add", "path": "/-", "value": 1}, {"op": "replace", "path": "/a", "value": 1}, {"op": "copy", "from": "/a", "path": "/c"}, {"op": "remove", "path": "/a"}, {"op": "addne", "path": "/q", "value": []}])
            o = mon.call(JSONPatch, [op] * m)
            calls.append(("JSONPatch", o, PATCHERR))
            if o.ok:
                calls.append(("apply", mon.call(o.value.apply, d), PATCHERR))
                calls.append(("asdicts", mon.call(o.value.asdicts), ()))
    finally:
        sys.setrecursionlimit(old)
    for nm, o, family in calls:
        if o.ok or (family and isinstance(o.exc, family)):
            continue
        mech = fragile if fragile and isinstance(o.exc, RecursionError) else f"endless:{kind}:{nm}:{o.kind}"
        mon.violation(mech, "a flat but long input raised a built-in exception", kind=kind, text=text[:80], length=n if fragile else m, call=nm, got=repr(o)[:300])


def wide(rng, mon):
    """Values of many members, items or characters in every place a value can be."""
    n = rng.choice([257, 1000, 4096, 5000, 10001])
    item = rng.choice([lambda i: i, lambda i: {"a": i}, lambda i: str(i), lambda i: [i], lambda i: None, lambda i: i / 4, lambda i: {"a": {"b": "x" * (i % 7)}}])
    v = rng.choice([lambda: [item(i) for i in range(n)], lambda: {"k%d" % i: item(i) for i in range(n)}, lambda: {str(i): item(i) for i in range(n)}, lambda: rng.choice("aé😀 0") * n, lambda: 10 ** min(n, 4000)])()
    doc = rng.choice([lambda: v, lambda: {"a": v, "b": [v]}, lambda: [v, {"a": v}, 1], lambda: {"a": v, "b": docs.clone(v)}])()
    ctx = rng.choice([{}, {"a": v}])
    f = rng.choice(["length(@)", "length(@.a)", "count(@.*)", "count(@..*)", "value(@.*)", "value(@.a)", "typeof(@)", "isinstance(@, 'array')", "is(@, 'object')", "match(@, 'a+')", "search(@.a, '^.b')", "length(value($..a))", "@", "@.a", "$.a", "_.a", "#", "@.*", "@..a", "@[-1]", "@[5:4000:7]", "@.k4999", "$[0]"])
    op = rng.choice(["==", "!=", "<", ">=", "in", "contains", "=~", "<="])
    if "$.." in f and n > 257:
        f = f.replace("$..a", "$.a")  # a descent from the root at every node takes minutes
    text = rng.choice([f"$[?{f}]", f"$[?{f} {op} {rng.choice(OPERANDS)}]", f"$[?{f} {op} {rng.choice(['@', '@.a', '$.a', '_.a', '$.b', '#', '@.b'])}]", f"$..[?{f}]", f"$[?!({f})]", "$.*", "$..a", "$[::3]", "$[-1, 0, *]", "$.~", "$..*", "$.a | $.b", "$.* & $.a", "^[0]", "$.a.k77", "$[?@ == 1].a", f"$.*[?{f} {op} 'a']"])
    mon.count("wide_cases")
    query_text(rng, mon, text, 0, "wide")
    o = mon.call(jsonpath.compile, text)
    if o.ok:
        evaluate_everyhow(rng, mon, text, o.value, doc, ctx)
    t = rng.choice(["/a", "/0", "", "/a/4999", "/b/0/k5", "/-", "/a/-", "/a/99999", "/0/#1", "/a/k1/b", "/#a"])
    p = JSONPointer(t)
    allowed(mon, mon.call(p.resolve, doc), JSONPointerResolutionError, "wide:resolve", pointer=t, size=n)
    allowed(mon, mon.call(p.exists, doc), (), "wide:exists", pointer=t, size=n)
    d = docs.clone(doc)
    ops = [{"op": o, "path": rng.choice([t, "/a", "/z", ""]), "from": rng.choice([t, "/a"]), "value": rng.choice([1, d, v])} for o in rng.sample(OPS, 2)]
    if all(not (x["op"] == "remove" and x["path"] == "") for x in ops):
        a = mon.call(lambda: JSONPatch(docs.clone(ops)).apply(d))
        allowed(mon, a, PATCHERR, "wide:apply", ops=str([(x["op"], x["path"]) for x in ops]), size=n)


N_GRID = (2 * len(GRID) ** 3) // 64 + 1

WORKLOADS = {
    "grid": (grid, N_GRID, N_GRID + 20000),
    "soup": (soup, 6000, 120000),
    "mutants": (mutants, 6000, 120000),
    "valid": (valid, 3000, 60000),
    "operators": (operators, len(OPERANDS) ** 2 * 14, 3 * len(OPERANDS) ** 2 * 14),
    "functions": (functions, 3000, 40000),
    "regexes": (regexes, 2000, 40000),
    "evolve": (evolve, 250, 6000),
    "pointers": (pointers, 5000, 120000),
    "relative": (relative, 3000, 60000),
    "patches": (patches, 8000, 160000),
    "deep": (deep, 400, 6000),
    "endless": (endless, 500, 12000),
    "wide": (wide, 400, 8000),
}
