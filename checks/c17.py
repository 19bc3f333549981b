"""C17: renaming the environment's identifier tokens never changes what a query means."""

import random

import jsonpath

from vlib import aio
from vlib import docs
from vlib import mix
from vlib import probe

PROPERTY = "C17"
RULE = (
    "The same random choices are rendered twice, once with the default spellings and once with the spellings of a random assignment of distinct, "
    "non-overlapping tokens (1-3 characters, prefix-related pairs, permutations of the defaults); the default environment evaluates the first, a "
    "subclass with the token attributes set evaluates the second, on the document at hand and on documents directed at the query's constants.  Values "
    "and locations must agree (the root and keys spellings aside); so must acceptance.  The renamed query's string form must recompile in its own "
    "environment to the same matches and be a fixed point.  Non-trivial: the query uses an identifier that is spelled differently besides the root, "
    "or has matches.  Distinct by renamed text and assignment."
)
REQUIRED = {"evaluated": 5000, "matched": 3000, "printed": 5000, "prefix_pairs": 1000, "multi_char": 3000, "both_reject": 50, "other_entry_points": 1000}
ASSUMPTIONS = [
    "spellings are made of ASCII characters that start no other token of the language, so none can be read as part of a name, number, string or operator",
    "compound operators are surrounded by blanks when their spelling is prefix-related to another one",
]

ATTRS = {"$": "root_token", "@": "self_token", "#": "key_token", "_": "filter_context_token", "~": "keys_selector_token", "^": "fake_root_token", "|": "union_token", "&": "intersection_token"}

# Characters that begin nothing else (with the defaults, minus operators' own).
CHARS = ["$", "@", "#", "^", "~", "%", ";", "{", "}", "`", "+", "_"]
WORDS = ["DOC", "CUR", "KEY", "CTX", "KS", "FR", "UN", "IX", "R", "S", "K", "C"]


def assignment(rng):
    """A token assignment {default: spelling} and a label."""
    keys = list(ATTRS)
    r = rng.random()
    if r < 0.15:
        # a permutation of the defaults
        v, w = list("$@#_~^"), list("|&")
        rng.shuffle(v)
        rng.shuffle(w)
        return dict(zip("$@#_~^|&", v + w)), "permutation"
    if r < 0.3:
        # one identifier re-spelled
        t = {k: k for k in keys}
        k = rng.choice(keys)
        while t[k] in keys or t[k] in t.values() and list(t.values()).count(t[k]) > 1:
            t[k] = spelling(rng)
        return t, "one"
    if r < 0.55:
        # prefix-related: tokens of the form c, cc, ccc, cd
        c = rng.sample([x for x in CHARS if x != "_"], 3)
        pool = []
        for x in c:
            pool += [x, x + x, x + x + x, x + rng.choice(CHARS), x + rng.choice(CHARS) + rng.choice(CHARS)]
        pool = list(dict.fromkeys(pool))
        rng.shuffle(pool)
        return dict(zip(keys, pool[:8])), "prefix"
    if r < 0.62:
        # (a word spelling of the keys selector would be a name in `.word`)
        return {**dict(zip(keys, rng.sample(WORDS, 8))), "~": rng.choice(["~", "%", "*~"])}, "words"
    if r < 0.7:
        # the spellings the documentation and tests use
        t = {k: k for k in keys}
        t[rng.choice("~")] = "*~"
        t["^"] = "$$"
        if rng.random() < 0.5:
            t["_"] = rng.choice(["__", "_c", "ctx", "%ctx"])
        return t, "documented"
    while True:
        pool = [spelling(rng) for _ in keys]
        if len(set(pool)) == 8:
            return dict(zip(keys, pool)), "random"


def spelling(rng):
    n = rng.choice([1, 1, 2, 2, 3])
    return "".join(rng.choice(CHARS) for _ in range(n))


def usable(t):
    """Distinct, and `.` followed by the keys selector is no name."""
    v = list(t.values())
    return len(set(v)) == len(v) and all(v) and t["~"][0] != "_"


def prefix_related(t):
    v = list(t.values())
    return any(a != b and (a.startswith(b)) for a in v for b in v)


def subclass(rng, t, **kw):
    cls = type("Renamed", (jsonpath.JSONPathEnvironment,), {ATTRS[k]: v for k, v in t.items()})
    if rng.random() < 0.2:
        # inherited from a further subclass
        cls = type("Further", (cls,), {})
    return cls(**kw)


DEFAULT = None


def worker_setup(wid):
    global DEFAULT
    DEFAULT = jsonpath.JSONPathEnvironment()


class Spaced(mix.render.Renderer):
    """Blanks around the compound operators, always."""

    def compound(self, q):
        if q[0] == "q":
            return self.query(q)
        out = [self.query(q[1])]
        for op, r in q[2]:
            out += [" " + self.S(), self.tokens[op], " " + self.S(), self.query(r)]
        return "".join(out)


def spell(seed, tokens, doc, extra, kind, blanks, names):
    """A query text: the same seed gives the same query, in other spellings."""
    rng = random.Random(seed)
    if kind == "ast":
        q = mix.ast(rng, doc, extra, ext=True, compound=0.3, filters=0.6)
        r = Spaced(rng, blanks=blanks, escapes=0.1 if rng.random() < 0.3 else 0, brackets=rng.random(), parens=rng.choice([0, 0.2]), ext=rng.choice([0, 0.4]), tokens=tokens)
        return r.compound(q)
    w = mix.Wild(rng, doc, extra, tokens=tokens, blanks=blanks)
    if kind == "filter":
        return w.filtered()
    return w.top(0.3)


SAFE_NAMES = [["a", "b", "c"], ["a", "b", "x", "y"], ["a", "0", "1", "x1"], ["k-v", "é", "a", "order"], ["a b", "it's", 'q"q', "\\", "~", "/", "", "\n", "$", "@", "#", "%", "^^", "DOC", "_"]]


def case(rng, mon):
    """One abstract query in the default environment and in one with other token spellings."""
    t, label = assignment(rng)
    if not usable(t):
        return
    mon.see("assignment", " ".join(t.values()))
    mon.count("label:" + label)
    env = subclass(rng, t, **({} if rng.random() < 0.7 else {"filter_caching": False}))
    for _ in range(QUERIES):
        one(rng, mon, t, label, env)


QUERIES = 10


def one(rng, mon, t, label, env):
    words = label == "words" or any(v[0].isalpha() for v in t.values())
    underscore = any(v[0] == "_" for k, v in t.items())
    if rng.random() < 0.05:
        # one dimension of the text or document pushed far
        seed = rng.random()
        doc, extra, base, _ = mix.large(random.Random(seed))
        text = mix.large(random.Random(seed), t)[2]
        mon.count("large")
        if not (underscore and has_underscore_word(base) or words and has_word(base, t)):
            judge(mon, rng, env, t, base, text, doc, extra)
        return
    names = rng.choice(SAFE_NAMES)
    doc, extra = mix.make(rng, names=names)
    kind = rng.choice(["ast", "ast", "filter", "top"])
    blanks = rng.choice([0, 0.2])
    seed = rng.random()
    base = spell(seed, {k: k for k in ATTRS}, doc, extra, kind, blanks, names)
    text = spell(seed, t, doc, extra, kind, blanks, names)
    if underscore and has_underscore_word(base) or words and has_word(base, t):
        mon.count("skipped_overlap")
        return
    judge(mon, rng, env, t, base, text, doc, extra)


def has_underscore_word(text):
    """A bare name or function name containing an underscore, in the default spelling."""
    import re

    bare = probe.RE_STRING.sub(" ", text)
    return bool(re.search(r"\w_|_\w|\._", bare))


def has_word(text, t):
    """A bare word that begins with one of the spellings."""
    import re

    bare = probe.RE_STRING.sub(" ", text)
    return any(w.startswith(v) for w in re.findall(r"\w+", bare) for v in t.values() if v[0].isalpha() and w != "_")


def uses(base, t):
    return sorted(k for k in ATTRS if t[k] != k and k in base)


def judge(mon, rng, env, t, base, text, doc, extra):
    a, b = mon.call(DEFAULT.compile, base), mon.call(env.compile, text)
    if a.ok != b.ok or not a.ok and a.kind != b.kind:
        mon.violation("acceptance", "only one of the spellings compiles, or they are rejected differently", default=base, renamed=text, tokens=str(t), default_outcome=repr(a), renamed_outcome=repr(b))
    if not a.ok:
        mon.count("both_reject")
        return
    p, q = a.value, b.value
    mon.count("evaluated")
    mon.count("prefix_pairs", prefix_related(t))
    mon.count("multi_char", any(len(v) > 1 for v in t.values()))
    for k in uses(base, t):
        mon.count("respelled:" + k)
    s = mon.call(str, q)
    if not s.ok:
        mon.violation("string-form", "a compiled query has no string form", renamed=text, tokens=str(t), outcome=repr(s))
    again = mon.call(env.compile, s.value)
    if not again.ok:
        mon.violation("string-form:recompile", "the string form does not compile in the environment that produced it", default=base, renamed=text, string_form=s.value, tokens=str(t), error=repr(again.exc))
    fixed = mon.call(str, again.value)
    if not fixed.ok or fixed.value != s.value:
        mon.violation("string-form:fixed-point", "the string form is not a fixed point", renamed=text, string_form=s.value, second=repr(fixed), tokens=str(t))
    mon.count("printed")
    q2 = again.value
    some = False
    for d in [doc, *probe.documents(rng, base, doc, 2)]:
        x = probe.observe(lambda: p.finditer(d, filter_context=extra))
        y = probe.observe(lambda: q.finditer(d, filter_context=extra))
        z = probe.observe(lambda: q2.finditer(d, filter_context=extra))
        some = some or bool(x[0])
        how = differ(t, x, y)
        if how:
            mon.violation("matches", "the renamed query gives other matches", how=how, default=base, renamed=text, tokens=str(t), document=docs.fingerprint(d), context=docs.fingerprint(extra), default_matches=probe.show(x), renamed_matches=probe.show(y))
        if rng.random() < 0.25:
            w = aio.drive(_values(env, text, d, extra))[0] if rng.random() < 0.5 else probe_values(lambda: env.findall(text, d, filter_context=extra))
            mon.count("other_entry_points")
            if type(w[1]) is not type(y[1]) or w[1] is None and not docs.same_list(w[0], [v for v, _, _ in y[0]]):
                mon.violation("entry-points", "the renamed environment's other entry points disagree with its compiled query", default=base, renamed=text, tokens=str(t), document=docs.fingerprint(d), compiled=probe.show(y), other=repr(w)[:500])
        how = probe.differ(y, z)
        if how:
            mon.violation("string-form:matches", "the recompiled string form gives other matches", how=how, renamed=text, string_form=s.value, tokens=str(t), document=docs.fingerprint(d), renamed_matches=probe.show(y), string_form_matches=probe.show(z))
    mon.count("matched", some)
    mon.case(text + "\0" + "\0".join(t.values()), some or len(uses(base, t)) > 1)
    if some and len(uses(base, t)) > 2 and mon.want_sample():
        mon.sample({"default": base, "renamed": text, "tokens": t, "string_form": s.value})


async def _values(env, text, d, extra):
    try:
        return await env.findall_async(text, d, filter_context=extra), None
    except Exception as e:  # noqa: BLE001
        return None, e


def probe_values(fn):
    try:
        return fn(), None
    except Exception as e:  # noqa: BLE001
        return None, e


def differ(t, a, b):
    """None, or how values or locations differ, the keys selector's spelling aside."""
    (xs, e), (ys, f) = a, b
    if type(e) is not type(f):
        return f"{e!r} against {f!r}"
    if len(xs) != len(ys):
        return f"{len(xs)} matches against {len(ys)}"
    for i, ((v, _, s), (w, _, u)) in enumerate(zip(xs, ys)):
        if not (v is w or docs.same(v, w)):
            return f"match {i} has another value"
        if s == u and [type(x) for x in s] == [type(x) for x in u]:
            continue
        if s and u and s[:-1] == u[:-1] and isinstance(v, str) and s[-1] == "~" + v and u[-1] == t["~"] + v:
            continue
        return f"match {i} has another location: {s} against {u}"
    return None


WORKLOADS = {"spellings": (case, 1600, 80000)}
