"""C10: a compiled query's string form recompiles to an equivalent query."""

import itertools
import json
import os

import jsonpath

from vlib import docs
from vlib import mix
from vlib import probe
from vlib import rt

PROPERTY = "C10"
RULE = (
    "Every generated or mutated text the default environment accepts is compiled, printed, recompiled and printed again: the printed text must "
    "compile, be a fixed point, and both compiled queries must give the same sequence of (value, path, location), or the same error class, on the "
    "document the text was generated for and on documents directed at the text's names and constants (near-miss strings, numbers, types).  Separate "
    "workloads: operator groupings over complete truth-table documents, hostile strings, number spellings, regular expressions with flags, the "
    "compliance corpus.  Non-trivial: the printed text differs from the source or some document gives matches.  Distinct by source text."
)
REQUIRED = {"recompiled": 5000, "matched": 3000, "groupings": 500, "strings": 500, "numbers": 500, "regexes": 500, "lists": 500, "documents": 20000}
ASSUMPTIONS = [
    "equivalence of two compiled queries is judged on the generated documents, not proved",
]


def check(mon, what, text, extra, documents):
    """Compile, print, recompile, compare. Returns True if the text is accepted."""
    first = mon.call(jsonpath.compile, text)
    if not first.ok:
        mon.count("rejected_sources")
        return None
    p = first.value
    printed = mon.call(str, p)
    if not printed.ok or type(printed.value) is not str:
        mon.violation(f"{what}:str", "an accepted query has no string form", query=text, outcome=repr(printed))
    s = printed.value
    again = mon.call(jsonpath.compile, s)
    if not again.ok:
        mon.violation(f"{what}:recompile", "the string form does not compile", query=text, string_form=s, error=repr(again.exc))
    p2 = again.value
    mon.count("recompiled")
    fixed = mon.call(str, p2)
    if not fixed.ok or fixed.value != s:
        mon.violation(f"{what}:fixed-point", "the string form is not a fixed point", query=text, string_form=s, second=repr(fixed))
    some = False
    for d in documents:
        a = probe.observe(lambda: p.finditer(d, filter_context=extra))
        b = probe.observe(lambda: p2.finditer(d, filter_context=extra))
        mon.count("documents")
        if a[0]:
            some = True
        if a[1] is not None:
            mon.see("evaluation_error", type(a[1]).__name__)
        how = probe.differ(a, b)
        if how:
            mon.violation(f"{what}:matches", "the recompiled string form gives other matches", query=text, string_form=s, how=how,
                          document=docs.fingerprint(d), context=docs.fingerprint(extra), source_matches=probe.show(a), string_form_matches=probe.show(b))
    mon.count("matched", some)
    mon.case(text, some or s != text)
    if some and s != text and 20 < len(text) < 90 and mon.want_sample():
        mon.sample({"query": text, "string_form": s, "documents": len(documents)})
    return s


def texts(rng, mon):
    """Any accepted text of the whole language, large and mutated ones included."""
    if rng.random() < 0.12:
        doc, extra, text, label = mix.large(rng)
        label = "large-" + label
        mon.count("large")
    else:
        doc, extra = mix.make(rng)
        text, label = mix.any_text(rng, doc, extra)
    ok = check(mon, "texts", text, extra, [doc, *probe.documents(rng, text, doc, 3)])
    if ok is not None:
        mon.count("text:" + label)
        if label == "mutated":
            mon.see("mutant_shape", _shape(ok))


def _shape(s):
    out = []
    for ch in s:
        c = "a" if ch.isalnum() else ch
        if not out or out[-1] != c:
            out.append(c)
    return "".join(out)[:60]


# ------------------------------------------------------------------ grouping

VALUES = [None, False, True, 1, "x", [1]]
ABSENT = object()


def _rows():
    """Every combination of member values of a row, as one array."""
    rows = []
    for combo in itertools.product([ABSENT, *VALUES], repeat=3):
        rows.append({k: v for k, v in zip("abc", combo) if v is not ABSENT})
    return rows


ROWS = _rows()
LISTS = ["null", "None", "nil", "none", "Null", "true", "True", "false", "False", "1", "-1.5", "1e2", "'x'", '"y"', "''", "[1]", "['x', null]", "[]"]
ATOMS = ["@.a in [1, null]", "[nil, 'x'] contains @.b", "@.b in [True, None]", "@.c == [1]", "@.a", "@.b", "@.c", "@['a']", "@.a == 1", "@.b == true", "false == @.c", "@.c in [1, 'x']", "@.a in @.c", "[1, true] contains @.b", "@.a =~ /x/", "@.b < 2", "@.a == @.b", "@.c != null", "isinstance(@.a, 'number')", "match(@.b, 'x')", "length(@.c) == 1", "@.a == undefined", "$[0]", "_.a", "# == 3", "count(@.*) > 1"]
OPS = ["&&", "||", "and", "or"]
OPERANDS = ["@.a", "@.b", "@.c", "1", "true", "null", "'x'", "false", "undefined", "[1]", "#", "length(@.c)", "count(@.*)"]


def group(rng, depth):
    r = rng.random()
    if depth == 0 or r < 0.15:
        return rng.choice(ATOMS)
    if r < 0.55:
        n = rng.choice([2, 2, 3])
        parts = [group(rng, depth - 1) for _ in range(n)]
        out = parts[0]
        for x in parts[1:]:
            out += f" {rng.choice(OPS)} " + x
        return out
    if r < 0.75:
        x = group(rng, depth - 1)
        return rng.choice(["!", "not ", "!!", "! "]) + (f"({x})" if rng.random() < 0.7 else x)
    if r < 0.9:
        return f"({group(rng, depth - 1)})"
    return nested(rng, depth)


def nested(rng, depth):
    """A comparison or membership whose operands are expressions themselves."""
    def operand():
        r = rng.random()
        if r < 0.12:
            items = [rng.choice(LISTS) for _ in range(rng.randint(0, 4))]
            if items and rng.random() < 0.3:
                items.insert(rng.randint(0, len(items)), rng.choice(items))
            return "[" + ", ".join(items) + "]"
        if r < 0.4:
            return rng.choice(OPERANDS)
        if r < 0.7:
            return f"({rng.choice(OPERANDS)} {rng.choice(['==', '!=', '<', '>=', 'in', 'contains', '<>', '<='])} {rng.choice(OPERANDS)})"
        if r < 0.8:
            return f"!{rng.choice(OPERANDS[:3])}"
        return f"({group(rng, depth - 1)})" if rng.random() < 0.8 else f"!({group(rng, depth - 1)})"
    out = operand()
    for _ in range(rng.choice([1, 1, 2])):
        out += f" {rng.choice(['==', '!=', '<', '>=', 'in', 'contains', '<>', '=='])} " + operand()
    return out


def grouping(rng, mon):
    """Operators in every grouping, over complete truth-table documents."""
    e = group(rng, rng.choice([1, 2, 2, 3]))
    text = rng.choice(["$[?{}]", "$[?{}]", "$.*[?{}]", "$[?@[?{}]]"]).format(e)
    rows = rng.sample(ROWS, 110)
    if text.startswith("$.*") or text.startswith("$[?@["):
        documents = [[rows[i : i + 3] for i in range(0, len(rows), 3)], {"a": rows, "b": rows[:5]}]
    else:
        documents = [rows]
    if check(mon, "grouping", text, {"a": True} if rng.random() < 0.5 else {}, documents) is not None:
        mon.count("groupings")
        mon.see("grouping_shape", _shape(e))


# ------------------------------------------------------------------- strings

CHUNKS = ["\\", "'", '"', "/", "\n", "\r", "\t", "\b", "\f", "\u0000", "\u001f", "\u007f", "\u0080", "\u2028", "é", "😀", "\ud83d", "\ude00", "\\u0041", "\\'", '\\"', "\\\\", "\\n", "a", "b", " ", "$", "[", "]", "?", "#", "~", "%", "{", "}", "\ufeff", "\uffff", "u0041", "`"]


def spell(rng, s, q=None):
    """A literal spelling of s with random legal escapes."""
    q = q or rng.choice("'\"")
    out = [q]
    for ch in s:
        o = ord(ch)
        if ch == q:
            out.append("\\" + q)
        elif ch == "\\":
            out.append("\\\\" if rng.random() < 0.8 else "\\u005c")
        elif o < 0x20:
            out.append(json.dumps(ch)[1:-1] if rng.random() < 0.7 else "\\u%04X" % o)
        elif rng.random() < 0.1 and o <= 0xFFFF:
            out.append("\\u%04x" % o)
        elif rng.random() < 0.1 and ch == "/":
            out.append("\\/")
        elif 0xD800 <= o <= 0xDFFF and rng.random() < 0.8:
            out.append("\\u%04x" % o)
        else:
            out.append(ch)
    return "".join(out) + q


def strings(rng, mon):
    """Hostile strings in every place a string literal can be."""
    s = "".join(rng.choice(CHUNKS) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])))
    lit = spell(rng, s)
    text = rng.choice([
        "$[{0}]", "$[{0}]", "$..[{0}]", "$[{0}, 'a']", "$[{0}][{0}]", "$[?@ == {0}]", "$[?@[{0}]]", "$[?@[{0}] == {0}]", "$[?{0} == @]", "$[?@ in [{0}, 1]]",
        "$[?@ contains {0}]", "$.*[?# == {0}]", "$[?length({0}) == length(@)]", "$[?search(@, {0})]", "$[?$[{0}] == @]", "$[?_[{0}]]", "$..[?@ >= {0}]", "^[{0}] | $[{0}]", "$[?isinstance(@[{0}], {0})]",
    ]).format(lit)
    variants = [s] + [v for v in (probe.near(rng, s) for _ in range(6)) if isinstance(v, str)] + [lit[1:-1], lit, json.dumps(s)[1:-1], s[::-1]]
    variants = list(dict.fromkeys(variants))
    obj = {v: rng.choice([v, 1, {v: v}, [v], s]) for v in variants}
    arr = [*variants, [s], {s: s}, {s: {s: 1}}, 1, None]
    if check(mon, "strings", text, {s: 1, "a": 2}, [obj, arr, {"a": obj, s: arr}, [obj]]) is not None:
        mon.count("strings")
        mon.see("string", s if s.isprintable() else repr(s))


# ------------------------------------------------------------------- numbers


def number_text(rng):
    r = rng.random()
    sign = rng.choice(["", "", "-"])
    if r < 0.3:
        return sign + str(rng.choice([0, 1, 2, 9, 10, 255, 2**31, 2**53, 2**53 + 1, 2**63, 2**64, 10**18, 10**22 + 1, rng.randint(0, 10**25)]))
    if r < 0.5:
        return sign + repr(rng.choice([rng.random(), rng.random() * 10 ** rng.randint(-20, 20), 0.1, 1e16, 123456789012345680.0, 5e-324, 1.7976931348623157e308, 1e-7, 0.00001])).replace("e", rng.choice(["e", "E"]))
    if r < 0.85:
        m = str(rng.choice([0, 1, 5, 12, 123, 99]))
        if rng.random() < 0.5:
            m += "." + str(rng.choice(["0", "5", "05", "50", "000001", "999999999999999999"]))
        return sign + m + rng.choice(["e", "E"]) + rng.choice(["", "+", "-"]) + str(rng.choice([0, 1, 2, 5, 15, 16, 17, 22, 23, 300, 308, 309, 320, 400]))
    if r < 0.93:
        return sign + "0" * rng.randint(0, 2) + str(rng.randint(0, 999)) + rng.choice(["", ".", ".0", ".00"])
    return sign + str(rng.randint(1, 9)) * rng.choice([30, 310, 400])


def numbers(rng, mon):
    """Number literals in every spelling and size."""
    t = number_text(rng)
    text = rng.choice(["$[?@ == {}]", "$[?@ < {}]", "$[?@ >= {}]", "$[?{} == @]", "$[?@ in [{}, 'x']]", "$[?@ == {} || @ == 'x']", "$[?!(@ <= {})]", "$.*[?@ == {}]", "$[?length(@) == {}]", "$[?# == {}]"]).format(t)
    vals = [0, -0.0, 1, -1, 0.5, True, "x"]
    _, _, ns = probe.constants(t)
    for v in ns:
        vals += [x for x in (probe.near(rng, v) for _ in range(8)) if probe.finite(x)]
        if probe.finite(v):
            vals.append(v)
    if check(mon, "numbers", text, {}, [vals, [vals, vals[::-1]], {str(i): v for i, v in enumerate(vals)}]) is not None:
        mon.count("numbers")
        mon.see("number", t[:40])


def indices(rng, mon):
    """Indices, slices and the keys selector."""
    n = rng.choice([0, 1, 2, 5, -1, -2, -5, 9, 2**53 - 1, -(2**53) + 1])
    b = lambda: rng.choice(["", "", "0", "1", "2", "-1", "-2", "7", "-7", "9007199254740991", "-9007199254740991"])  # noqa: E731
    sl = b() + ":" + b() + rng.choice(["", ":", ":" + b()])
    text = rng.choice(["$[{0}]", "$[{1}]", "$[{0},{1}]", "$..[{1}]", "$..[{0}]", "$[?@[{0}]]", "$[?@[{1}]]", "$[{1}][{1}]", "$.*[{0}, {1}, *]", "$[?@[{0}] == 1]", "$[{1}, ~]", "$.~", "$..~", "$[~, {0}]"]).format(n, sl)
    arr = list(range(rng.randint(0, 8)))
    doc = [arr, {str(n): 1, "a": arr, "0": [1, 2, 3]}, *[rng.randint(0, 2) for _ in range(6)]]
    if check(mon, "indices", text, {}, [doc, arr, {str(n): arr, "b": doc}, [doc, doc]]) is not None:
        mon.count("indices")


# ------------------------------------------------------------------- regexes

RE_ATOMS = ["a", "b", "A", ".", "\\d", "\\w", "\\s", "\\b", "[a-c]", "[^a]", "[A-Z]", "(a|b)", "(?:ab)", "(?i:a)", "a*", "b+", "a?", "x{2}", "^", "$", "\\n", "\\.", " ", "é", "É", "\\u00e9", "\\x41", "(?=a)", "\\Z", "\\A", "(?P<n>a)(?P=n)", "'", '"', "ſ", "K", "\\\\", "#", "]", ",", "\\'", "ß"]


def regexes(rng, mon):
    """Regular-expression literals with flags."""
    pat = "".join(rng.choice(RE_ATOMS) for _ in range(rng.choice([1, 1, 2, 3, 4])))
    if rng.random() < 0.1:
        pat = rng.choice(["(?i)", "(?s)", "(?m)", "(?a)", "(?x)", "(?im)"]) + pat
    flags = "".join(rng.choice("aims") for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4])))
    text = rng.choice(["$[?@ =~ /{}/{}]", "$[?@ =~ /{}/{}]", "$[?@ =~ /{}/{} && @ != 'a']", "$[?!(@ =~ /{}/{})]", "$[?!@.a && @ =~ /{}/{} || false == true]", "$.*[?@ =~/{}/{}]", "$[?# =~ /{}/{}]"]).format(pat, flags)
    parts = ["a", "b", "A", "B", "ab", "\n", "é", "É", "e", "x", "xx", "1", "٣", "_", " ", ".", "\\", "'", '"', "ſ", "s", "k", "K", "aa", "SS", "ß", "#", "]"]
    vals = ["".join(rng.choice(parts) for _ in range(rng.randint(0, 3))) for _ in range(25)]
    vals += parts + [p + "\n" for p in parts[:6]] + [None, 1, ["a"]]
    obj = {v: v for v in vals if isinstance(v, str)}
    if check(mon, "regexes", text, {}, [vals, [vals], obj]) is not None:
        mon.count("regexes")
        mon.see("regex", f"{pat}/{flags}")


# -------------------------------------------------------------------- corpus

with open(os.path.join(rt.VERIF, "data", "cts.json"), encoding="utf-8") as _f:
    CTS = [t for t in json.load(_f)["tests"] if not t.get("invalid_selector")]


def corpus(rng, mon):
    """The valid queries of the compliance test suite."""
    t = rng.choice(CTS)
    doc = t["document"]
    text = t["selector"]
    if check(mon, "corpus", text, {}, [doc, *probe.documents(rng, text, doc, 4)]) is not None:
        mon.count("corpus")
        mon.see("corpus_case", t["name"])


# --------------------------------------------------------------------- lists

ITEMS = [("null", None), ("nil", None), ("true", True), ("True", True), ("false", False), ("1", 1), ("1.0", 1.0), ("-1", -1), ("0", 0), ("1.5", 1.5), ("1e2", 100), ("'x'", "x"), ('"x"', "x"), ("''", ""), ("'a, b'", "a, b"), ("', '", ", "), ("']'", "]"), ("'1'", "1"), ("'null'", "null"), ("[1]", [1]), ("[]", []), ("['x', 'x']", ["x", "x"])]


def lists(rng, mon):
    """List literals as operands, against documents of lists that are nearly the same."""
    picked = [rng.choice(ITEMS) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
    if picked and rng.random() < 0.4:
        picked.insert(rng.randint(0, len(picked)), rng.choice(picked))
    lit = "[" + rng.choice([", ", ",", " , "]).join(t for t, _ in picked) + "]"
    v = [docs.clone(x) for _, x in picked]
    text = rng.choice([
        "$[?@ == {}]", "$[?@ == {}]", "$[?{} == @]", "$[?@ != {}]", "$[?@.a == {}]", "$[?@ in {}]", "$[?{} contains @]", "$[?@ in [{}, 1]]", "$[?[{}] contains @]", "$[?@ == [{}]]",
        "$[?!(@ == {}) && @]", "$[?@.a == {} || @.b]", "$[?# == {}]", "$..[?@ == {}]", "$[?@ < {}]", "$[?@ >= {}]", "$[?length({}) == @]", "$[?_.a == {}]", "$[?(@ in {}) == true]", "$[?@ contains {}]",
    ]).format(lit)
    near = [v, v[::-1], list({docs.fingerprint(x): x for x in v}.values()), v[:-1], v[1:], v + v[-1:], v[:1] + v, [v], v + [v], sorted(v, key=docs.fingerprint), [], [str(x) for x in v]]
    for i in range(min(4, len(v))):
        w = docs.clone(v)
        w[i] = probe.near(rng, w[i]) if isinstance(w[i], str) or docs.is_num(w[i]) else rng.choice([None, 0, 1, True, [], "null"])
        near.append([x if probe.finite(x) else 0 for x in w])
    near = [docs.clone(x) for x in near]
    documents = [near + v + [None, 1, 0, len(v), "x", True], [{"a": x} for x in near] + [{"b": 1}], [near, near[::-1]], {str(i): x for i, x in enumerate(near)}]
    if check(mon, "lists", text, {"a": docs.clone(rng.choice(near))}, documents) is not None:
        mon.count("lists")


WORKLOADS = {
    "texts": (texts, 9000, 400000),
    "grouping": (grouping, 2500, 120000),
    "strings": (strings, 2500, 120000),
    "numbers": (numbers, 2500, 80000),
    "indices": (indices, 1200, 30000),
    "regexes": (regexes, 2500, 100000),
    "lists": (lists, 2500, 90000),
    "corpus": (corpus, 1200, 30000),
}


