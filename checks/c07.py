"""C07: the compile-time gate."""

import json
import os

import jsonpath
from jsonpath import JSONPathEnvironment
from jsonpath import JSONPathError

from vlib import docs
from vlib import genq
from vlib import iregexp
from vlib import render
from vlib import rt

PROPERTY = "C07"
RULE = (
    "(a) Valid programs: random derivations of the RFC 9535 grammar (every production, any spelling) and document-guided well-typed queries must compile, as must the "
    "valid half of the compliance suite.  (b) Every call of the five standard functions with up to three arguments drawn from 18 argument kinds, in 8 positions, classified "
    "by an own implementation of the 2.4.3 typing rules: accepted iff well typed.  (c) A broken construct of each listed kind planted at a random position of a random "
    "well-typed program (under !, inside && / ||, parentheses, nested filters, function arguments) must be refused with a JSONPath error before any document is touched, and "
    "the same program with the sound counterpart must compile.  (d) Index and slice bounds at and around the limits, default and narrowed, at any position.  "
    "Non-trivial: all.  Distinct by (text, limits)."
)
REQUIRED = {"accepted": 20000, "refused": 20000, "pairs": 3000, "boundary": 3000}
ASSUMPTIONS = [
    "syntax the property does not list (e.g. -0 as an index, leading zeros in slices, extension syntax) is not judged",
]


class Poison(dict):
    """A document that reports being touched."""

    touched = 0

    def _t(self, *_):
        Poison.touched += 1
        raise RuntimeError("touched")

    __getitem__ = __iter__ = __len__ = keys = values = items = get = __contains__ = _t


class Lenient(jsonpath.JSONPathEnvironment):
    """Takes more than the default environment does."""

    max_int_index = 2**70
    min_int_index = -(2**70)


def rng_bit(text):
    return len(text) % 2 == 0


def must_compile(mon, text, why, env=None, **info):
    o = mon.call((env or jsonpath).compile, text)
    mon.case(f"{text}\0{getattr(env, 'max_int_index', '')}{getattr(env, 'min_int_index', '')}", True)
    if not o.ok:
        mon.violation(f"refused-valid:{why}:{o.kind}", "a well-formed, well-typed query was refused", query=text, got=repr(o), why=why, **info)
    mon.count("accepted")
    mon.see("accepted_kind", why)


def must_refuse(mon, text, why, env=None, **info):
    o = mon.call((env or jsonpath).compile, text)
    mon.case(f"{text}\0{getattr(env, 'max_int_index', '')}{getattr(env, 'min_int_index', '')}", True)
    if o.ok:
        mon.violation(f"accepted-invalid:{why}", "a query that must be rejected at compile time was accepted", query=text, compiled=rt.safe_str(o.value), why=why, **info)
    if not isinstance(o.exc, JSONPathError):
        mon.violation(f"wrong-error:{why}:{o.kind}", "a query was rejected with something other than a JSONPath error", query=text, got=repr(o), why=why, **info)
    mon.count("refused")
    mon.see("refused_kind", why + ":" + o.kind)
    if mon.evaluations % 16 == 0:
        if rng_bit(text):
            # an environment that is not as strict has evaluated the same text before
            lenient = (Lenient if len(text) % 4 else jsonpath.JSONPathEnvironment)(well_typed=False)
            mon.call(lambda: (lenient.findall(text, [{}]), list(lenient.finditer(text, [{}])), lenient.match(text, [{}]), list(lenient.query(text, [{}]))))
        Poison.touched = 0
        for call in (lambda: (env or jsonpath).findall(text, Poison()), lambda: list((env or jsonpath).finditer(text, Poison())), lambda: (env or jsonpath).match(text, Poison()), lambda: list((env or jsonpath).query(text, Poison()))):
            o2 = mon.call(call)
            mon.count("never_evaluated")
            if Poison.touched or o2.ok or not isinstance(o2.exc, JSONPathError):
                mon.violation(f"evaluated-invalid:{why}", "an invalid query was evaluated", query=text, got=repr(o2))


# ------------------------------------------------------- (a) valid programs


class Abnf:
    """Random derivations of the RFC 9535 grammar, well typed."""

    def __init__(self, rng, depth):
        self.rng = rng
        self.depth = depth
        self.sp = rng.choice([0, 0, 0.2, 0.6])

    def S(self):
        return "".join(self.rng.choice(" \t\n\r") for _ in range(self.rng.randint(1, 2))) if self.rng.random() < self.sp else ""

    def name(self):
        rng = self.rng
        if rng.random() < 0.3:
            return rng.choice(docs.RESERVED + ["a", "b", "_", "_a", "__", "A", "z9", "length", "count", "match", "value", "search", "e1", "E5", "true1", "nully", "is", "typeof", "i", "in_", "aims"])
        first = "abcxyzABCZ_é☺😀\u0080\ud7ff\ue000\uffff\U00010000\U0010ffff\u00a0\u2028\u200b١"
        return "".join(rng.choice(first if not i else first + "0123456789") for i in range(rng.randint(1, 5)))

    def string(self):
        rng = self.rng
        q = rng.choice("'\"")
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])):
            r = rng.random()
            if r < 0.15:
                out.append("\\" + rng.choice(["b", "f", "n", "r", "t", "/", "\\", q]))
            elif r < 0.3:
                h = rng.choice(["0000", "0041", "00e9", "00E9", "D7FF", "E000", "fFfF", "1F60", "2028", "0022", "0027", "005C", "001f", "0080"])
                out.append("\\u" + h)
            elif r < 0.36:
                out.append(rng.choice(["\\uD83D\\uDE00", "\\ud800\\udc00", "\\uDBFF\\uDFFF", "\\udbff\\uDC00"]))
            elif r < 0.45:
                out.append("'" if q == '"' else '"')
            elif r < 0.75:
                out.append(rng.choice(list(" !#$%&()*+,-./0123456789:;<=>?@[]^_`{|}~")))
            else:
                out.append(rng.choice(list("abnrtuU\u007f\u0080\u00a0é☺\u2028\ud7ff\ue000\ufeff\uffff😀\U0010ffff")))
        return q + "".join(out) + q

    def int(self):
        rng = self.rng
        r = rng.random()
        if r < 0.5:
            return str(rng.randint(-9, 9))
        if r < 0.8:
            return str(rng.randint(-(10**6), 10**6))
        return str(rng.choice([2**53 - 1, -(2**53) + 1, 2**53 - 2, 2**31, -(2**31), 10**15]))

    def number(self):
        rng = self.rng
        i = rng.choice(["0", "-0", "1", "-1", "10", "123", "-99", "9007199254740993", "123456789012345678901234567890", "-" + "9" * 40, "1" + "0" * 320])
        f = rng.choice(["", "", ".0", ".5", ".00", ".10", ".123456789012345678901234567890", "." + "0" * 30 + "1"])
        e = rng.choice(["", "", "e0", "E0", "e+0", "e-0", "e5", "E+05", "e-5", "e00", "e010", "e308", "e309", "e400", "e-400", "E99999", "e-99999"])
        return i + f + e

    def slice(self):
        rng = self.rng
        S = self.S
        out = ""
        if rng.random() < 0.5:
            out += self.int() + S()
        out += ":" + S()
        if rng.random() < 0.5:
            out += self.int() + S()
        if rng.random() < 0.5:
            out += ":"
            if rng.random() < 0.7:
                out += S() + self.int()
        return out

    def selector(self, d):
        r = self.rng.random()
        if r < 0.3:
            return self.string()
        if r < 0.4:
            return "*"
        if r < 0.55:
            return self.slice()
        if r < 0.7 or d <= 0:
            return self.int()
        return "?" + self.S() + self.logical(d - 1)

    def bracketed(self, d):
        return "[" + self.S() + (self.S() + "," + self.S()).join(self.selector(d) for _ in range(self.rng.choice([1, 1, 1, 2, 3]))) + self.S() + "]"

    def segment(self, d):
        r = self.rng.random()
        dd = ".." if self.rng.random() < 0.2 else ""
        if r < 0.5:
            return dd + self.bracketed(d)
        if r < 0.6:
            return (dd or ".") + "*"
        return (dd or ".") + self.name()

    def query(self, root, d, n=None):
        return root + "".join(self.S() + self.segment(d) for _ in range(self.rng.choice([0, 1, 1, 2, 3]) if n is None else n))

    def singular(self):
        rng = self.rng
        out = rng.choice("@@$")
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            out += self.S() + (("[" + self.string() + "]") if r < 0.35 else ("[" + self.int() + "]") if r < 0.6 else "." + self.name())
        return out

    def logical(self, d):
        return (self.S() + "||" + self.S()).join(self.conj(d) for _ in range(self.rng.choice([1, 1, 1, 2, 3])))

    def conj(self, d):
        return (self.S() + "&&" + self.S()).join(self.basic(d) for _ in range(self.rng.choice([1, 1, 1, 2, 3])))

    def basic(self, d):
        rng = self.rng
        r = rng.random()
        if d > 0 and r < 0.25:
            return rng.choice(["", "!" + self.S()]) + "(" + self.S() + self.logical(d - 1) + self.S() + ")"
        if r < 0.65:
            return self.comparable(d) + self.S() + rng.choice(["==", "!=", "<=", ">=", "<", ">"]) + self.S() + self.comparable(d)
        bang = ("!" + self.S()) if rng.random() < 0.3 else ""
        if r < 0.85:
            return bang + self.query(rng.choice("@@$"), d - 1)
        return bang + self.fn(rng.choice(["match", "search"]), d)

    def literal(self):
        return self.rng.choice([self.number, self.string, lambda: "true", lambda: "false", lambda: "null"])()

    def comparable(self, d):
        r = self.rng.random()
        if r < 0.35:
            return self.literal()
        if r < 0.75 or d <= 0:
            return self.singular()
        return self.fn(self.rng.choice(["length", "count", "value"]), d - 1)

    def fn(self, name, d):
        S = self.S
        args = {"length": "V", "count": "N", "value": "N", "match": "VV", "search": "VV"}[name]
        out = [self.comparable(d) if k == "V" else self.query(self.rng.choice("@@$"), d - 1) for k in args]
        return name + "(" + S() + (S() + "," + S()).join(out) + S() + ")"


def abnf(rng, mon):
    """Random derivations of the RFC grammar, well-typed by construction."""
    for _ in range(6):
        text = Abnf(rng, 0).query("$", rng.randint(0, 4), rng.randint(0, 4))
        must_compile(mon, text, "abnf")
    if mon.want_sample():
        mon.sample({"accepted": text})


def spelled(rng, mon):
    """Document-guided valid queries: text and canonical spelling."""
    g = docs.DocGen(rng, depth=rng.randint(1, 4), leaves=genq.SCALARS, unique=False, hostile=0.5)
    doc = g.value(container=True)
    for _ in range(4):
        q = genq.QueryGen(rng, doc, filters=0.6, max_segments=4).query("$")
        r = render.Renderer(rng, blanks=rng.choice([0, 0.2, 0.6]), escapes=rng.choice([0, 0.2]), brackets=rng.random(), parens=rng.choice([0, 0.3]))
        must_compile(mon, r.query(q), "spelled")


def cts(rng, mon):
    """The queries of the compliance test suite, valid and invalid."""
    index = mon.current[1]
    tests = CTS
    t = tests[index % len(tests)]
    if not t.get("invalid_selector"):
        must_compile(mon, t["selector"], "cts")


with open(os.path.join(rt.VERIF, "data", "cts.json"), encoding="utf-8") as f:
    CTS = json.load(f)["tests"]


# --------------------------------------------------- (b) function call grid

# kind: (text, class)   class: V value, S singular query, N other query, L logical
ARGS = [
    ("'a'", "V"), ("1", "V"), ("-1.5e2", "V"), ("true", "V"), ("null", "V"),
    ("@", "S"), ("@.a", "S"), ("$['a'][0]", "S"),
    ("@.*", "N"), ("$..a", "N"), ("@[0,1]", "N"), ("@[?@.a]", "N"),
    ("length(@.a)", "V"), ("count(@.*)", "V"), ("value($..a)", "V"),
    ("match(@.a,'a')", "L"), ("@.a==1", "L"), ("@.a&&@.b", "L"),
    ("!@.a", "L"), ("(@.a)", "L"),
]
SIG = {"length": ("V", "V"), "count": ("N", "V"), "value": ("N", "V"), "match": ("VV", "L"), "search": ("VV", "L")}


def fits(kind, param):
    return kind in ("V", "S") if param == "V" else kind in ("S", "N")


def well_typed(fn, kinds):
    sig = SIG[fn][0]
    return len(kinds) == len(sig) and all(fits(k, p) for k, p in zip(kinds, sig))


N = len(ARGS)
PER = 1 + N + N * N + N * N * N
POSITIONS = ["test", "cmp-left", "cmp-right", "not", "and", "or-paren", "arg-length", "arg-count", "arg-match", "nested"]


def calls(rng, mon):
    """Every call of a standard function, in one or more positions."""
    index = mon.current[1]
    for j in range(16):
        k = index * 16 + j
        fn = list(SIG)[k % 5]
        k //= 5
        if k >= PER:
            return
        # unrank the argument tuple
        n = 0
        while k >= N**n:
            k -= N**n
            n += 1
        args = []
        for _ in range(n):
            args.append(ARGS[k % N])
            k //= N
        sep = rng.choice([",", ", ", " , "])
        call = f"{fn}({sep.join(a for a, _ in args)})"
        good = well_typed(fn, [c for _, c in args])
        ret = SIG[fn][1] if good else None
        full = good or n <= 2
        for pos in POSITIONS if full else rng.sample(POSITIONS, 2):
            if pos == "test":
                text, ok = f"$[?{call}]", ret == "L"
            elif pos == "cmp-left":
                text, ok = f"$[?{call} {rng.choice(['==', '<', '!=', '>='])} {rng.choice(['1', '@.a', 'null'])}]", ret == "V"
            elif pos == "cmp-right":
                text, ok = f"$[?{rng.choice(['1', '@.a', 'length(@)'])}=={call}]", ret == "V"
            elif pos == "not":
                text, ok = f"$[?!{call}]", ret == "L"
            elif pos == "and":
                text, ok = rng.choice([f"$[?@.a && {call}]", f"$[?{call}&&@.a]", f"$[?@.b==1 && {call} && @.c]"]), ret == "L"
            elif pos == "or-paren":
                text, ok = rng.choice([f"$[?@.a || ({call})]", f"$[?({call}) || @.a]", f"$[?!({call})]", f"$[?(({call} || @.a))]"]), ret == "L"
            elif pos == "arg-length":
                text, ok = f"$[?length({call})==1]", ret == "V"
            elif pos == "arg-count":
                text, ok = rng.choice([f"$[?count({call})==1]", f"$[?value({call})==1]"]), False
            elif pos == "arg-match":
                text, ok = rng.choice([f"$[?match({call},'a')]", f"$[?search(@.a, {call})]"]), ret == "V"
            else:
                inner, iok = rng.choice([(f"?{call}", ret == "L"), (f"?{call}==1", ret == "V")])
                text, ok = rng.choice([f"$[?count(@[{inner}])>0]", f"$[?@.a[{inner}]]", f"$[?!$..[{inner}]]", f"$..[0, {inner}, 1]"]), iok
            mon.see("call_shape", f"{fn}/{n}/{pos}/{ok}")
            if ok:
                must_compile(mon, text, "call:" + pos)
            else:
                must_refuse(mon, text, "ill-typed-call:" + pos if not good else "misused-result:" + pos)


# ------------------------------------------------- (c) planted broken parts


def _lists():
    """Bracketed selections that are not one name or index."""
    one = ["0", "-1", "'a'", "'x y'", "*", "1:2", "::-1", "?@.a", "?@.a==1"]
    out = ["[%s]" % s for s in ("*", ":", "0:1", "0:1:1", "1:", "?@.a", "?@.a==1")]
    out += [f"[{a},{b}]" for a in one for b in one]
    out += ["['a','b','c']", "[0,1,2,3]", "[0, 'a', *]"]
    return out + [".*", "..a", "..*", "..[0]", "..['a']", "..[0,1]", "..[?@.a]", "..a..b"]


NONSINGULAR = _lists()


def a_query(rng, root=None, singular=False):
    root = root or rng.choice("@@$")
    sing = ["", ".a", "['b']", "[0]", ".a.b", "[-1]", "['x y'][0]", ".and"]
    non = [".*", "[*]", "..a", "..*", "[0,1]", "['a','b']", "[0:1]", "[:]", "[?@.a]", ".a[*]", "..[0]", "[*].a", "[?@.a==1].b", "[0,0]", "['a','a']", "..['a']"]
    if rng.random() < 0.5:
        return root + (rng.choice(sing) if singular else rng.choice(non))
    # any position of any segment
    out = [rng.choice(sing) for _ in range(rng.randint(0, 3))]
    if not singular:
        out.insert(rng.randint(0, len(out)), rng.choice(NONSINGULAR))
        if rng.random() < 0.15:
            out.insert(rng.randint(0, len(out)), rng.choice(NONSINGULAR))
    return root + "".join(out)


def literal(rng):
    return rng.choice(["1", "-1", "0", "1.5", "1e2", "'a'", '"b"', "''", "true", "false", "null", "-0"])


def value_fn(rng):
    return rng.choice(["length(@.a)", "count(@.*)", "value(@..a)", "length('abc')", "count($..*)", "length(value(@.*))", "value(@.a)"])


def logic_fn(rng):
    return rng.choice(["match(@.a, 'a')", "search(@.a, 'b')", "match('a', $.p)", "search(value(@.*), 'x')"])


def comparable(rng):
    return rng.choice([literal, value_fn, lambda r: a_query(r, singular=True)])(rng)


def cmp_op(rng):
    return rng.choice(["==", "!=", "<", "<=", ">", ">="])


def sound(rng):
    r = rng.random()
    if r < 0.35:
        return f"{comparable(rng)} {cmp_op(rng)} {comparable(rng)}"
    if r < 0.7:
        return a_query(rng, singular=rng.random() < 0.5)
    return logic_fn(rng)


BROKEN = {}


def broken(f):
    BROKEN[f.__name__] = f
    return f


# each gives (broken core, sound counterpart, atomic?)
@broken
def nonsingular_operand(rng):
    op = rng.choice(["==", "!=", "<", "<=", ">", ">="])
    q = a_query(rng)
    c = comparable(rng)
    s = a_query(rng, singular=True)
    return (f"{q}{op}{c}", f"{s}{op}{c}", False) if rng.random() < 0.5 else (f"{c} {op} {q}", f"{c} {op} {s}", False)


@broken
def logical_operand(rng):
    op = rng.choice(["==", "!=", "<", "<=", ">", ">="])
    f = logic_fn(rng)
    c = comparable(rng)
    v = value_fn(rng)
    return (f"{f}{op}{c}", f"{v}{op}{c}", False) if rng.random() < 0.5 else (f"{c} {op} {f}", f"{c} {op} {v}", False)


@broken
def value_test(rng):
    return value_fn(rng), logic_fn(rng), True


@broken
def literal_test(rng):
    l = literal(rng)
    return l, f"{l}=={comparable(rng)}" if rng.random() < 0.5 else a_query(rng), True


@broken
def wrong_count(rng):
    f = rng.choice(list(SIG))
    sig, ret = SIG[f]
    n = rng.choice([k for k in range(0, 5) if k != len(sig)])
    args = [rng.choice(["@.a", "@", "$.b"]) for _ in range(n)]
    good = ["@.a", "@.b"][: len(sig)]
    tail = " == 1" if ret == "V" else ""
    return f"{f}({','.join(args)}){tail}", f"{f}({','.join(good)}){tail}", ret == "L"


@broken
def wrong_kind(rng):
    f = rng.choice(list(SIG))
    sig, ret = SIG[f]
    tail = rng.choice([" == 1", "!=@.a"]) if ret == "V" else ""
    i = rng.randrange(len(sig))
    good = ["@.a" for _ in sig]
    bad = list(good)
    if sig[i] == "V":
        bad[i] = rng.choice([a_query(rng), logic_fn(rng), "@.a == 1", "@.a && @.b", "@.a || @.b", "(@.a)", "!@.a", "match(@.a,'a') && @.b"])
    else:
        bad[i] = rng.choice([literal(rng), value_fn(rng), logic_fn(rng), "@.a==1", "@.a && @.b", "(@.a)", "!@.a", "1 < 2"])
    return f"{f}({', '.join(bad)}){tail}", f"{f}({', '.join(good)}){tail}", ret == "L"


@broken
def unknown_function(rng):
    n = rng.choice(["nosuch", "foo", "len", "lengths", "count_", "matches", "x1", "values", "regex", "all_of", "keys", "lengt", "first"])
    a = ",".join(rng.choice(["@.a", "'x'", "1", "@.*"]) for _ in range(rng.randint(0, 2)))
    tail = rng.choice(["", " == 1"])
    return f"{n}({a}){tail}", f"length(@.a){tail or ' == 1'}", not tail


def bound_text(rng):
    lo, hi = -(2**53) + 1, 2**53 - 1
    if rng.random() < 0.5:
        return str(hi + rng.choice([1, 2, 10, 10**6, 10**20, 10**400])), str(hi - rng.choice([0, 0, 1, 5]))
    return str(lo - rng.choice([1, 2, 10, 10**6, 10**20, 10**400])), str(lo + rng.choice([0, 0, 1, 5]))


def bad_segment(rng, which):
    """(broken, sound) bracketed segments."""
    if which == "index_range":
        b, g = bound_text(rng)
    elif which == "slice_range":
        b, g = bound_text(rng)
        form = rng.choice(["{}:", ":{}", "1:{}", "{}:1", "{}:{}", "::{}", "1:2:{}", "{}::2", " {} : "])
        b, g = form.replace("{}", b), form.replace("{}", g)
    elif which == "leading_zero":
        d = rng.choice(["0", "1", "7", "10", "00"])
        b, g = rng.choice(["0", "00", "-0"]) + d, rng.choice(["0", "1", "-1", "10"])
    elif which == "empty":
        return rng.choice(["[]", "[ ]", "[\n]"]), "[0]"
    else:
        s = rng.choice(["0", "'a'", "*", "1:2", "?@.a", "0,1", "'a', 'b'"])
        return "[" + s + rng.choice([",", " ,", ", ", ",\n"]) + "]", "[" + s + "]"
    other = [rng.choice(["0", "'a'", "*", "1:2", "?@.a"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    at = rng.randint(0, len(other))
    sep = rng.choice([",", ", "])
    return "[" + sep.join([*other[:at], b, *other[at:]]) + "]", "[" + sep.join([*other[:at], g, *other[at:]]) + "]"


def wrap_logical(rng, b, g, atomic, depth):
    """The same random surroundings around both cores."""
    mon_path = []
    for _ in range(depth):
        r = rng.random()
        if r < 0.2:
            p = "!" if atomic == "paren" or (atomic is True and rng.random() < 0.5) else None
            if p and atomic == "paren":
                b, g = "!" + b, "!" + g
                mon_path.append("not")
                atomic = False
            else:
                b, g = f"!({b})", f"!({g})"
                mon_path.append("not-paren")
                atomic = False
        elif r < 0.4:
            s = sound(rng)
            op = rng.choice(["&&", "||", " && ", " || "])
            left = rng.random() < 0.5
            f = (lambda x: f"{x}{op}{s}") if left else (lambda x: f"{s}{op}{x}")
            b, g = f(b), f(g)
            mon_path.append("left-of" if left else "right-of")
            mon_path.append(op.strip())
            if rng.random() < 0.5:
                b, g = f"({b})", f"({g})"
            atomic = False
        elif r < 0.55:
            sp = rng.choice(["", " "])
            b, g = f"({sp}{b}{sp})", f"({sp}{g}{sp})"
            atomic = "paren"
            mon_path.append("paren")
        elif r < 0.8:
            q = rng.choice(["@", "@.a", "$", "$..b", "@..*", "@[0]"])
            extra = rng.choice(["", "", ".x", "[0]", "[*]"])
            pre = rng.choice(["", "0,", "'a', "])
            b, g = f"{q}[{pre}?{b}]{extra}", f"{q}[{pre}?{g}]{extra}"
            atomic = True
            mon_path.append("nested-filter")
        else:
            f = rng.choice(["count", "value"])
            t = rng.choice([" > 0", " == @.a", "<=1"])
            b, g = f"{f}(@[?{b}]){t}", f"{f}(@[?{g}]){t}"
            atomic = False
            mon_path.append("fn-arg")
    return b, g, "/".join(mon_path)


def frame(rng, b, g):
    pre = rng.choice(["$", "$", "$.a", "$..*", "$[0]", "$..", "$[?@.a]"])
    lead = rng.choice(["", "", "0, ", "'a',", "?@.z, "])
    post = rng.choice(["", "", ".b", "[0]", "..c"])
    comp = rng.random()
    out = []
    for x in (b, g):
        t = f"{pre}[{lead}?{x}]{post}"
        if comp < 0.08:
            t = "$.a | " + t
        elif comp < 0.14:
            t = t + " & $..b"
        out.append(t)
    return out


def planted(rng, mon):
    """One defect of a listed category anywhere in a sound query, and its sound counterpart."""
    for _ in range(6):
        kind = rng.choice(list(BROKEN))
        b, g, atomic = BROKEN[kind](rng)
        depth = rng.choice([0, 1, 1, 2, 2, 3, 4])
        if atomic and rng.random() < 0.3:
            # directly under "!", without parentheses
            b, g = "!" + b, ("!" + g if not any(c in g for c in "=<>") or "(" in g[:9] or g.startswith("@") else f"!({g})")
            direct = "!/"
            # a comparison cannot follow "!" without parentheses
            if any(op in g for op in ("==", "!=", "<", ">")) and not g.startswith("!("):
                g = "!(" + g[1:] + ")"
        else:
            direct = ""
        wb, wg, where = wrap_logical(rng, b, g, False, depth)
        tb, tg = frame(rng, wb, wg)
        mon.count("pairs")
        mon.see("planted_at", f"{kind}@{direct}{where}")
        must_refuse(mon, tb, kind, where=direct + where)
        must_compile(mon, tg, "counterpart:" + kind, where=direct + where, broken=tb)


def segments(rng, mon):
    """Broken bracketed segments at any position of a query."""
    for _ in range(6):
        which = rng.choice(["index_range", "slice_range", "leading_zero", "empty", "trailing_comma"])
        b, g = bad_segment(rng, which)
        pre = rng.choice(["", "", ".a", "[0]", "..", "..*", ".a..", "[?@.x]"])
        post = rng.choice(["", "", ".b", "[0]", "..c"])
        b, g = pre + b + post, pre + g + post
        r = rng.random()
        mon.count("pairs")
        if r < 0.4:
            tb, tg = "$" + b, "$" + g
            where = "top"
        else:
            root = rng.choice("@@$")
            tail = ""
            if which in ("index_range", "leading_zero") and not pre.strip(".a") and r < 0.6 and "," not in b and pre in ("", ".a") and post in ("", ".b", "[0]"):
                tail = " == 1"
            cb, cg, where = wrap_logical(rng, root + b + tail, root + g + tail, False, rng.choice([0, 1, 2, 3]))
            tb, tg = frame(rng, cb, cg)
        must_refuse(mon, tb, which, where=where)
        must_compile(mon, tg, "counterpart:" + which, where=where)


class Narrow(JSONPathEnvironment):
    max_int_index = 100
    min_int_index = -100


class Lopsided(JSONPathEnvironment):
    max_int_index = 7
    min_int_index = 0


class Wide(JSONPathEnvironment):
    max_int_index = 2**63
    min_int_index = -(2**63)


class Tiny(JSONPathEnvironment):
    max_int_index = 0
    min_int_index = -1


ENVS = None


def limits(rng, mon):
    """Bounds at, just inside and just outside the limits."""
    global ENVS
    if ENVS is None:
        ENVS = [JSONPathEnvironment(), Narrow(), Lopsided(), Wide(), Tiny(), Narrow(filter_caching=False), Narrow(unicode_escape=False), Narrow(well_typed=False)]
    env = rng.choice(ENVS)
    hi, lo = env.max_int_index, env.min_int_index
    for _ in range(8):
        v = rng.choice([hi - 1, hi, hi, hi + 1, hi + 1, hi + 2, lo + 1, lo, lo, lo - 1, lo - 1, lo - 2, hi * 2 + 1, lo * 2 - 1, hi + 2**53, lo - 2**53])
        inside = lo <= v <= hi
        form = rng.choice(["{}", "{}", "{}:", ":{}", "{}:{}", "::{}", "{}::0", ":{}:0", "0, {}", "{},0", "0:0,{}:", "?@[{}]", "?@[{}:]", "?@[{}] == 0", "?!@[0,{}]", "?count(@[:{}]) > 0", "?0 == $.a[{}]", "?length(@[{}]) == 0", "?(@.a && $..[{}])"])
        text = rng.choice(["$", "$.a", "$..", "$..a", "$.*"]) + "[" + form.replace("{}", str(v)) + "]" + rng.choice(["", ".b", "[0]"])
        mon.count("boundary")
        mon.see("boundary_kind", f"{form}:{'in' if inside else 'out'}:{ENVS.index(env)}")
        info = dict(limits=f"{lo}..{hi}")
        if "0, " in form or "0" in form and env.max_int_index < 0:
            pass
        if inside:
            must_compile(mon, text, "inside-limits", env=env, **info)
        else:
            must_refuse(mon, text, "outside-limits", env=env, **info)


LONG = [9, 10, 11, 16, 17, 20, 31, 32, 33, 40, 64, 65, 100, 128, 129, 200, 256, 257]


def lengthy(rng, mon):
    """Broken parts far into long programs, and long valid programs."""
    which = rng.choice(["chain", "chain", "selectors", "selectors", "deep", "args", "segments", "name", "compound", "unknown", "string", "filters"])
    n = rng.choice(LONG)
    mon.count("lengthy")
    mon.see("lengthy", f"{which}/{n}")
    if which == "chain":
        kind = rng.choice(list(BROKEN))
        b, g, _ = BROKEN[kind](rng)
        n = min(n, 65)
        op = rng.choice(["&&", "||", "mixed"])
        parts = [sound(rng) for _ in range(n)]
        ops = [rng.choice(["&&", "||"]) if op == "mixed" else op for _ in range(n)]
        at = rng.choice([0, n - 1, rng.randrange(n)])
        out = []
        for x in (b, g):
            parts[at] = f"({x})" if rng.random() < 0.2 else x
            t = parts[0]
            for o, p in zip(ops, parts[1:]):
                t += " " + o + " " + p
            out.append(f"$[?{t}]")
        must_refuse(mon, out[0], kind, where=f"chain of {n} at {at}")
        must_compile(mon, out[1], "counterpart:" + kind, where=f"chain of {n} at {at}")
    elif which == "selectors":
        broke = rng.choice(["index_range", "slice_range", "leading_zero", "trailing_comma"])
        sels = [rng.choice(["0", "1", "-1", "'a'", '"b"', "*", "1:2", "?@.a", "?@.a == 1", "::2"]) for _ in range(n)]
        good = "[" + ",".join(sels) + "]"
        if broke == "trailing_comma":
            bad = good[:-1] + ",]"
        else:
            b, g = bad_segment(rng, broke)
            while b.count(",") or g.count(","):
                b, g = bad_segment(rng, broke)
            at = rng.choice([0, n - 1, rng.randrange(n)])
            out = []
            for x in (b, g):
                sels[at] = x[1:-1]
                out.append("[" + ",".join(sels) + "]")
            bad, good = out
        pre, post = rng.choice([("$", ""), ("$..", ""), ("$.a", ".b"), ("$[?@", "]"), ("$[?count(@", ") > 1]")])
        must_refuse(mon, pre + bad + post, broke, where=f"list of {n}")
        must_compile(mon, pre + good + post, "counterpart:" + broke, where=f"list of {n}")
    elif which == "deep":
        kind = rng.choice(list(BROKEN))
        b, g, _ = BROKEN[kind](rng)
        d = min(n, 33)
        for _ in range(d):
            r = rng.random()
            if r < 0.35:
                f = "({})".format
            elif r < 0.6:
                f = "!({})".format
            elif r < 0.8:
                s, o = sound(rng), rng.choice(["&&", "||"])
                f = (lambda x, s=s, o=o: f"({s} {o} {x})") if rng.random() < 0.5 else (lambda x, s=s, o=o: f"({x} {o} {s})")
            elif r < 0.9:
                f = "@[?{}]".format
            else:
                f = "(count(@[?{}]) > 0)".format
            b, g = f(b), f(g)
        must_refuse(mon, f"$[?{b}]", kind, where=f"{d} deep")
        must_compile(mon, f"$[?{g}]", "counterpart:" + kind, where=f"{d} deep")
    elif which == "args":
        f = rng.choice(list(SIG))
        sig, ret = SIG[f]
        k = rng.choice([3, 4, 5, 8, 9, 10, 16, 32])
        args = [rng.choice(["@.a", "@", "$.b", "1", "'x'", "@.*", "length(@.a)"]) for _ in range(k)]
        tail = " == 1" if ret == "V" else ""
        must_refuse(mon, f"$[?{f}({', '.join(args)}){tail}]", "wrong_count", where=f"{k} arguments")
    elif which == "segments":
        broke = rng.choice(["index_range", "slice_range", "leading_zero", "empty", "trailing_comma"])
        b, g = bad_segment(rng, broke)
        segs = [rng.choice([".a", "['b']", "[0]", "[-1]", ".a_b"]) for _ in range(n)]
        at = rng.choice([0, n - 1, rng.randrange(n)])
        out = []
        for x in (b, g):
            segs[at] = x
            out.append("".join(segs))
        pre, post = rng.choice([("$", ""), ("$", ""), ("$[?@", "]"), ("$[?!$", "]")])
        must_refuse(mon, pre + out[0] + post, broke, where=f"{n} segments")
        must_compile(mon, pre + out[1] + post, "counterpart:" + broke, where=f"{n} segments")
        # an operand is singular only if every segment is
        segs[at] = rng.choice(NONSINGULAR)
        op = cmp_op(rng)
        must_refuse(mon, f"$[?@{''.join(segs)} {op} 1]", "nonsingular_operand", where=f"{n} segments at {at}")
        segs[at] = rng.choice([".a", "[0]"])
        must_compile(mon, f"$[?@{''.join(segs)} {op} 1]", "counterpart:nonsingular_operand", where=f"{n} segments at {at}")
    elif which in ("name", "string"):
        a = Abnf(rng, 0)
        name = ""
        while len(name) < n:
            name += a.name()
        lit = "'" + "".join(rng.choice("abc \"é😀\u2028x_/") for _ in range(n)) + "'"
        for t in (f"$.{name}", f"$..{name}", f"$[?@.{name}]", f"$[?@.{name} == 1]", f"$[{lit}]", f"$[?@[{lit}] == {lit}]", f"$[?match(@.a, 'a') && length({lit}) > 1]"):
            must_compile(mon, t, "long-name")
        must_refuse(mon, f"$[?@.{name}.* == 1]", "nonsingular_operand", where="long name")
        must_refuse(mon, f"$[?{lit}]", "literal_test", where="long literal")
        must_refuse(mon, f"$[?length({lit}, {lit}) == 1]", "wrong_count", where="long literal")
    elif which == "unknown":
        f = "".join(rng.choice("abcdefghijklmnop_") for _ in range(n)).lstrip("_") + "z"
        must_refuse(mon, f"$[?{f}(@.a)]", "unknown_function", where=f"name of {n}")
        must_refuse(mon, f"$[?@.a && {f}(@.a) == 1]", "unknown_function", where=f"name of {n}")
        must_refuse(mon, f"$[?{rng.choice(list(SIG))}{f}(@.a) == 1]", "unknown_function", where=f"name of {n}")
    elif which == "compound":
        kind = rng.choice(list(BROKEN))
        b, g, _ = BROKEN[kind](rng)
        n = min(n, 20)
        qs = ["$" + rng.choice([".a", "[0]", "..b", "[*]", "[?@.a]"]) for _ in range(n)]
        at = rng.choice([0, n - 1, rng.randrange(n)])
        out = []
        for x in (b, g):
            qs[at] = f"$[?{x}]"
            out.append(rng.choice([" | ", " & "]).join(qs))
        must_refuse(mon, out[0], kind, where=f"query {at} of {n}")
        must_compile(mon, out[1], "counterpart:" + kind, where=f"query {at} of {n}")
    else:
        kind = rng.choice(list(BROKEN))
        b, g, _ = BROKEN[kind](rng)
        n = min(n, 20)
        fs = [f"[?{sound(rng)}]" for _ in range(n)]
        at = rng.choice([0, n - 1, rng.randrange(n)])
        out = []
        for x in (b, g):
            fs[at] = f"[?{x}]"
            out.append("$" + "".join(fs))
        must_refuse(mon, out[0], kind, where=f"filter {at} of {n}")
        must_compile(mon, out[1], "counterpart:" + kind, where=f"filter {at} of {n}")


def endless(rng, mon):
    """Valid queries of hundreds and thousands of parts."""
    n = rng.choice([300, 400, 600, 1500, 4000])
    which = rng.choice(["chain", "chain", "path", "path in a filter", "selectors", "names", "blank", "string", "singular"])
    mon.count("endless")
    mon.see("endless", f"{which}/{n}")
    fragile = False
    if which == "chain":
        op = rng.choice([" && ", " || ", "&&"])
        text = "$[?" + op.join(sound(rng) for _ in range(n)) + "]"
        fragile = n > 450
    elif which == "path":
        text = "$" + "".join(rng.choice([".a", "['b']", "[0]", "..c", "[*]", ".*", "[1:2]", "[?@.a]"]) for _ in range(n))
    elif which == "path in a filter":
        text = "$[?@" + "".join(rng.choice([".a", "['b']", "[0]", "..c", "[*]", ".*", "[1:2]"]) for _ in range(n)) + "]"
    elif which == "singular":
        text = "$[?@" + "".join(rng.choice([".a", "['b']", "[0]", "[-1]"]) for _ in range(n)) + " == 1]"
    elif which == "selectors":
        text = "$[" + ",".join(rng.choice(["0", "'a'", '"b"', "*", "1:2", "?@.a", "?@.a == 1"]) for _ in range(n)) + "]"
    elif which == "names":
        text = "$" + rng.choice([".", "..", "[?@."]) + "a" * n
        text += "]" if "[" in text else ""
    elif which == "blank":
        w = lambda: "".join(rng.choice(" \t\n\r") for _ in range(n))  # noqa: E731
        text = f"${w()}[{w()}?{w()}@{w()}.a{w()}=={w()}1{w()}]{w()}.b"
    else:
        text = "$[?@ == '" + "".join(rng.choice(["x", "\\n", "\\u00e9", "é", "\\\\", "\\ud83d\\ude00", '"']) for _ in range(n)) + "']"
    with rt.ordinary_stack():
        out = mon.call(jsonpath.compile, text)
        if fragile and isinstance(out.exc, RecursionError):
            mon.violation("recursion-limit-chain", "a valid filter of hundreds of && or || operands does not compile", query=text[:100], operands=n, got=repr(out)[:200])
        must_compile(mon, text, "endless " + which)


WORKLOADS = {
    "endless": (endless, 200, 3000),
    "lengthy": (lengthy, 2500, 60000),
    "abnf": (abnf, 8000, 150000),
    "spelled": (spelled, 3000, 60000),
    "cts": (cts, len(CTS), len(CTS)),
    "calls": (calls, 5 * PER // 16 + 1, 5 * PER // 16 + 1),
    "planted": (planted, 6000, 150000),
    "segments": (segments, 5000, 100000),
    "limits": (limits, 4000, 80000),
}
