"""Surface forms of abstract queries: any spelling the RFC 9535 grammar allows."""

from __future__ import annotations

from . import docs

TOKENS = {"$": "$", "@": "@", "^": "^", "_": "_", "#": "#", "~": "~", "|": "|", "&": "&"}

RESERVED = frozenset(docs.RESERVED)

SIMPLE_ESC = {"\b": "b", "\t": "t", "\n": "n", "\f": "f", "\r": "r", "/": "/", "\\": "\\"}


def is_shorthand(name):
    """RFC 9535 member-name-shorthand."""
    if not name:
        return False
    for i, ch in enumerate(name):
        o = ord(ch)
        if 0xD800 <= o <= 0xDFFF:
            return False
        if ch == "_" or ("a" <= ch <= "z") or ("A" <= ch <= "Z") or o >= 0x80:
            continue
        if i and "0" <= ch <= "9":
            continue
        return False
    return True


class Renderer:
    def __init__(self, rng, *, blanks=0.15, escapes=0.15, brackets=0.5, parens=0.12, tokens=None, ext=0.0, plain=False):
        self.rng = rng
        self.blanks = blanks
        self.escapes = escapes
        self.brackets = brackets
        self.parens = parens
        self.tokens = tokens or TOKENS
        self.ext = ext  # probability of documented alternative spellings
        self.bare = 0.0  # probability of bare names in brackets (documented)
        self.used = set()
        if plain:
            self.blanks = self.escapes = self.parens = 0

    # pieces -----------------------------------------------------------------
    def S(self, must=False):
        rng = self.rng
        if rng.random() < self.blanks:
            self.used.add("blank")
            return "".join(rng.choice(" \t\n\r ") for _ in range(rng.randint(1, 3)))
        return " " if must else ""

    def string(self, s, quote=None):
        rng = self.rng
        q = quote or rng.choice("'\"")
        self.used.add("quote" + q)
        out = [q]
        for ch in s:
            o = ord(ch)
            if ch == q:
                out.append(self.uesc(ch) if rng.random() < self.escapes / 2 else "\\" + q)
            elif ch == "\\":
                out.append(self.uesc(ch) if rng.random() < self.escapes / 2 else "\\\\")
            elif o < 0x20:
                if ch in SIMPLE_ESC and rng.random() < 0.6:
                    out.append("\\" + SIMPLE_ESC[ch])
                else:
                    out.append(self.uesc(ch))
            elif 0xD800 <= o <= 0xDFFF:
                out.append("\\u%04x" % o)
            elif rng.random() < self.escapes:
                self.used.add("escape")
                if ch == "/" and rng.random() < 0.5:
                    out.append("\\/")
                else:
                    out.append(self.uesc(ch))
            else:
                out.append(ch)
        out.append(q)
        return "".join(out)

    def uesc(self, ch):
        fmt = self.rng.choice(["%04x", "%04X"])
        o = ord(ch)
        if o > 0xFFFF:
            o -= 0x10000
            return "\\u" + fmt % (0xD800 + (o >> 10)) + "\\u" + fmt % (0xDC00 + (o & 0x3FF))
        return "\\u" + fmt % o

    def number(self, v):
        rng = self.rng
        if isinstance(v, bool):
            raise AssertionError
        forms = []
        if isinstance(v, int):
            forms.append(str(v))
            if abs(v) < 2**53:
                forms += [f"{v}.0", f"{v}.00"]
                if rng.random() < 0.5:
                    forms += [f"{v}e0", f"{v}E+0", f"{v}.0e0", f"{v}E-0", f"{v}.0E+00"]
                    if v and v % 10 == 0:
                        forms += [f"{v // 10}e1" if v > 0 else f"-{-v // 10}e1", (f"{v // 10}" if v > 0 else f"-{-v // 10}") + ".0e+01"]
                    forms += [f"{v}0e-1"] if v else ["-0", "-0.0", "0e5"]
        else:
            r = repr(v)
            forms.append(r)
            if "e" not in r and "inf" not in r:
                forms += [r + "0", r + "e0", r + "E+0"]
                sgn, mag = ("-", r[1:]) if r.startswith("-") else ("", r)
                ip, fp = mag.split(".")
                whole = (ip + fp).lstrip("0") or "0"
                forms.append(f"{sgn}{whole}e-{len(fp)}")
            elif r.startswith("1e") or "." in r:
                forms.append(r.replace("e", "E"))
        forms = [f for f in forms if (float(f) == v if isinstance(v, float) or abs(v) < 2**53 else int(f) == v)]
        return forms[0] if rng.random() < 0.5 else rng.choice(forms)

    def literal(self, v):
        rng = self.rng
        if v is None:
            if rng.random() < self.ext:
                self.used.add("nil-alias")
                return rng.choice(["nil", "none", "Nil", "None", "Null"])
            return "null"
        if v is True or v is False:
            w = "true" if v else "false"
            if rng.random() < self.ext:
                self.used.add("capital")
                return w.capitalize()
            return w
        if isinstance(v, str):
            return self.string(v)
        return self.number(v)

    # queries ----------------------------------------------------------------
    def compound(self, q):
        if q[0] == "q":
            return self.query(q)
        out = [self.query(q[1])]
        for op, r in q[2]:
            out.append(self.S(must=self.rng.random() < 0.8))
            out.append(self.tokens[op])
            out.append(self.S(must=self.rng.random() < 0.8))
            out.append(self.query(r))
        return "".join(out)

    def query(self, q, strict_singular=False, no_root=False):
        out = [] if no_root else [self.tokens[q[1]]]
        first = no_root
        for seg in q[2]:
            if first:
                out.append(self.segment(seg, strict_singular, first=True))
                first = False
            else:
                out.append(self.S())
                out.append(self.segment(seg, strict_singular))
        return "".join(out)

    def segment(self, seg, strict_singular=False, first=False):
        rng = self.rng
        kind, sels = seg
        if len(sels) == 1 and rng.random() >= self.brackets:
            s = sels[0]
            if s[0] == "name" and is_shorthand(s[1]):
                if not (kind == "desc" and not self.desc_name_ok(s[1])):
                    self.used.add("shorthand")
                    if first and kind == "child" and s[1] not in RESERVED and rng.random() < 0.7 and self.bare_ok(s[1]):
                        self.used.add("leading-bare")
                        return s[1]
                    return ("." if kind == "child" else "..") + s[1]
            elif s[0] == "wild":
                if first and kind == "child" and rng.random() < 0.5:
                    return "*"
                return ".*" if kind == "child" else "..*"
            elif s[0] == "keys":
                return ("." if kind == "child" else "..") + self.tokens["~"]
        dots = ".." if kind == "desc" else ""
        if strict_singular:
            return dots + "[" + self.selector(sels[0]) + "]"
        out = [dots, "[", self.S()]
        for i, s in enumerate(sels):
            if i:
                out += [self.S(), ",", self.S()]
            out.append(self.selector(s))
        out += [self.S(), "]"]
        return "".join(out)

    def desc_name_ok(self, name):
        return True

    def bare_ok(self, name):
        return not name.startswith("_")

    def selector(self, s):
        k = s[0]
        rng = self.rng
        if k == "name":
            if self.bare and rng.random() < self.bare and is_shorthand(s[1]) and s[1] not in RESERVED and self.bare_ok(s[1]):
                self.used.add("bare")
                return s[1]
            return self.string(s[1])
        if k == "index":
            return str(s[1])
        if k == "wild":
            return "*"
        if k == "keys":
            return self.tokens["~"]
        if k == "slice":
            a, b, c = s[1:]
            out = []
            if a is not None:
                out += [str(a), self.S()]
            out.append(":")
            out.append(self.S())
            if b is not None:
                out += [str(b), self.S()]
            if c is not None:
                out += [":", self.S(), str(c)]
            elif rng.random() < 0.2:
                out += [":"]
            return "".join(out)
        if k == "filter":
            return "?" + self.S() + self.expr(s[1], 0)
        raise AssertionError(s)

    # expressions ------------------------------------------------------------
    PREC = {"or": 1, "and": 2}

    def word(self, sym, words):
        """An operator symbol or its documented alias, with needed blanks."""
        if self.rng.random() < self.ext:
            self.used.add("alias:" + words)
            return self.S(must=True) + words + self.S(must=True)
        return self.S() + sym + self.S()

    def expr(self, e, prec):
        """prec: 0 logical-expr, 1 operand of ||, 2 operand of &&, 3 after !."""
        rng = self.rng
        k = e[0]
        if k in ("or", "and"):
            mine = self.PREC[k]
            sym, alias = ("||", "or") if k == "or" else ("&&", "and")
            inner = "".join(
                (self.word(sym, alias) if i else "") + self.expr(x, mine)
                for i, x in enumerate(e[1:])
            )
            # equal precedence nested: (a || b) || c needs no parentheses either way
            if prec > mine or (prec == mine and rng.random() < 0.5) or rng.random() < self.parens:
                return self.paren(inner)
            return inner
        if k == "not":
            x = e[1]
            body = None
            if x[0] in ("test", "ftest"):
                body = self.expr(x, 3)
            else:
                body = self.paren(self.expr(x, 0))
            if rng.random() < self.ext:
                self.used.add("alias:not")
                t = "not" + self.S(must=True) + body
            else:
                t = "!" + self.S() + body
        elif k == "test":
            t = self.query(e[1])
        elif k == "ftest":
            t = self.fn(e[1], e[2])
        elif k == "cmp":
            t = self.cmp(e)
        else:
            raise AssertionError(e)
        if prec == 3 or k == "not" and prec == 4:
            # operand of "!": may be parenthesised, may not be another "!"
            if rng.random() < self.parens:
                return self.paren(t)
            return t
        if rng.random() < self.parens:
            return self.paren(t)
        return t

    def paren(self, t):
        return "(" + self.S() + t + self.S() + ")"

    def cmp(self, e):
        _, op, l, r = e
        lt = self.operand(l)
        if op in ("in", "contains"):
            return lt + self.S(must=True) + op + self.S(must=True) + self.operand(r)
        if op == "=~":
            return lt + self.S() + op + self.S() + self.regex(r)
        return lt + self.S() + op + self.S() + self.operand(r)

    def regex(self, r):
        return "/" + r[2] + "/" + r[3]

    def operand(self, o):
        k = o[0]
        if k == "lit":
            return self.literal(o[1])
        if k == "sq":
            return self.query(o[1], strict_singular=True)
        if k == "fn":
            return self.fn(o[1], o[2])
        if k == "key":
            return self.tokens["#"]
        if k == "undef":
            return self.rng.choice(["undefined", "missing"])
        if k == "list":
            return "[" + self.S() + (self.S() + "," + self.S()).join(self.literal(v) for v in o[1]) + self.S() + "]"
        raise AssertionError(o)

    def fn(self, name, args):
        out = [name, "(", self.S()]
        for i, a in enumerate(args):
            if i:
                out += [self.S(), ",", self.S()]
            if a[0] == "nodes":
                out.append(self.query(a[1]))
            elif a[0] == "logic":
                out.append(self.expr(a[1], 0))
            else:
                out.append(self.operand(a))
        out += [self.S(), ")"]
        return "".join(out)
