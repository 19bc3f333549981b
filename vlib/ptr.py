"""RFC 6901 JSON Pointers and RFC 6902 JSON Patch, from the RFC texts alone."""

from __future__ import annotations

import re

from . import docs

CANON = re.compile(r"0|[1-9][0-9]*")
NEG = re.compile(r"-[1-9][0-9]*")
LIMIT = 2**53 - 1


def enc(tok):
    return tok.replace("~", "~0").replace("/", "~1")


def text(tokens):
    return "".join("/" + enc(t) for t in tokens)


def tokens_of(loc):
    return [str(p) for p in loc]


def beyond_limit(tok):
    """An integer outside the library's documented index limit."""
    return bool((CANON.fullmatch(tok) or NEG.fullmatch(tok)) and (len(tok) > 17 or abs(int(tok)) > LIMIT))


class Fail(Exception):
    """RFC 6901 cannot evaluate the pointer.

    ext: the failing token is one of the library's documented extensions.
    """

    def __init__(self, why, ext=False):
        super().__init__(why)
        self.why = why
        self.ext = ext


def step(v, tok):
    if isinstance(v, dict):
        if tok in v:
            return v[tok]
        raise Fail("missing-member", tok.startswith(("#", "~")) or beyond_limit(tok))
    if isinstance(v, list):
        if tok == "-":
            raise Fail("dash")
        if CANON.fullmatch(tok):
            if len(tok) < 18 and int(tok) < len(v):
                return v[int(tok)]
            raise Fail("out-of-range", beyond_limit(tok))
        raise Fail("not-canonical", bool(NEG.fullmatch(tok)) or tok.startswith(("#", "~")))
    raise Fail("token-on-scalar", beyond_limit(tok))


def resolve(doc, tokens):
    for t in tokens:
        doc = step(doc, t)
    return doc


# ---------------------------------------------------------------- JSON Patch


class PatchFail(Exception):
    def __init__(self, why, i, test=False):
        super().__init__(f"{why} (op {i})")
        self.why, self.i, self.test = why, i, test


def untext(p):
    return [t.replace("~1", "/").replace("~0", "~") for t in p.split("/")][1:]


class Box:
    """The document with a settable root."""

    def __init__(self, v):
        self.v = v


def _get(box, toks, i):
    try:
        return resolve(box.v, toks)
    except Fail as e:
        raise PatchFail(e.why, i) from e


def _add(box, toks, value, i, mode="add"):
    if not toks:
        box.v = value
        return
    parent = _get(box, toks[:-1], i)
    t = toks[-1]
    if isinstance(parent, dict):
        if mode == "addne" and t in parent:
            return
        parent[t] = value
    elif isinstance(parent, list):
        if t == "-":
            parent.append(value)
        elif CANON.fullmatch(t):
            if len(t) < 18 and int(t) <= len(parent):
                parent.insert(int(t), value)
            elif mode == "addap":
                parent.append(value)
            else:
                raise PatchFail("index greater than length", i)
        else:
            raise PatchFail("index not canonical", i)
    else:
        raise PatchFail("parent is a scalar", i)


def _remove(box, toks, i):
    v = _get(box, toks, i)
    if not toks:
        raise PatchFail("remove root", i)
    parent = _get(box, toks[:-1], i)
    if isinstance(parent, dict):
        del parent[toks[-1]]
    else:
        del parent[int(toks[-1])]
    return v


def apply(ops, doc):
    """The document RFC 6902 section 4 defines, or PatchFail.  doc is consumed."""
    box = Box(doc)
    for i, op in enumerate(ops):
        k = op["op"]
        path = untext(op["path"])
        if k in ("add", "addne", "addap"):
            _add(box, path, docs.clone(op["value"]), i, k)
        elif k == "remove":
            _remove(box, path, i)
        elif k == "replace":
            _get(box, path, i)
            if not path:
                box.v = docs.clone(op["value"])
            else:
                parent = _get(box, path[:-1], i)
                t = path[-1]
                parent[t if isinstance(parent, dict) else int(t)] = docs.clone(op["value"])
        elif k == "move":
            src = untext(op["from"])
            if len(src) < len(path) and path[: len(src)] == src:
                raise PatchFail("move into own child", i)
            v = _get(box, src, i)
            if src != path:
                if src:
                    _remove(box, src, i)
                _add(box, path, v, i)
        elif k == "copy":
            v = docs.clone(_get(box, untext(op["from"]), i))
            _add(box, path, v, i)
        elif k == "test":
            v = _get(box, path, i)
            if not docs.jeq(v, op["value"]):
                raise PatchFail("test failed", i, test=True)
        else:
            raise AssertionError(op)
    return box.v


def aliases(*roots):
    """Pairs of locations that share one mutable object."""
    seen = {}
    out = []

    def go(v, where):
        if isinstance(v, (dict, list)):
            if id(v) in seen:
                out.append((seen[id(v)], where))
                return
            seen[id(v)] = where
            for k, x in v.items() if isinstance(v, dict) else enumerate(v):
                go(x, (*where, k))

    for n, r in enumerate(roots):
        go(r, (f"root{n}",))
    return out


def only_json(v):
    """Is v built of plain JSON types with string keys only?"""
    if isinstance(v, dict):
        return all(type(k) is str and only_json(x) for k, x in v.items())
    if isinstance(v, list):
        return all(only_json(x) for x in v)
    return v is None or isinstance(v, (str, int, float, bool))


# ----------------------------------------------------------------- generators

TRICKY_INDEX = [
    "00", "01", "-0", "+0", "+1", " 0", "0 ", " 1", "1 ", "1.0", "0.0", "1e0", "0x1", "1_0", "0_1", "١", "１", "²", "-", "--1", "-+1", "", " ", "1,", "0\n",
    "\n0", "0\u00a0", "true", "None", "null", "length", "∞", "1L", "0b1", "0:1", ":", "*", "1/0", "~", "١0", "1١", "1\x00", "\ufeff0", "first", "last",
]


class PatchGen:
    """Random patches, guided by the document as it changes."""

    def __init__(self, rng, doc, *, names, values, invalid=0.12, ext=False):
        self.rng = rng
        self.names = names
        self.values = values
        self.invalid = invalid
        self.ext = ext
        self.box = Box(docs.clone(doc))

    def value(self):
        return docs.clone(self.rng.choice(self.values))

    def where(self):
        locs = list(docs.walk(self.box.v))
        conts = [x for x in locs if isinstance(x[0], (dict, list))]
        return locs, conts

    def existing(self, root=0.06):
        locs, _ = self.where()
        if len(locs) == 1 or self.rng.random() < root:
            return []
        return tokens_of(self.rng.choice(locs[1:])[1])

    def new(self, slot=True):
        """A place where add may put something."""
        rng = self.rng
        if rng.random() < 0.03:
            return []
        _, conts = self.where()
        if not conts:
            return []
        v, loc = rng.choice(conts)
        toks = tokens_of(loc)
        if isinstance(v, dict):
            if v and rng.random() < 0.35:
                return [*toks, rng.choice(list(v))]
            return [*toks, rng.choice(self.names)]
        r = rng.random()
        if r < 0.3:
            return [*toks, str(len(v))]
        if r < 0.55:
            return [*toks, "-"]
        return [*toks, str(rng.randint(0, len(v)))]

    def broken(self):
        rng = self.rng
        locs, conts = self.where()
        v, loc = rng.choice(locs)
        toks = tokens_of(loc)
        r = rng.random()
        if isinstance(v, list):
            if r < 0.3:
                return [*toks, str(len(v) + rng.choice([0, 1, 1, 2, 10, 10**6]))]
            if r < 0.8:
                return [*toks, rng.choice(TRICKY_INDEX)]
            if r < 0.9:
                return [*toks, rng.choice(["-1", "-2", "-" + str(len(v) or 3)])]
            return [*toks, rng.choice(self.names)]
        if isinstance(v, dict):
            if r < 0.8:
                return [*toks, rng.choice(self.names + docs.HOSTILE)]
            if r < 0.9 and v:
                return [*toks, rng.choice(["#", "~"]) + rng.choice(list(v))]
            return [*toks, rng.choice(self.names), rng.choice(self.names)]
        return [*toks, rng.choice(["0", "1", "a", "", "-", "length", "#0", "~0"])]

    def op(self):
        rng = self.rng
        kinds = ["add"] * 4 + ["remove", "remove", "replace", "replace", "move", "move", "move", "copy", "copy", "copy", "test", "test"]
        if self.ext:
            kinds += ["addne", "addne", "addap", "addap"]
        k = rng.choice(kinds)
        bad = rng.random() < self.invalid
        pick = lambda f: self.broken() if bad and rng.random() < 0.7 else f()  # noqa: E731
        if k in ("add", "addne", "addap"):
            op = {"op": k, "path": text(pick(self.new)), "value": self.value()}
        elif k in ("remove", "replace"):
            p = pick(self.existing)
            if k == "remove" and not p:
                k = "replace"
            op = {"op": k, "path": text(p)}
            if k == "replace":
                op["value"] = self.value()
        elif k in ("move", "copy"):
            src = pick(self.existing)
            dst = pick(self.new) if rng.random() < 0.9 else src + ([rng.choice(self.names)] if rng.random() < 0.5 else [])
            op = {"op": k, "from": text(src), "path": text(dst)}
            if k == "move" and not bad:
                # keep most moves legal after the removal
                for _ in range(4):
                    trial = Box(docs.clone(self.box.v))
                    try:
                        trial.v = apply([op], trial.v)
                        break
                    except PatchFail:
                        op = {"op": k, "from": text(self.existing()), "path": text(self.new())}
        else:
            p = pick(self.existing)
            try:
                v = docs.clone(resolve(self.box.v, p))
            except Fail:
                v = self.value()
            if bad or rng.random() < 0.1:
                v = confuse(rng, v)
            op = {"op": "test", "path": text(p), "value": v}
        if rng.random() < 0.3:
            items = list(op.items())
            rng.shuffle(items)
            op = dict(items)
        return op

    def patch(self, n):
        ops = []
        for _ in range(n):
            op = self.op()
            ops.append(op)
            try:
                self.box.v = apply([op], self.box.v)
            except PatchFail:
                break
        # sometimes something follows a failing operation
        if ops and self.rng.random() < 0.2:
            ops.append({"op": "add", "path": "", "value": None})
        return ops


def confuse(rng, v):
    """A value that is easily mistaken for v."""
    v = docs.clone(v)
    if isinstance(v, bool):
        return rng.choice([int(v), float(v), not v, str(v).lower(), None])
    if docs.is_num(v):
        return rng.choice([bool(v), str(v), v + 1, float(v) if abs(v) < 2**53 else v, [v]])
    if isinstance(v, str):
        return rng.choice([v + " ", v.upper(), None, [v], True, docs.near_string(rng, v), docs.near_string(rng, v)])
    if v is None:
        return rng.choice([False, 0, "", "null", {}, []])
    if isinstance(v, list):
        if v and rng.random() < 0.7:
            i = rng.randrange(len(v))
            v[i] = confuse(rng, v[i])
            return v
        return rng.choice([v + [None], v[1:], {str(i): x for i, x in enumerate(v)}, v[::-1]])
    if v and rng.random() < 0.7:
        k = rng.choice(list(v))
        v[k] = confuse(rng, v[k])
        return v
    w = dict(v)
    if w and rng.random() < 0.5:
        w.pop(rng.choice(list(w)))
    else:
        w["extra"] = None
    return rng.choice([w, list(v.values())])
