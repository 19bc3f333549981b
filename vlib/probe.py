"""Documents directed at the constants of a query text.

Two queries that differ in one literal, name, flag or grouping agree on most
random documents.  These documents are built around what a query text
mentions: its names as keys, its constants and their near misses as values.
Independent of the library: constants are found with plain regular expressions.
"""

from __future__ import annotations

import json
import math
import re

from . import docs

RE_STRING = re.compile(r"'((?:[^'\\]|\\.)*)'|\"((?:[^\"\\]|\\.)*)\"", re.S)
RE_NUMBER = re.compile(r"-?[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?")
RE_REGEX = re.compile(r"/(.+?)/([aims]*)", re.S)
RE_NAME = re.compile(r"[A-Za-z_\u0080-\U0010ffff][\w\u0080-\U0010ffff-]*")
WORDS = {"and", "or", "not", "in", "contains", "true", "false", "null", "nil", "none", "undefined", "missing", "length", "count", "match", "search", "value", "typeof", "type", "isinstance", "is"}


def constants(text):
    """(names, strings, numbers) mentioned in a query text."""
    names, strings, numbers = [], [], []
    rest = text
    for m in RE_STRING.finditer(text):
        body = m.group(1) if m.group(1) is not None else m.group(2)
        strings.append(body)
        try:
            b = body if m.group(1) is None else body.replace('"', '\\"').replace("\\'", "'")
            strings.append(json.loads('"' + b + '"', strict=False))
        except ValueError:
            pass
    rest = RE_STRING.sub(" ", rest)
    for m in RE_REGEX.finditer(rest):
        strings.append(m.group(1))
        strings.append(re.sub(r"[\\^$.*+?()\[\]{}|]", "", m.group(1)))
    for m in RE_NUMBER.finditer(rest):
        try:
            f = float(m.group())
        except ValueError:
            continue
        numbers.append(f)
        if not math.isinf(f) and f == int(f):
            numbers.append(int(f))
        try:
            numbers.append(int(m.group()))
        except ValueError:
            pass
    for m in RE_NAME.finditer(rest):
        if m.group().lower() not in WORDS:
            names.append(m.group())
    return names, strings, numbers


def near(rng, v):
    """A value easily confused with v."""
    if isinstance(v, str):
        opts = [v, v, v.swapcase(), v + "\n", "\n" + v, v.upper(), v.lower(), v + "x", "x" + v, v[:-1], v + "\n" + v, v.replace("\\", ""), v.replace("\\", "\\\\"), v.replace("'", '"'), v.replace('"', "'"), v.replace("\\", "/"), v.strip(), "é" + v, v + "é", v + "٣", v + " ", [v], {v: 1}, None]
        return rng.choice(opts)
    if isinstance(v, bool):
        return rng.choice([v, not v, int(v), str(v).lower()])
    if isinstance(v, int):
        f = float(v) if abs(v) < 10**300 else 1.0
        return rng.choice([v, v, f, v + 1, v - 1, -v, str(v), v == 1, math.nextafter(f, math.inf), [v]])
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return rng.choice([1.0e308, 10**400, -(10**400), 0])
        return rng.choice([v, v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf), -v, v + 1, int(v), repr(v), round(v, 5)])
    return v


def finite(v):
    return not isinstance(v, float) or math.isfinite(v)


def documents(rng, text, doc, n=3):
    """`n` documents directed at the text, related in shape to `doc`."""
    names, strings, numbers = constants(text)
    keys = [s for s in dict.fromkeys(names + strings)]
    leaves = [True, False, None, 0, 1, "a", ""]
    for v in strings + numbers:
        for _ in range(3):
            leaves.append(near(rng, v))
    for k in list(keys):
        x = near(rng, k)
        if isinstance(x, str) and rng.random() < 0.5:
            keys.append(x)
    leaves = [v for v in leaves if finite(v)]
    if "match(" in text or "search(" in text or "=~" in text:
        # a backtracking matcher can take exponential time in the length of a value
        leaves = [v[:12] if isinstance(v, str) else v for v in leaves]
        keys = [k[:12] for k in keys]
    keys = keys or ["a"]
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.4:
            out.append(relabel(rng, doc, leaves, keys))
        elif r < 0.8:
            out.append(build(rng, keys, leaves, rng.randint(1, 3)))
        else:
            # rows: one object per combination, so that a filter's truth table shows
            out.append([{k: rng.choice(leaves) for k in keys if rng.random() < 0.7} for _ in range(12)])
    return out


def relabel(rng, doc, leaves, keys):
    if isinstance(doc, dict):
        d = {k: relabel(rng, v, leaves, keys) for k, v in doc.items() if rng.random() < 0.95}
        if rng.random() < 0.5:
            d[rng.choice(keys)] = rng.choice(leaves)
        return d
    if isinstance(doc, list):
        return [relabel(rng, v, leaves, keys) for v in doc] + ([rng.choice(leaves)] if rng.random() < 0.5 else [])
    return rng.choice(leaves) if rng.random() < 0.7 else doc


def build(rng, keys, leaves, depth):
    r = rng.random()
    if depth and r < 0.55:
        return {rng.choice(keys): build(rng, keys, leaves, depth - 1) for _ in range(rng.randint(1, 5))}
    if depth and r < 0.95:
        return [build(rng, keys, leaves, depth - 1) for _ in range(rng.randint(1, 5))]
    return docs.clone(rng.choice(leaves))


# -------------------------------------------------------------- observations


def observe(run, *, limit=2000):
    """([(value, path, parts)...], exception or None) of a finditer call."""
    out = []
    try:
        for m in run():
            out.append((m.obj, m.path, m.parts))
            if len(out) >= limit:
                break
    except Exception as e:  # noqa: BLE001
        return out, e
    return out, None


def differ(a, b, *, paths=True):
    """None, or how two observations of `observe` differ."""
    (xs, e), (ys, f) = a, b
    if type(e) is not type(f):
        return f"one raises {type(e).__name__}, the other {type(f).__name__}" if e is not None or f is not None else "?"
    if len(xs) != len(ys):
        return f"{len(xs)} matches against {len(ys)}"
    for i, ((v, p, s), (w, q, t)) in enumerate(zip(xs, ys)):
        if not (v is w or docs.same(v, w)):
            return f"match {i} has another value"
        if paths and p != q:
            return f"match {i} has another path: {p} against {q}"
        if s != t or [type(x) for x in s] != [type(x) for x in t]:
            return f"match {i} has another location: {s} against {t}"
    return None


def show(obs, n=8):
    ms, e = obs
    return [(docs.fingerprint(v)[:80], p) for v, p, _ in ms[:n]], repr(e)
