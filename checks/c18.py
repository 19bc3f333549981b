"""C18: the command-line tool is a faithful front end to the library."""

import gc
import io
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import warnings

import jsonpath
import jsonpath.cli

from vlib import big
from vlib import docs
from vlib import genq
from vlib import jp
from vlib import mix
from vlib import rt

PROPERTY = "C18"
RULE = (
    "Random command lines of the three sub-commands (every option, in every spelling, expression inline or from a file, document from a "
    "file or standard input, result to a file or standard output) over valid, invalid and flag-sensitive expressions and valid, broken, "
    "badly encoded and oddly encoded documents and patches.  The tool is run in process (main() with argv, byte streams for the standard "
    "streams) and, for a part of the cases, as `python -m jsonpath`.  What it writes and its exit status are compared with the JSON text of "
    "what the library call returns, or, when the library rejects the input, with status 1, one line on standard error and no traceback.  "
    "Every case is non-trivial.  Distinct by (argv, files)."
)
REQUIRED = {"accepted": 3000, "rejected": 2000, "processes": 100, "cmd:path": 1000, "cmd:pointer": 1000, "cmd:patch": 1000, "debug_rejected": 100, "flag_matters": 100}
ASSUMPTIONS = [
    "the expression read from a file is the file's text without the white space around it",
    "files and streams are UTF-8; nonexistent files and usage errors (status 2) are out of scope",
    "a newline at the end of the output does not matter",
]

SCRATCH = None


def worker_setup(wid):
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="c18-")
    warnings.simplefilter("ignore")


def worker_teardown(mon):
    shutil.rmtree(SCRATCH, ignore_errors=True)


def path_of(name):
    return os.path.join(SCRATCH, name)


def put(name, data):
    with open(path_of(name), "wb") as f:
        f.write(data)
    return path_of(name)


# ------------------------------------------------------------------ documents


def document_bytes(rng, doc):
    """(bytes, label): the document's file, perhaps broken."""
    kw = {"ensure_ascii": rng.random() < 0.6}
    if rng.random() < 0.3:
        kw["indent"] = rng.choice([0, 2, "\t"])
    text = json.dumps(doc, **kw)
    r = rng.random()
    if r < 0.78:
        try:
            return text.encode(), "valid"
        except UnicodeEncodeError:
            return json.dumps(doc).encode(), "valid"
    text = json.dumps(doc)
    if r < 0.86:
        k = rng.randrange(9)
        bad = [text[:-1], text + rng.choice(["]", "}", ",", "x"]), "", "{", "[1,]", "{'a': 1}", "}}invalid", "[1 2]", "nul"][k]
        return bad.encode(), "broken"
    if r < 0.9:
        b = text.encode()
        i = rng.randint(0, len(b))
        return b[:i] + rng.choice([b"\xff", b"\x80", b"\xc3", b"\xed\xa0\x80", b"\xf8\x88"]) + b[i:], "not utf-8"
    if r < 0.93:
        return text.encode(rng.choice(["utf-16", "utf-32", "utf-8-sig", "utf-16-le"])), "other encoding"
    if r < 0.95:
        return (b"[" * rng.choice([2000, 100000])), "deep"
    if r < 0.97:
        return b"[" + b"9" * 5000 + b"]", "huge integer"
    return rng.choice([b"[NaN, Infinity, -Infinity]", b'{"a": 1, "a": 2}', b"[1e400, -0, -0.0, 1E5]", b' \n[1]\r\n ', b'"\\ud800"', b'["\\ud83d\\ude00", "\\u0000"]', b"null", b"12", b'"a string"', b'"[1, 2]"', b'"{"', b"true"]), "odd"


class Case:
    """One command line and the library call it stands for."""

    def __init__(self, rng, cmd):
        self.rng = rng
        self.cmd = cmd
        self.argv = []
        self.stdin = b""
        self.files = {}
        self.pretty = rng.random() < 0.3
        self.debug = rng.random() < 0.12
        self.noesc = rng.random() < 0.3
        pre = []
        if self.pretty:
            pre.append("--pretty")
        if self.debug:
            pre.append("--debug")
        if self.noesc:
            pre.append("--no-unicode-escape")
        rng.shuffle(pre)
        self.pre = [*pre, cmd]
        self.groups = []
        self.out = None

    def document(self, data, label):
        rng = self.rng
        self.doc_label = label
        r = rng.random()
        if r < 0.6:
            p = put("doc.json", data)
            self.groups.append(rng.choice([["-f", p], ["--file", p], ["--file=" + p], ["-f" + p]]))
            self.load = lambda: io.BytesIO(data)
        else:
            self.stdin = data
            if r < 0.75:
                self.groups.append(rng.choice([["-f", "-"], ["--file", "-"]]))
                # argparse opens "-" of a binary option as the binary standard input
                self.load = lambda: io.BytesIO(data)
            else:
                self.load = lambda: io.TextIOWrapper(io.BytesIO(data), encoding="utf-8")
        self.data = data

    def output(self):
        rng = self.rng
        r = rng.random()
        if r < 0.35:
            p = path_of("out.json")
            with open(p, "w") as f:
                f.write("stale content that must go" * 20)
            self.out = p
            self.groups.append(rng.choice([["-o", p], ["--output", p], ["--output=" + p], ["-o" + p]]))
        elif r < 0.45:
            self.groups.append(rng.choice([["-o", "-"], ["--output", "-"]]))

    def line(self):
        self.rng.shuffle(self.groups)
        return self.pre + [a for g in self.groups for a in g]


def expression(case, short, long, flong, text):
    """Inline or from a file."""
    rng = case.rng
    inline = "\0" not in text and not any(0xD800 <= ord(c) <= 0xDFFF for c in text)
    filable = text.strip() == text and "\r" not in text and not any(0xD800 <= ord(c) <= 0xDFFF for c in text)
    if filable and (not inline or rng.random() < 0.4):
        p = put("expr.txt", (text + rng.choice(["", "\n", "\n", "\n\n"])).encode())
        case.groups.append(rng.choice([["-r", p], [flong, p], [flong + "=" + p]]))
        case.how = "file"
    elif inline:
        if text.startswith("-"):
            case.groups.append([long + "=" + text])
        else:
            case.groups.append(rng.choice([[short, text], [long, text], [long + "=" + text]]))
        case.how = "inline"
    else:
        return False
    return True


# -------------------------------------------------------------------- running


class Run:
    __slots__ = ("status", "stdout", "stderr", "raised")


def in_process(argv, stdin):
    r = Run()
    r.raised = None
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    so, se = io.BytesIO(), io.BytesIO()
    sys.stdin = io.TextIOWrapper(io.BytesIO(stdin), encoding="utf-8")
    sys.stdout = io.TextIOWrapper(so, encoding="utf-8")
    sys.stderr = io.TextIOWrapper(se, encoding="utf-8", errors="backslashreplace")
    sys.argv = ["json", *argv]
    try:
        jsonpath.cli.main()
        r.status = 0
    except SystemExit as e:
        r.status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        if isinstance(e.code, str):
            sys.stderr.write(e.code + "\n")
    except Exception as e:  # noqa: BLE001
        r.status = 1
        r.raised = e
    finally:
        for s in (sys.stdout, sys.stderr):
            try:
                s.flush()
            except ValueError:
                pass
        r.stdout = so.getvalue() if not so.closed else b""
        r.stderr = se.getvalue() if not se.closed else b""
        for s in (sys.stdout, sys.stderr):
            try:
                s.detach()
            except ValueError:
                pass
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    return r


def subprocess_run(argv, stdin):
    env = dict(os.environ, PYTHONPATH=rt.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", PYTHONIOENCODING="utf-8:strict", PYTHONWARNINGS="ignore")
    p = subprocess.run([sys.executable, "-m", "jsonpath", *argv], input=stdin, capture_output=True, env=env, cwd=SCRATCH, timeout=120, check=False)
    r = Run()
    r.status, r.stdout, r.stderr, r.raised = p.returncode, p.stdout, p.stderr, None
    return r


def library(fn):
    try:
        return True, fn()
    except Exception as e:  # noqa: BLE001
        return False, e


def judge(rng, mon, case, call, process=None):
    argv = case.line()
    process = rng.random() < 0.012 if process is None else process
    ok, value = library(call)
    if ok:
        try:
            want = json.dumps(value, indent=2 if case.pretty else None)
        except (RecursionError, TypeError, ValueError):
            mon.count("not_serialisable")
            return
    run = subprocess_run(argv, case.stdin) if process else in_process(argv, case.stdin)
    mon.count("processes" if process else "in_process")
    mon.count("api_calls")
    mon.count("cmd:" + case.cmd)
    mon.case("\0".join(argv).replace(SCRATCH, "") + "\0" + case.data[:2000].decode("latin-1") + "\0".join(case.files.values()), True)
    mon.see("options", " ".join(sorted(a.split("=")[0] for a in argv if a.startswith("-") and len(a) < 22)))
    mon.see("document", case.doc_label)
    info = dict(
        argv=repr([a.replace(SCRATCH, "$DIR") for a in argv]), document=repr(case.data[:600]), files=repr(case.files)[:600], process=process, status=run.status, stdout=repr(run.stdout[:600]),
        stderr=repr(run.stderr[:600]), raised=repr(run.raised), library=repr(value)[:600],
    )
    err = run.stderr.decode("utf-8", "replace")
    if ok:
        mon.count("accepted")
        if run.raised is not None or run.status != 0:
            mon.violation(f"{case.cmd}:refused", "the tool fails where the library returns a value", **info)
        if case.out is not None:
            with open(case.out, "rb") as f:
                got = f.read()
            if not got:
                gc.collect()
                with open(case.out, "rb") as f:
                    got = f.read()
            if run.stdout.strip():
                mon.violation(f"{case.cmd}:both", "output requested in a file was written to standard output too", **info)
        else:
            got = run.stdout
        if got.decode("utf-8", "replace").rstrip("\n") != want:
            mon.violation(f"{case.cmd}:output", "the tool does not write the JSON serialisation of the library's result", written=repr(got[:800]), expected=want[:800], **info)
        if mon.want_sample() and len(argv) > 5 and value:
            mon.sample({"argv": [a.replace(SCRATCH, "$DIR") for a in argv], "document": case.data[:120].decode("utf-8", "replace"), "output": want[:80]})
        return
    mon.count("rejected")
    mon.see("rejection", type(value).__name__)
    if case.debug:
        mon.count("debug_rejected")
        if run.raised is None and run.status != 1:
            mon.violation(f"{case.cmd}:debug-status", "a rejected input does not exit with status 1 (debugging)", **info)
        return
    if run.raised is not None or "Traceback (most recent call last)" in err:
        mon.violation(f"{case.cmd}:traceback:{type(value).__name__}", "a rejected input gives a traceback", **info)
    if run.status != 1:
        mon.violation(f"{case.cmd}:status", "a rejected input does not exit with status 1", **info)
    lines = re.split(r"\r\n|\n|\r", err.strip("\r\n"))
    if len(lines) != 1 or not err.strip():
        mon.violation(f"{case.cmd}:message", "a rejected input is not reported by one line on standard error", **info)


# ------------------------------------------------------------------ workloads


ILL_TYPED = [
    "$[?count(1) == 1]", "$[?length(@.*) > 1]", "$[?length(@..a) == 1]", "$[?value(1) == 1]", "$..[?match(@.a, 1)]", "$[?match(@.*, 'a')]",
    "$[?length(@)]", "$[?count(@.*)]", "$[?match(@, 'a') == true]", "$[?@.* == 1]", "$[?1 == @..a]", "$[?length(@, 1) == 1]", "$[?count() == 1]",
    "$[?isinstance(1, 'str')]", "$..[?typeof(1) == 'x']", "$[?search(1, 2)]", "$[?count(@, @) == 2]", "$[?value(@.*)]", "$..[?length(count(@.*)) == 1]",
]
INVALID = [
    "", "$[", "$.1", "$[01]", "$[?@.a = 1]", "$..", "$.a..", "$['a", "$[?]", "$[?@.a &&]", "$[1:2:3:4]", "$]", "$.a |", "$ & ", "$[?nosuch(@)]", "$[?nosuch(@) == 1]",
    "$[9007199254740992]", "$[-9007199254740992]", "$[::9007199254740993]", "$[?@ =~ /[/]", "$[?@.a == 'x\ny' || @@]", "$['a\nb'", "$[?@.b == '\\uD800']", "$[?'a']", "$[?1]", "$['\\x']",
    "$.a\n.b\n]", "$[?!@.a\n== 1 &&\n]", "%", "$\u2028[", "$['\\u12']", "$[1e1]", "$[?(@.a]", "$[?@.a in]", "$[?match(@.a)]", "$[\n\n'a' 'b']", "$.a$.b",
]
ESCAPED = ["$['\\u0061']", '$["\\u0061"]', "$['\\u00e9']", "$['a\\nb']", "$['\\ud83d\\ude00']", "$[?@ == '\\u0061']", "$..['\\u0061', 'b']", "$['\\\\']", "$['\\/']", "$[?@['\\u0061']]", "$['it\\'s']", "$['\\uD83D']"]


def path_command(rng, mon, process=None):
    """`jsonpath path` with every option, in process."""
    doc, extra = mix.make(rng)
    r = rng.random()
    if r < 0.55:
        text, _ = mix.any_text(rng, doc, {})
    elif r < 0.7:
        text = rng.choice(ILL_TYPED)
    elif r < 0.85:
        text = rng.choice(INVALID)
        if rng.random() < 0.3:
            text = mix.mutate(rng, text)
    else:
        text = rng.choice(ESCAPED)
        if rng.random() < 0.7:
            doc = {"a": 1, "b": {"a": "a"}, "é": 2, "a\nb": 3, "😀": 4, "\\u0061": 5, "\\": 6, "/": 7, "\\/": 8, "\\\\": 9, "\\ud83d\\ude00": 10, "it's": 11, "a\\nb": 12, "it\\'s": 13, "\\u00e9": 14}
    case = Case(rng, "path")
    case.document(*document_bytes(rng, doc))
    untyped = rng.random() < 0.35
    if untyped:
        case.groups.append(["--no-type-checks"])
    if not expression(case, "-q", "--query", "--path-file", text):
        return
    mon.see("expression", case.how)
    case.files["expression"] = text
    case.output()

    def call(noesc=case.noesc, untyped=untyped):
        env = jsonpath.JSONPathEnvironment(unicode_escape=not noesc, well_typed=not untyped)
        return env.compile(text).findall(case.load())

    if repr(library(call)) != repr(library(lambda: call(not case.noesc, untyped))) or repr(library(call)) != repr(library(lambda: call(case.noesc, not untyped))):
        mon.count("flag_matters")
    judge(rng, mon, case, call, process)


def pointer_text(rng, doc):
    nodes = list(docs.walk(doc))
    _, loc = rng.choice(nodes)
    t = jp.pointer_text(loc)
    r = rng.random()
    if r < 0.35:
        return t
    if r < 0.5:
        # percent-encode some characters
        return "".join("%%%02X" % b if rng.random() < 0.5 and chr(b) != "/" else chr(b) for b in t.encode()) if t.isascii() else t.replace("é", "%C3%A9")
    if r < 0.6:
        return "".join("\\u%04x" % ord(c) if rng.random() < 0.4 and c != "/" and ord(c) < 0x10000 else c for c in t)
    if r < 0.85:
        return t + rng.choice(["/nosuch", "/0", "/99", "/-", "/-1", "/a/b", "/", "/a\nb\nc", "/~", "/~2", "/01", "/a%20b", "/\\u0061", "/%", "/%zz", "/\\u", "/#", "/~0", "/9007199254740993", "/a\u2028b", "/\\uD800", "/%FF"])
    return rng.choice(["", "a", "a/b", " /a", "//", "/", "#/a", "0", "/\n/x", "nosuch\nline", "1/a", "$.a", "/a/\n\n/b", "/%2F", "/a~1b", "/%7E1"])


def pointer_command(rng, mon, process=None):
    """`jsonpath pointer` with every option, in process."""
    names = rng.choice([["a", "b", "c"], ["a b", "a%20b", "%41", "A"], ["é", "\\u0061", "a", "\\"], ["a/b", "~", "~1", "0", "1"], ["a\nb", "#", "", "%"], rng.sample(docs.HOSTILE, 5)])
    g = docs.DocGen(rng, names=names, unique=False, depth=rng.randint(1, 4), leaves=genq.SCALARS)
    doc = g.value(container=rng.random() < 0.9)
    text = pointer_text(rng, doc)
    case = Case(rng, "pointer")
    case.document(*document_bytes(rng, doc))
    uri = rng.random() < 0.4
    if uri:
        case.groups.append([rng.choice(["-u", "--uri-decode"])])
    if not expression(case, "-p", "--pointer", "--pointer-file", text):
        return
    mon.see("expression", case.how)
    case.files["expression"] = text
    case.output()

    def call(noesc=case.noesc, uri=uri):
        return jsonpath.pointer.resolve(text, case.load(), unicode_escape=not noesc, uri_decode=uri)

    if repr(library(call)) != repr(library(lambda: call(not case.noesc, uri))) or repr(library(call)) != repr(library(lambda: call(case.noesc, not uri))):
        mon.count("flag_matters")
    judge(rng, mon, case, call, process)


def operations(rng, doc):
    ops = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        k = rng.choice(["add", "remove", "replace", "move", "copy", "test", "test", "addne", "addap"])
        op = {"op": k, "path": pointer_text(rng, doc)}
        if k in ("move", "copy"):
            op["from"] = pointer_text(rng, doc)
        elif k != "remove":
            nodes = list(docs.walk(doc))
            op["value"] = rng.choice([rng.choice(genq.CONFUSABLE), rng.choice(nodes)[0]])
        r = rng.random()
        if r < 0.04:
            op["op"] = rng.choice(["nosuch", "ADD", 1, None, "", "no\nsuch"])
        elif r < 0.08:
            op.pop(rng.choice(list(op)))
        elif r < 0.1:
            op["path"] = rng.choice([1, None, [], {}, True])
        ops.append(op)
        if rng.random() < 0.03:
            ops.append(rng.choice([1, None, [], "x", {}]))
    return ops


def patch_command(rng, mon, process=None):
    """`jsonpath patch` with every option, in process."""
    names = rng.choice([["a", "b", "c"], ["a b", "a%20b", "%41", "A"], ["é", "\\u0061", "a", "\\"], ["a/b", "~", "0", "1"], ["a\nb", "#", ""]])
    g = docs.DocGen(rng, names=names, unique=False, depth=rng.randint(1, 3), leaves=genq.SCALARS)
    doc = g.value(container=rng.random() < 0.95)
    case = Case(rng, "patch")
    data, label = document_bytes(rng, doc)
    if label == "valid" and rng.random() < 0.3:
        ops = [{"op": "test", "path": jp.pointer_text(loc), "value": v} for v, loc in rng.sample(list(docs.walk(doc)), 1)]
    else:
        ops = operations(rng, doc)
    r = rng.random()
    if r < 0.85:
        pdata = json.dumps(ops).encode(rng.choice(["utf-8"] * 8 + ["utf-16", "utf-8-sig"]))
    elif r < 0.93:
        pdata = rng.choice([b"{}", b'{"op": "add", "path": "/a", "value": 1}', b'"x"', b"1", b"null", b"true", b'"[]"', b'""'])
    else:
        pdata = rng.choice([b"", b"[", b"[{]", b"\xff", b'[{"op": "add", "path": "/\xff"}]', b"[" * 100000, b"[" + b"1" * 5000 + b"]", b"[\n\n\n}"])
    case.document(data, label)
    case.files["patch"] = pdata[:500].decode("latin-1")
    p = put("patch.json", pdata)
    case.groups.append([p])
    uri = rng.random() < 0.4
    if uri:
        case.groups.append([rng.choice(["-u", "--uri-decode"])])
    case.output()

    def call(noesc=case.noesc, uri=uri):
        patch = json.loads(pdata)
        if not isinstance(patch, list):
            raise jsonpath.JSONPatchError("not an array")
        return jsonpath.patch.apply(patch, case.load(), unicode_escape=not noesc, uri_decode=uri)

    if repr(library(call)) != repr(library(lambda: call(not case.noesc, uri))) or repr(library(call)) != repr(library(lambda: call(case.noesc, not uri))):
        mon.count("flag_matters")
    judge(rng, mon, case, call, process)


def wide(rng):
    """A document whose text is long, wide or deep."""
    m = big.Maker(rng)
    r = rng.random()
    if r < 0.4:
        return m.document(260, 120)[0]
    if r < 0.6:
        return m.array(rng.choice([1000, 5000, 12000]), 0)
    if r < 0.8:
        return {"a": big.long_string(rng, 300) * rng.choice([1, 30, 400]), "b": m.small(2), "é": ["é😀\u2028" * rng.choice([1, 1000, 9000])]}
    return {"a": m.chain(rng.choice([50, 100, 150])), "b": m.object(rng.choice([300, 2000]), 1)}


def large(rng, mon, process=None):
    """Long documents, expressions and outputs."""
    doc = wide(rng)
    cmd = rng.choice(["path", "path", "pointer", "patch"])
    wild = cmd == "path" and rng.random() < 0.3
    if wild:
        doc, _, text, _ = mix.large(rng)
    case = Case(rng, cmd)
    kw = {"ensure_ascii": rng.random() < 0.5}
    if rng.random() < 0.3:
        kw["indent"] = 1
    data = json.dumps(doc, **kw).encode()
    if rng.random() < 0.15:
        # broken at the far end
        data = rng.choice([data[:-1], data + b"]", data + b"\xff", data[:-1] + b",]"])
    case.document(data, "large")
    mon.count("large")
    nodes = list(docs.walk(doc))
    loc = rng.choice(nodes)[1]
    if rng.random() < 0.3:
        loc = max((x[1] for x in nodes), key=len)
    if cmd == "path":
        r = rng.random()
        if wild:
            pass
        elif r < 0.5:
            text = rng.choice(["$", "$..*", "$.*", "$..a", "$[?@ != 'nosuch']", "$[*].*", "$.a", "$..[?@ == 1]", "$[::-1]", "$.~"])
        elif r < 0.8:
            # an expression over several lines
            text = "$" + rng.choice(["\n", " \n\t", "\n\n"]) + "[?\n" + "\n && ".join(rng.choice(["@ != 'x'", "!(@ == 'nosuch')", "@.a", "#  != 'q'"]) for _ in range(rng.choice([3, 10, 40]))) + "\n]"
        else:
            text = rng.choice(["$[?@.a ==\n\n", "$['a'\n,", "$" + ".a" * 40 + "[", "$[?nosuch(@)\n]" + "\n" * 30 + "x", "$" + "[0]" * 200 + "]", "$[" + "0," * 300 + "]"])
        if not expression(case, "-q", "--query", "--path-file", text):
            return
        case.files["expression"] = text
        case.output()
        untyped = False
        call = lambda: jsonpath.JSONPathEnvironment(unicode_escape=not case.noesc, well_typed=not untyped).compile(text).findall(case.load())  # noqa: E731
    elif cmd == "pointer":
        text = jp.pointer_text(loc) + rng.choice(["", "", "", "/nosuch", "/0", "/-"])
        if not expression(case, "-p", "--pointer", "--pointer-file", text):
            return
        case.files["expression"] = text[:300]
        case.output()
        call = lambda: jsonpath.pointer.resolve(text, case.load(), unicode_escape=not case.noesc)  # noqa: E731
    else:
        ops = []
        for _ in range(rng.choice([1, 9, 10, 33, 100, 300])):
            ops += operations(rng, doc if len(nodes) < 400 else {"a": 1}) if rng.random() < 0.03 else [{"op": "test", "path": "", "value": doc} if rng.random() < 0.02 else rng.choice([{"op": "test", "path": jp.pointer_text(loc), "value": rng.choice(nodes)[0]} if rng.random() < 0.004 else {"op": "test", "path": jp.pointer_text(loc), "value": _at(doc, loc)}])]
        if rng.random() < 0.5:
            ops.append({"op": rng.choice(["replace", "remove", "add"]), "path": jp.pointer_text(loc), "value": [1] * 50})
        pdata = json.dumps(ops, indent=rng.choice([None, 1])).encode()
        case.files["patch"] = pdata[:300].decode("latin-1")
        case.groups.append([put("patch.json", pdata)])
        case.output()
        call = lambda: jsonpath.patch.apply(json.loads(pdata), case.load(), unicode_escape=not case.noesc)  # noqa: E731
    judge(rng, mon, case, call, process if process is not None else rng.random() < 0.05)


def _at(doc, loc):
    for k in loc:
        doc = doc[k]
    return doc


def processes(rng, mon):
    """The same as real processes, over pipes and files."""
    rng.choice([path_command, pointer_command, patch_command])(rng, mon, process=True)


WORKLOADS = {
    "large": (large, 1200, 24000),
    "path": (path_command, 9000, 300000),
    "pointer": (pointer_command, 7000, 250000),
    "patch": (patch_command, 7000, 250000),
    "processes": (processes, 400, 8000),
}
