#!/opt/venv/bin/python
"""Plant bugs: turn a spec into /verif/seeded/<id>/, confirming every claim.

usage: plant.py SPEC.py [--only ID ...] [--nocheck]

SPEC.py defines BUGS, a list of dicts
    id, prop, edits=[(file, old, new), ...], demo (python source), needs, breaks
Each one is applied to a scratch copy of /repo; it is kept only when the stable
tests still pass with it, its demo is 0 without it and nonzero with it, and the
lines it takes away are lines of the original repository.  Then the property's
own quick check is run against the scratch copy, to say whether it is caught.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
BASE = "eadfa53"
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
# run with cwd /repo: 0 when the property holds for the case shown, 1 when not
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def original_lines():
    """(file, line number) of the lines that come from the original repository."""
    own = set(run(["git", "-C", str(REPO), "rev-list", f"{BASE}..HEAD"]).stdout.split())
    out = {}

    def get(f):
        if f not in out:
            txt = run(["git", "-C", str(REPO), "blame", "-l", "-s", "HEAD", "--", f]).stdout
            ok = set()
            for n, line in enumerate(txt.splitlines(), 1):
                if line.split()[0].lstrip("^")[:39] not in {o[:39] for o in own}:
                    ok.add(n)
            out[f] = ok
        return out[f]

    return get


def removed(diff):
    f, n = None, 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("---") or line.startswith("+++"):
            continue
        elif line.startswith("-"):
            yield f, n
            n += 1
        elif line.startswith(" "):
            n += 1


def stable(tree):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=str(tree),
               PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    cts = tree / "tests/cts/cts.json"
    if not cts.exists():
        cts.parent.mkdir(parents=True, exist_ok=True)
        shutil.copy("/opt/vp/data/cts.json", cts)
    r = run([PY, "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=300",
             "--ignore=tests/test_nts.py"], cwd=tree, env=env)
    tail = r.stdout.strip().splitlines()[-1:] or [r.stderr[-200:]]
    return r.returncode == 0, tail[0]


def plant(b, get, check=True):
    bid = b["id"]
    tree = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        shutil.rmtree(tree)
        shutil.copytree(REPO, tree, symlinks=True)
        for f, old, new in b["edits"]:
            p = tree / f
            s = p.read_text()
            nth, named = 1, isinstance(old, tuple)
            if named:
                old, nth = old
            if s.count(old) < nth or (not named and s.count(old) != 1 and not b.get("all")):
                return bid, f"EDIT: {f}: {s.count(old)} matches"
            if b.get("all"):
                s = s.replace(old, new)
            else:
                i = -1
                for _ in range(nth):
                    i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
            p.write_text(s)
        diff = run(["git", "diff"], cwd=tree).stdout
        rem = list(removed(diff))
        if not rem:
            return bid, "takes no line away"
        foreign = [x for x in rem if x[1] not in get(x[0])]
        if foreign:
            return bid, f"takes away lines of ours: {foreign}"
        ok, tail = stable(tree)
        if not ok:
            return bid, f"TESTS: {tail}"
        with tempfile.TemporaryDirectory() as d:
            dd = pathlib.Path(d)
            (dd / "demo.py").write_text(b["demo"].lstrip("\n"))
            (dd / "demo.sh").write_text(DEMO_SH)
            clean = run(["bash", str(dd / "demo.sh")], cwd=REPO)
            bad = run(["bash", str(dd / "demo.sh")], cwd=tree)
            if clean.returncode != 0:
                return bid, f"DEMO fails on clean: {clean.stderr[-300:]}"
            if bad.returncode == 0:
                return bid, "DEMO passes with the bug"
        out = VERIF / "seeded" / bid
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        (out / "demo.py").write_text(b["demo"].lstrip("\n"))
        (out / "demo.sh").write_text(DEMO_SH)
        (out / "demo.sh").chmod(0o755)
        (out / "meta.json").write_text(json.dumps(
            {"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        if not check:
            return bid, "kept"
        return bid, "kept; " + judge(b["prop"], tree)
    finally:
        shutil.rmtree(tree, ignore_errors=True)


def judge(prop, tree):
    ev = tempfile.mkdtemp(prefix="plant-ev-")
    env = dict(os.environ, VERIF_REPO=str(tree), VERIF_EVIDENCE=ev, VERIF_SEED="1", VERIF_TIER="quick")
    r = run([PY, str(VERIF / "run_check.py"), prop], env=env)
    shutil.rmtree(ev, ignore_errors=True)
    mech = sorted(set(re.findall(r"mechanism\S*\s*(\S+)", r.stdout)))[:3]
    caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
    return ("CAUGHT " if caught else f"MISSED rc={r.returncode} {r.stderr[-200:]}") + " ".join(mech)


def recheck(ids):
    def one(i):
        d = VERIF / "seeded" / i
        prop = json.load(open(d / "meta.json"))["property"]
        tree = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
        try:
            shutil.rmtree(tree)
            shutil.copytree(REPO, tree, symlinks=True)
            r = run(["git", "apply", str(d / "patch.diff")], cwd=tree)
            if r.returncode:
                return i, "NO LONGER APPLIES"
            return i, prop + " " + judge(prop, tree)
        finally:
            shutil.rmtree(tree, ignore_errors=True)
    return one


def main():
    args = sys.argv[1:]
    if args[0] == "--recheck":
        ids = args[1:] or sorted(p.name for p in (VERIF / "seeded").iterdir() if (p / "patch.diff").exists())
        with cf.ThreadPoolExecutor(4) as ex:
            for i, m in ex.map(recheck(ids), ids):
                print(f"{i}: {m}", flush=True)
        return
    spec = importlib.util.spec_from_file_location("spec", args[0])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    only = set(args[args.index("--only") + 1:]) if "--only" in args else None
    get = original_lines()
    for b in mod.BUGS:
        for f, _, _ in b["edits"]:
            get(f)
    bugs = [b for b in mod.BUGS if not only or b["id"] in only]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(lambda b: plant(b, get, "--nocheck" not in args), bugs):
            print(f"{i}: {m}", flush=True)


if __name__ == "__main__":
    main()
