"""Runtime: bootstrap of the library under test, monitors, worker pool, evidence.

A *check* is a module in /verif/checks with

    PROPERTY   the property id
    RULE       one paragraph: how cases are made, what makes one non-trivial
    WORKLOADS  {name: (case_fn, quick_n, thorough_n)}
    REQUIRED   {counter: minimum}   fewer -> inconclusive (exit 3)

`case_fn(rng, mon)` drives the real library through its public API for one
generated case and reports what it observed to the monitor `mon`.
"""

from __future__ import annotations

import contextlib
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE_DIR = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.json")

CASE_ALARM_S = 40.0  # processor time: only *triggers* the logical step bound below
CASE_WALL_S = 150.0  # the same for a case that waits without computing
STEP_BOUND = 100_000_000  # logical bound: executed lines of the library per case


class Stop(Exception):
    """Raised inside a case after a violation was recorded: abandon the case."""


class CaseAlarm(BaseException):
    """The wall-clock watchdog of a case fired."""


class Unjudged(BaseException):
    """The oracle has no opinion on this case."""


class StepBound(BaseException):
    """The library executed more than STEP_BOUND lines in one case."""


def bootstrap():
    """Import the library from the working tree, never from stale bytecode."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "verif-no-pyc-%d" % os.getpid())
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import jsonpath

    got = os.path.realpath(jsonpath.__file__)
    want = os.path.realpath(os.path.join(REPO, "jsonpath"))
    if not got.startswith(want + os.sep):
        print(f"ERROR: jsonpath came from {got}, not {want}")
        sys.exit(4)
    return jsonpath


# --------------------------------------------------------------- line monitor


class LineMonitor:
    """Which lines of the library were executed (sys.monitoring, ~free)."""

    TOOL = 3

    def __init__(self):
        self.lines = set()
        self.prefix = os.path.realpath(os.path.join(REPO, "jsonpath")) + os.sep
        self.on = False

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, "verif-lines")
        except ValueError:
            return
        self.on = True

        def line(code, lineno):
            fn = code.co_filename
            if fn.startswith(self.prefix):
                self.lines.add((fn[len(self.prefix):], lineno))
            return m.DISABLE

        m.register_callback(self.TOOL, m.events.LINE, line)
        m.set_events(self.TOOL, m.events.LINE)

    def stop(self):
        if self.on:
            m = sys.monitoring
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.LINE, None)
            m.free_tool_id(self.TOOL)
            self.on = False


class StepCounter:
    """Counts executed library lines; raises StepBound past the bound."""

    TOOL = 4

    def __init__(self, bound=STEP_BOUND):
        self.bound = bound
        self.n = 0
        self.prefix = os.path.realpath(os.path.join(REPO, "jsonpath")) + os.sep

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "verif-steps")

        def line(code, lineno):
            if not code.co_filename.startswith(self.prefix):
                return m.DISABLE
            self.n += 1
            if self.n > self.bound:
                raise StepBound(f"{self.n} library lines executed")
            return None

        m.register_callback(self.TOOL, m.events.LINE, line)
        m.restart_events()
        m.set_events(self.TOOL, m.events.LINE)
        return self

    def __exit__(self, *_):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)


# --------------------------------------------------------------------- monitor


class Outcome:
    """What one call did: a value or an exception."""

    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def kind(self):
        return "ok" if self.ok else type(self.exc).__name__

    def __repr__(self):
        return f"value {short(self.value)}" if self.ok else f"{self.kind}: {safe_str(self.exc)}"


def safe_str(e):
    try:
        return str(e)[:300]
    except Exception as e2:  # noqa: BLE001
        return f"<str() failed: {type(e2).__name__}>"


def short(x, n=300):
    try:
        s = repr(x)
    except Exception as e:  # noqa: BLE001
        s = f"<repr failed: {type(e).__name__}>"
    return s if len(s) <= n else s[:n] + "..."


class Monitor:
    """Records the events of one worker."""

    def __init__(self, pid, known):
        self.pid = pid
        self.known = known
        self.counts = {}
        self.distinct = {}
        self.keys = set()
        self.evaluations = 0
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.notes = []
        self.current = None  # (workload, index, seed)
        self.trace = []
        self.longest = {}

    # events -----------------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def see(self, what, value):
        """A distinct state/shape was observed."""
        s = self.distinct.setdefault(what, set())
        if len(s) < 200_000:
            s.add(value if isinstance(value, (str, int)) else repr(value))

    def case(self, key, nontrivial):
        self.evaluations += 1
        if nontrivial:
            self.keys.add(
                int.from_bytes(
                    hashlib.blake2b(
                        key.encode("utf-8", "surrogatepass"), digest_size=8
                    ).digest(),
                    "big",
                )
            )

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def want_sample(self, limit=3):
        return len(self.samples) < limit

    # calls ------------------------------------------------------------------
    def call(self, fn, *args, **kwargs):
        self.count("api_calls")
        try:
            return Outcome(True, fn(*args, **kwargs), None)
        except (KeyboardInterrupt, Stop):
            raise
        except Exception as e:  # noqa: BLE001
            return Outcome(False, None, e)

    # verdicts ---------------------------------------------------------------
    def violation(self, mechanism, what, **detail):
        """Record a violation (or a known finding) and abandon the case."""
        if mechanism in self.known:
            self.known_hits[mechanism] = self.known_hits.get(mechanism, 0) + 1
            raise Stop
        self.violations.append(
            {
                "mechanism": mechanism,
                "what": what,
                "detail": {k: v if isinstance(v, (str, int, float, bool, type(None))) else short(v, 2000) for k, v in detail.items()},
                "case": self.current,
            }
        )
        raise Stop

    def report(self):
        return {
            "counts": self.counts,
            "distinct": self.distinct,
            "keys": self.keys,
            "evaluations": self.evaluations,
            "samples": self.samples,
            "violations": self.violations[:10],
            "n_violations": len(self.violations),
            "known_hits": self.known_hits,
            "notes": self.notes[:20],
        }


@contextlib.contextmanager
def ordinary_stack():
    """The default recursion limit, as a caller near the bottom of its stack has it."""
    frame, here = sys._getframe(), 0
    while frame:
        here += 1
        frame = frame.f_back
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(1000 + here)
    try:
        yield
    finally:
        sys.setrecursionlimit(old)


def load_known(pid):
    try:
        with open(KNOWN, encoding="utf-8") as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {
        e["mechanism"]: e
        for e in data.get("known", [])
        if e["property"] == pid
    }


# ------------------------------------------------------------------ one case


def run_one(fn, mon, workload, index, seed, recheck=True):
    rng = random.Random(seed)
    mon.current = [workload, index, seed]
    old = signal.signal(signal.SIGALRM, _on_alarm)
    old_cpu = signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_S)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_ALARM_S)
    n_before = len(mon.violations)
    began = time.process_time()
    try:
        fn(rng, mon)
        return "ok"
    except Stop:
        return "violation" if len(mon.violations) > n_before else "known"
    except Unjudged:
        mon.count("unjudged")
        return "ok"
    except CaseAlarm:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        mon.count("watchdog_fired")
        if not recheck:
            return "watchdog"
        # logical-step verdict
        rng = random.Random(seed)
        signal.setitimer(signal.ITIMER_REAL, 300)
        try:
            with StepCounter():
                fn(rng, mon)
            return "ok"
        except Unjudged:
            return "ok"
        except Stop:
            return "violation"
        except StepBound as e:
            try:
                mon.violation(
                    "nontermination",
                    f"the library executed more than {STEP_BOUND} lines without finishing one small case ({e})",
                    traceback=traceback.format_exc()[-1500:],
                )
            except Stop:
                pass
            return "violation"
        except CaseAlarm:
            mon.notes.append(f"inconclusive: watchdog fired twice in {mon.current}")
            mon.count("inconclusive_cases")
            return "watchdog"
    except RecursionError:
        mon.notes.append(f"RecursionError in harness {mon.current}")
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        signal.signal(signal.SIGVTALRM, old_cpu)
        mon.longest[workload] = max(mon.longest.get(workload, 0), time.process_time() - began)


def _on_alarm(signum, frame):
    raise CaseAlarm


def guarded(fn, mon, workload, index, seed):
    """run_one, with an unexpected exception judged by whether it reproduces."""
    try:
        return run_one(fn, mon, workload, index, seed)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: BLE001
        first = traceback.format_exc()
        try:
            run_one(fn, mon, workload, index, seed)
        except BaseException as e2:  # noqa: BLE001
            if type(e2) is type(e):
                try:
                    mon.violation(
                        f"unjudgeable:{type(e).__name__}",
                        "the library produced something the oracle cannot read "
                        "(or raised where it must return): "
                        f"{type(e).__name__}: {safe_str(e)}",
                        traceback=first[-3000:],
                    )
                except Stop:
                    pass
                return "violation"
        mon.count("harness_errors")
        mon.notes.append("harness error: " + first[-800:])
        return "error"


def case_seed(seed, pid, workload, index):
    return f"{seed}/{pid}/{workload}/{index}"


# ------------------------------------------------------------------- workers


def _worker(check, wid, nworkers, plan, seed, deadline, conn):
    try:
        random.seed(0)
        sys.setrecursionlimit(max(sys.getrecursionlimit(), 3000))
        mon = Monitor(check.PROPERTY, load_known(check.PROPERTY))
        lm = LineMonitor()
        if getattr(check, "LINE_MONITOR", True):
            lm.start()
        setup = getattr(check, "worker_setup", None)
        if setup:
            setup(wid)
        truncated = 0
        # round-robin over workloads so that a truncated run stays balanced
        iters = [
            (name, fn, iter(range(wid, n, nworkers))) for name, (fn, n) in plan.items()
        ]
        total = {name: len(range(wid, n, nworkers)) for name, (fn, n) in plan.items()}
        live = list(iters)
        done = 0
        biggest = max([v for v in total.values()] or [1])
        rounds = 0
        while live:
            if time.monotonic() > deadline:
                truncated = sum(total.values()) - done
                break
            rounds += 1
            nxt = []
            for name, fn, it in live:
                # proportional share per round
                share = max(1, round(total[name] * 50 / max(1, biggest)))
                alive = True
                for _ in range(share):
                    i = next(it, None)
                    if i is None:
                        alive = False
                        break
                    guarded(fn, mon, name, i, case_seed(seed, check.PROPERTY, name, i))
                    done += 1
                    mon.count("cases:" + name)
                    if time.monotonic() > deadline:
                        break
                if alive:
                    nxt.append((name, fn, it))
            live = nxt
            if len(mon.violations) >= 6:
                break
        teardown = getattr(check, "worker_teardown", None)
        if teardown:
            teardown(mon)
        lm.stop()
        rep = mon.report()
        rep["lines"] = lm.lines
        rep["truncated"] = truncated
        rep["longest"] = mon.longest
        conn.send(rep)
    except BaseException:  # noqa: BLE001
        conn.send({"crash": traceback.format_exc()})
    finally:
        conn.close()


def _code_lines(prefix):
    """Executable lines per library file (from compiled code objects)."""
    out = {}
    for root, dirs, files in os.walk(prefix):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        for f in files:
            if not f.endswith(".py"):
                continue
            p = os.path.join(root, f)
            try:
                top = compile(open(p, "rb").read(), p, "exec")
            except SyntaxError:
                continue
            lines = set()
            stack = [(top, True)]
            while stack:
                c, is_top = stack.pop()
                if not is_top:
                    lines |= {ln for _, _, ln in c.co_lines() if ln}
                for k in c.co_consts:
                    if hasattr(k, "co_lines"):
                        # class bodies run at import: count only functions
                        stack.append((k, bool(k.co_flags & 0x2) is False))
            out[os.path.relpath(p, prefix)] = lines
    return out


# ---------------------------------------------------------------------- main


def main(check, argv):
    os.environ.setdefault("PYTHONHASHSEED", "0")
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    replay = None
    scale = float(os.environ.get("VERIF_SCALE", "0"))
    nworkers = int(os.environ.get("VERIF_WORKERS", "8"))
    args = list(argv)
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--scale":
            scale = float(args.pop(0))
        else:
            print("usage: run_check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]")
            return 4
    if tier not in ("quick", "thorough"):
        tier = "quick"
    pid = check.PROPERTY
    t0 = time.monotonic()
    if replay:
        return do_replay(check, replay)

    plan = {}
    for name, spec in check.WORKLOADS.items():
        fn, q, t = spec
        n = q if tier == "quick" else t
        if n:
            # A scale that is given applies to every workload; the usual one doubles
            # quick counts, as far as there are cases.
            plan[name] = (fn, max(1, int(n * scale)) if scale else min(2 * n, t) if tier == "quick" else n)
    limit = float(
        os.environ.get("VERIF_BUDGET_S", getattr(check, "BUDGET", {}).get(tier, 240 if tier == "quick" else 3000))
    )
    deadline = t0 + limit
    ctx = multiprocessing.get_context("fork")
    procs = []
    for w in range(nworkers):
        r, s = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(check, w, nworkers, plan, seed, deadline, s))
        p.start()
        s.close()
        procs.append((p, r))
    reps, crashes = [], []
    for p, r in procs:
        try:
            left = deadline + 240 - time.monotonic()
            if r.poll(max(1, left)):
                rep = r.recv()
                if "crash" in rep:
                    crashes.append(rep["crash"])
                else:
                    reps.append(rep)
            else:
                crashes.append("worker watchdog: no report")
        except EOFError:
            crashes.append("worker died without a report")
    for p, _ in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    return finish(check, tier, seed, t0, plan, reps, crashes)


def _seed_int(seed):
    try:
        return int(seed)
    except ValueError:
        return int.from_bytes(hashlib.blake2b(seed.encode(), digest_size=4).digest(), "big")


def finish(check, tier, seed, t0, plan, reps, crashes):
    pid = check.PROPERTY
    counts, distinct, keys, known_hits = {}, {}, set(), {}
    samples, violations, notes, lines = [], [], [], set()
    evaluations = truncated = 0
    longest = {}
    for rep in reps:
        for k, v in rep["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in rep["distinct"].items():
            distinct.setdefault(k, set()).update(v)
        for k, v in rep["known_hits"].items():
            known_hits[k] = known_hits.get(k, 0) + v
        keys |= rep["keys"]
        evaluations += rep["evaluations"]
        samples += rep["samples"]
        violations += rep["violations"]
        notes += rep["notes"]
        lines |= rep["lines"]
        truncated += rep["truncated"]
        for k, v in rep.get("longest", {}).items():
            longest[k] = max(longest.get(k, 0), round(v, 1))

    reach = {}
    try:
        allof = _code_lines(os.path.realpath(os.path.join(REPO, "jsonpath")))
        for f, ls in sorted(allof.items()):
            hit = {ln for (fn, ln) in lines if fn == f} & ls
            if hit:
                reach[f] = f"{len(hit)}/{len(ls)}"
    except Exception as e:  # noqa: BLE001
        notes.append(f"reach: {e}")

    wall = time.monotonic() - t0
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(keys),
        "rule": check.RULE,
        "samples": samples[:6] or ["(none)"],
        "events_observed": dict(sorted(counts.items())),
        "distinct_states_observed": {k: len(v) for k, v in sorted(distinct.items())},
        "library_lines_executed": reach,
        "workloads": {k: n for k, (_, n) in plan.items()},
        "cases_not_run_for_time": truncated,
        "longest_case_s": longest,
    }
    for k, v in sorted(distinct.items()):
        if len(v) <= 40:
            coverage.setdefault("observed_values", {})[k] = sorted(map(str, v))
    ev = {
        "property": pid,
        "tier": tier,
        "seed": _seed_int(seed),
        "level": "exploration",
        "coverage": coverage,
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if notes:
        ev["coverage"]["notes"] = notes[:10]
    os.makedirs(EVIDENCE_DIR, exist_ok=True)
    with open(os.path.join(EVIDENCE_DIR, pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(_jsonable(ev), f, indent=1, ensure_ascii=True)

    known = load_known(pid)
    for mech, e in known.items():
        if known_hits.get(mech):
            print(f"KNOWN-FINDING: property={pid} {e['what']} [{mech}; observed {known_hits[mech]}x]")
        else:
            print(f"note: known finding {mech} of {pid} was not observed in this run")
    if violations:
        seen = set()
        for v in violations:
            if v["mechanism"] in seen:
                continue
            seen.add(v["mechanism"])
            rd = os.path.join(EVIDENCE_DIR, "replay")
            os.makedirs(rd, exist_ok=True)
            h = hashlib.blake2b(json.dumps(_jsonable(v), sort_keys=True).encode(), digest_size=5).hexdigest()
            path = os.path.join(rd, f"{pid}-{h}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump(_jsonable({"property": pid, **v}), f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  mechanism: {v['mechanism']}")
            print("  what: " + ascii(v["what"])[1:-1])
            for k, d in v["detail"].items():
                print(f"    {k}: {ascii(d)[:1200]}")
            if len(seen) >= 8:
                break
        return 1
    if crashes:
        print("ERROR (inconclusive): " + crashes[0][-3000:])
        return 3
    if counts.get("harness_errors"):
        print("ERROR (inconclusive): harness errors: " + ascii(notes[:3]))
        return 3
    if counts.get("inconclusive_cases"):
        print("ERROR (inconclusive): " + ascii(notes[:3]))
        return 3
    missing = {
        k: (counts.get(k, 0), n)
        for k, n in getattr(check, "REQUIRED", {}).items()
        if counts.get(k, 0) < n
    }
    if missing:
        print(f"ERROR (inconclusive): {pid}: monitors observed too little: {missing}")
        return 3
    print(
        f"OK property={pid} tier={tier} seed={seed}: held on {evaluations} cases "
        f"({len(keys)} distinct non-trivial), {sum(v for k, v in counts.items() if k == 'api_calls')} API calls, "
        f"{wall:.1f}s" + (f", {truncated} cases not run for time" if truncated else "")
    )
    return 0


def _jsonable(x):
    if isinstance(x, dict):
        return {ascii(k)[1:-1] if isinstance(k, str) else str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in x]
    if isinstance(x, str):
        return x.encode("utf-8", "backslashreplace").decode("utf-8")
    if isinstance(x, (int, bool, type(None))):
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    return repr(x)


def do_replay(check, path):
    with open(path, encoding="utf-8") as f:
        v = json.load(f)
    workload, index, seed = v["case"]
    fn = check.WORKLOADS[workload][0]
    mon = Monitor(check.PROPERTY, load_known(check.PROPERTY))
    setup = getattr(check, "worker_setup", None)
    if setup:
        setup(0)
    guarded(fn, mon, workload, index, seed)
    teardown = getattr(check, "worker_teardown", None)
    if teardown:
        teardown(mon)
    if mon.violations:
        for v in mon.violations:
            print(f"VIOLATION property={check.PROPERTY} replay={path}")
            print(ascii(v["what"]))
            for k, d in v["detail"].items():
                print(f"    {k}: {ascii(d)}")
        return 1
    print("replayed: no violation")
    return 0
