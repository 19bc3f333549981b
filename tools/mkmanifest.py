"""Write MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

T = {
    "C01": ("conformance of every match sequence (values and locations) with an independent RFC 9535 evaluator, monitored online over generated queries and documents",
            "Oracle: own RFC 9535 segment/selector evaluator working on abstract syntax, never on the library's parser."),
    "C02": ("online conformance monitor for filter evaluation against an independent evaluator of RFC 9535 logical expressions",
            "Oracle: own evaluator of comparisons, existence tests, functions and I-Regexp matching."),
    "C03": ("monitor on every match: re-evaluating its normalized path, pointer and parts must give that very node",
            "Oracle: the location the match claims, resolved by the monitor in the parsed document by object identity."),
    "C04": ("online monitor against an RFC 6901 resolver, plus a full grid of tricky tokens on containers",
            "Oracle: own RFC 6901 resolver, by object identity."),
    "C05": ("online monitor of patch application against an RFC 6902 state machine",
            "Oracle: own RFC 6902 interpreter run in lock step with the library."),
    "C06": ("hostile-input monitor: exception-family oracle on every public entry point, executed-line bound for termination",
            "The monitor sees every outcome of every call; anything but a value or a documented error is a violation."),
    "C07": ("compile-time gate monitor: accept/refuse verdicts against an independent implementation of the RFC grammar and typing rules",
            "Oracle: own classification of generated programs, well-typed or broken in exactly one named way."),
    "C08": ("differential monitor: async event sequence against the sync event sequence, under concurrent tasks and injected suspension points",
            "Oracle: the sync API (itself judged by C01/C02/C13) and, independently, the reference evaluator."),
    "C09": ("state monitors (deep fingerprints of document, context and compiled query), recording containers, forced thread/iterator interleavings",
            "Oracle: the result of a fresh, isolated, uncached evaluation; fingerprints before/after; writes trapped by read-only containers."),
    "C10": ("round-trip monitor on the string form of compiled queries, evaluated on documents chosen to separate meanings",
            "Oracle: matches of the original query on separating documents, and the reference evaluator for generated programs."),
    "C11": ("cross-entry-point agreement monitor, with compound queries judged by an independent fold",
            "Oracle: own left-to-right fold of the operands' sequences; the other entry points."),
    "C12": ("history monitor: exhaustive and random operation chains against a list model",
            "Oracle: list slicing on the recorded match sequence, by match identity."),
    "C13": ("online conformance monitor for the documented extensions, against a reference evaluator and against the documented RFC equivalents",
            "Oracle: own evaluator of the documented extension semantics."),
    "C14": ("algebraic monitors over pointer operations (round trips, joins, parents, prefixes, equality)",
            "Oracle: own RFC 6901 token model."),
    "C15": ("history monitor: patches built, serialised, rebuilt and applied repeatedly against a reference model, with aliasing checks",
            "Oracle: own patch interpreter; object-identity (aliasing) and fingerprint monitors."),
    "C16": ("online monitor of relative pointers against an independent implementation of the draft",
            "Oracle: own relative JSON Pointer evaluator."),
    "C17": ("metamorphic monitor over environments with re-spelled identifiers",
            "Oracle: the reference evaluator and the default environment on the same abstract query."),
    "C18": ("process-level monitor of the command line (streams, exit status, files) against the library call",
            "Oracle: the library call itself (judged by the other checks) and the documented error contract."),
    "C19": ("projection monitor: expected projections computed from match locations, document fingerprint",
            "Oracle: own projection by locations and ranks."),
    "C20": ("monitor of match -> pointer -> patch edits against direct edits at the match location",
            "Oracle: direct edit of the document at the location."),
}

NOTE = (" Runtime verification: holds on every execution observed (volumes, constructs and distinct cases are in the evidence file), "
        "not on unobserved inputs. Trusts the oracle code in /verif/vlib and CPython.")

checks, na = [], []
for pid, (tech, note) in T.items():
    if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": f"{PY} run_check.py {pid} --tier quick",
            "thorough_cmd": f"{PY} run_check.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "runtime monitoring: " + tech,
            "level": "exploration",
            "level_note": note + NOTE,
        })
    else:
        na.append({"property": pid, "reason": "the check is still being built"})

out = {
    "version": 1,
    "setup_cmd": f"{PY} -c \"import sys; sys.path.insert(0, '/verif'); import vlib.rt, vlib.jp, vlib.ptr\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every monitor observes the public API from outside (see DESIGN.md). /repo carries fix: commits only.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
