"""Write DESIGN.md: tools/design.md plus the generated appendices.

usage: mkdesign.py [RECHECK_LOG]   (a log of `plant.py --recheck` refreshes tools/caught.json)
"""

import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
CAUGHT = os.path.join(HERE, "caught.json")


def cell(s):
    return re.sub(r"\s+", " ", str(s)).replace("|", "\\|")


caught = json.load(open(CAUGHT)) if os.path.exists(CAUGHT) else {}
if len(sys.argv) > 1:
    for line in open(sys.argv[1]):
        m = re.match(r"(C\d\d-[\w.-]+): C\d\d (CAUGHT|MISSED|\S+)\s*(.*)", line)
        if m:
            caught[m[1]] = [m[2], " ".join(m[3].split()[:2])]
    have = set(os.listdir(os.path.join(VERIF, "seeded")))
    caught = {k: v for k, v in sorted(caught.items()) if k in have}
    with open(CAUGHT, "w") as f:
        json.dump(caught, f, indent=0)
        f.write("\n")

out = [open(os.path.join(HERE, "design.md")).read().rstrip(), "", "## Appendix A: workloads", ""]
out.append("Cases per run: quick / thorough.")
for i in range(1, 21):
    m = importlib.import_module(f"checks.c{i:02d}")
    out += ["", f"### {m.PROPERTY} — {(m.__doc__ or '').strip().splitlines()[0].split(':', 1)[-1].strip()}", "", re.sub(r"\s+", " ", m.RULE), ""]
    if m.ASSUMPTIONS:
        out.append("Assumptions: " + "; ".join(m.ASSUMPTIONS) + ".")
        out.append("")
    out += ["| workload | quick | thorough | what |", "|---|---|---|---|"]
    for name, (fn, q, t) in m.WORKLOADS.items():
        out.append(f"| {name} | {q} | {t} | {cell((fn.__doc__ or '').strip().splitlines()[0] if fn.__doc__ else '')} |")
out += ["", "## Appendix B: planted bugs", ""]
rows = []
for d in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
    meta = json.load(open(os.path.join(VERIF, "seeded", d, "meta.json")))
    verdict, by = caught.get(d, ["?", ""])
    rows.append((d, meta["property"], meta["needs"], meta["what_it_breaks"], verdict, by))
n = sum(r[4] == "CAUGHT" for r in rows)
out.append(f"{len(rows)} planted bugs, {n} caught by the quick check of their property.")
out += ["", "| id | needs | breaks | verdict |", "|---|---|---|---|"]
for d, p, needs, what, verdict, by in rows:
    out.append(f"| {d} | {cell(needs)} | {cell(what)} | {verdict.lower()}{(': ' + cell(by)) if by else ''} |")
with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
print(len(rows), "bugs,", n, "caught")
