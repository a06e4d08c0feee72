"""Regenerates properties.jsonl, MANIFEST.json and the 'fixed' entries of known_findings.jsonl."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import P, NOT_APPLICABLE  # noqa
from fixes import FIXES, OPEN  # noqa

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i not in NOT_APPLICABLE and os.path.exists(os.path.join(ROOT, "harness", i.lower() + ".py")):
        checks.append(dict(
            property=i, quick_cmd=f"./check.sh {i} --tier quick", thorough_cmd=f"./check.sh {i} --tier thorough",
            technique="symbolic execution of the real code + SMT (z3): every path, every claim a query over all values in the bounds, counterexamples replayed",
            level="model_checking",
            level_note="Bounded: holds for every real value inside the stated boxes and for every history of the stated length; "
                       "rounding, numpy/scipy/gymnasium internals and everything outside the bounds in the harness' BOUNDS text are not covered.",
        ))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
                   notes="No hooks in /repo: the checks execute the code under test unmodified, from /repo/src."), f, indent=1)
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], capture_output=True, text=True).stdout
subj = {l.split("\t", 1)[1][5:]: l.split("\t", 1)[0] for l in log.splitlines() if "\tfix: " in l}
with open(os.path.join(ROOT, "known_findings.jsonl"), "w") as f:
    for o in OPEN:
        f.write(json.dumps(dict(o, status="open")) + "\n")
    for s, props, text in FIXES:
        h = subj.pop(s)
        for pr in props:
            f.write(json.dumps(dict(property=pr, case="", label="", status="fixed", id=h, text=f"fixed: property={pr} {h} {text}")) + "\n")
if subj:
    print("fix commits without an entry:", subj)
print(len(checks), "checks,", len(na), "not applicable")
