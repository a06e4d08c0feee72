"""Writes DESIGN.md: prose of this file + statements (props.py) + BOUNDS of the harnesses + findings (fixes.py) + seeded/*."""
import ast
import glob
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import P  # noqa
from fixes import FIXES, OPEN  # noqa
from design_parts import HEAD, METHOD, OUTSIDE, SEEDNOTES, TAIL  # noqa


def bounds(i):
    t = ast.parse(open(os.path.join(ROOT, "harness", i.lower() + ".py")).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "BOUNDS":
            return ast.literal_eval(n.value)
    return BOUNDS_DRIVE


tdrive = ast.parse(open(os.path.join(ROOT, "harness", "drive.py")).read())
BOUNDS_DRIVE = next((ast.literal_eval(n.value) for n in tdrive.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "BOUNDS"),
                    "see harness/drive.py")
out = [HEAD]
out.append("\n## Properties, one by one\n")
for p in P:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n\n*How it is decided.* {METHOD[i]}\n\n*Bounds.* {bounds(i)}.\n")
    if i in OUTSIDE:
        out.append(f"*Outside.* {OUTSIDE[i]}\n")
out.append("\n## Findings\n\nOpen (listed in known_findings.jsonl by case and claim; printed as KNOWN-FINDING, everything else of the same property is still "
           "reported):\n")
for o in OPEN:
    out.append(f"- **{o['id']}** ({o['property']}): {o['text']}")
out.append(f"\nRepaired, one `fix:` commit in /repo each ({len(FIXES)}); every one was found by a check or while writing its harness, fails there without the "
           "commit and leaves the existing tests unedited and passing:\n")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], capture_output=True, text=True).stdout
subj = {l.split("\t", 1)[1][5:]: l.split("\t", 1)[0] for l in log.splitlines() if "\tfix: " in l}
for s, props, text in FIXES:
    out.append(f"- {subj.get(s, '?')} ({', '.join(props)}): {text}")
out.append("\n## Planted bugs\n\nEach was written from a property's text and the code, validated in a scratch copy (applies, builds, all stable tests pass, demo "
           "fails with it and passes without) and kept whether caught or not.\n\n| bug | property | caught by | needs |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    n = os.path.basename(d)
    out.append(f"| {n} | {m['property']} | {SEEDNOTES.get(n, 'check ' + m['property'] + ' (quick)')} | {m['needs']} |")
out.append(TAIL)
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
