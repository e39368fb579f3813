"""Regenerates DESIGN.md from its hand-written head (tools/design_head.md), spec.py, the check modules,
known_findings.txt and tools/caught.json (written by tools/catch.py)."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
from tools.spec import P  # noqa: E402

findings = {}
with open(os.path.join(HERE, "known_findings.txt")) as f:
    for line in f:
        m = re.match(r"(finding|fixed): property=(\S+) (\S+) (.*)", line.strip())
        if m:
            findings.setdefault(m.group(2), []).append((m.group(1), m.group(3), m.group(4)))
caught = {}
path = os.path.join(HERE, "tools", "caught.json")
if os.path.exists(path):
    with open(path) as f:
        caught = json.load(f)

out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), ""]
out.append("## Per property\n")
for p in P:
    mod = importlib.import_module(f"rv.checks.{p['id'].lower()}")
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Ranges over*: {p['quantifier']['text']}. *Why the tests cannot settle it*: {p['why_tests_cant']}\n")
    out.append(f"*Workload, monitors and oracle*: {mod.RULE}\n")
    sizes = "; ".join(f"`{s}` {n} / {mod.PLAN['thorough'].get(s, 0)}" for s, n in mod.PLAN["quick"].items())
    out.append(f"*Cases (quick / thorough)*: {sizes}. *Observations that must not be zero*: {len(mod.REQUIRED_COUNTS)} counters ({', '.join(list(mod.REQUIRED_COUNTS)[:6])}{', …' if len(mod.REQUIRED_COUNTS) > 6 else ''}).\n")
    if mod.ASSUMPTIONS:
        out.append("*Assumptions and tolerances*: " + "; ".join(mod.ASSUMPTIONS) + ".\n")
    for kind, tag, what in findings.get(p["id"], []):
        out.append(f"*{'Repaired defect' if kind == 'fixed' else 'Known finding'}* ({tag}): {what}.\n")
out.append("## Planted changes and what catches them\n")
out.append(
    "Each lies in `seeded/<id>/` (patch, demonstration, what it needs), or in `seeded_on_fixes/<id>/` when it undoes or\n"
    "changes lines that one of the `fix:` commits added (those do not count as plants in the original code). \"Caught\" names the scenario of the property's own quick\n"
    "check that reported it at seed 1 (regenerate with `python3 tools/catch.py`, which works on a scratch copy of /repo).\n"
)
out.append("| change | property | needs | caught by |")
out.append("|---|---|---|---|")
total = 0
for d in ("seeded", "seeded_on_fixes"):
    root = os.path.join(HERE, d)
    for i in sorted(os.listdir(root)):
        total += 1
        with open(os.path.join(root, i, "meta.json")) as f:
            m = json.load(f)
        out.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '?')} |")
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
print(len(P), "properties,", total, "planted changes")
