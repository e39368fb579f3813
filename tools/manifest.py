"""Regenerates MANIFEST.json from the check modules present."""
import importlib.util
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
checks = []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    props = [json.loads(line) for line in f]
missing = []
for p in props:
    path = os.path.join(HERE, "rv", "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        missing.append(p["id"])
        continue
    src = open(path).read()
    tech = re.search(r'^TECHNIQUE = "(.*)"$', src, re.M)
    note = re.search(r'^NOTE = "(.*)"$', src, re.M)
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"./check {p['id']}",
            "thorough_cmd": f"./check {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": tech.group(1) if tech else "runtime monitoring: seeded random workloads on the real code in virtual time, judged by online monitors and history checkers",
            "level": "exploration",
            "level_note": note.group(1)
            if note
            else "Held on the executions observed (seeded, reproducible; counts in the evidence file); paths the workloads do not reach are not judged. Trusts CPython's asyncio and the harness' virtual clock.",
        }
    )
out = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import kubernetes_asyncio'",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "check not built yet"} for i in missing],
    "notes": "Each check imports aiok8s from /repo's working tree (no build step, no hooks); ./check <id> [--tier quick|thorough] [--seed N] [--replay FILE] [-v].",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", "missing:", missing)
