"""Runs each planted change's own check (quick, on a scratch copy of /repo) and records what caught it.

python3 tools/catch.py [id...]   (check arguments may follow '--', e.g. -- --seed 2; then nothing is recorded)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRS = [os.path.join(HERE, d) for d in ("seeded", "seeded_on_fixes")]


def where(i):
    return next(os.path.join(d, i) for d in DIRS if os.path.isdir(os.path.join(d, i)))


argv = sys.argv[1:]
extra = []
if "--" in argv:
    extra = argv[argv.index("--") + 1 :]
    argv = argv[: argv.index("--")]
path = os.path.join(HERE, "tools", "caught.json")
caught = json.load(open(path)) if os.path.exists(path) else {}
scratch = tempfile.mkdtemp(prefix="catch.")
try:
    for i in argv or sorted(i for d in DIRS for i in os.listdir(d)):
        prop = json.load(open(os.path.join(where(i), "meta.json")))["property"]
        copy = os.path.join(scratch, "repo")
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree("/repo", copy, symlinks=True)
        subprocess.run(["git", "-C", copy, "apply", os.path.join(where(i), "patch.diff")], check=True)
        r = subprocess.run(
            [os.path.join(HERE, "check"), prop, *extra], cwd=HERE, env={**os.environ, "AIOK8S_REPO": copy}, capture_output=True, text=True
        )
        hit = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
        m = re.search(r"scenario (\S+) seed \S+: (.*)", r.stdout)
        how = f"`{m.group(1)}`: {m.group(2)[:110]}" if hit and m else f"MISSED (exit {r.returncode})"
        print(i, prop, how.replace("|", "/"), flush=True)
        caught[i] = how.replace("|", "/").replace("\n", " ")
finally:
    shutil.rmtree(scratch)
if not extra:
    caught = {i: caught[i] for i in sorted(caught) if any(os.path.isdir(os.path.join(d, i)) for d in DIRS)}
    with open(path, "w") as f:
        json.dump(caught, f, indent=1)
        f.write("\n")
