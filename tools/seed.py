#!/usr/bin/env python3
"""Planted bugs. seed.py make BUGS.py: writes seeded/<id>/ from a table; seed.py run [ID...]: confirms them.

`run` copies /repo to a scratch folder, applies the patch, runs the tests, the demonstration (with and
without the patch) and the check of the property there, and prints one line per bug.
"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SEEDED = os.path.join(HERE, "seeded")
HEAD = 'import os, sys\n\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nimport pyvista as pv\nimport pvgridder as pvg\n\nassert os.path.realpath(pvg.__file__).startswith(os.path.realpath(os.getcwd())), pvg.__file__\n\n'
SH = '#!/bin/bash\n# Run from the root of the repository: exits 0 when the behaviour is right.\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def scratch():
    d = tempfile.mkdtemp(prefix="seed-")
    subprocess.run(f"git -C /repo archive HEAD | tar -x -C {d}", shell=True, check=True)
    subprocess.run("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base", shell=True, cwd=d, check=True)
    return d


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns["BUGS"]:
        d = scratch()
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(d, f)
                t = open(p).read()
                assert t.count(old) == 1, (b["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True, check=True).stdout
        finally:
            shutil.rmtree(d)
        out = os.path.join(SEEDED, b["id"])
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.py", "w").write(HEAD + b["demo"].strip() + "\n")
        open(f"{out}/demo.sh", "w").write(SH)
        os.chmod(f"{out}/demo.sh", 0o755)
        with open(f"{out}/meta.json", "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
            f.write("\n")
    return [b["id"] for b in ns["BUGS"]]


def run(i, tests=True, check=True):
    src = os.path.join(SEEDED, i)
    meta = json.load(open(f"{src}/meta.json"))
    d = scratch()
    env = {**os.environ, "PYTHONPATH": d, "VERIF_REPO": d, "VERIF_EVIDENCE": os.path.join(d, ".evidence"), "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "VERIF_SEED": "1"}
    try:
        out = []
        r = subprocess.run(["bash", f"{src}/demo.sh"], cwd=d, env=env, capture_output=True, text=True)
        out.append("demo0:" + ("ok" if r.returncode == 0 else "FAILS " + r.stderr[-400:]))
        a = subprocess.run(["git", "apply", f"{src}/patch.diff"], cwd=d, capture_output=True, text=True)
        if a.returncode:
            return i, meta["property"], out + ["DOES NOT APPLY " + a.stderr[-300:]], False
        r = subprocess.run(["bash", f"{src}/demo.sh"], cwd=d, env=env, capture_output=True, text=True)
        out.append("demo1:" + ("ok" if r.returncode else "PASSES"))
        if tests:
            r = subprocess.run(f"xvfb-run -a {PY} -m pytest -q -n 2 -p no:cacheprovider -W ignore --timeout=300 tests 2>&1 | tail -4", shell=True, cwd=d, env=env, capture_output=True, text=True)
            out.append("tests:" + " | ".join(r.stdout.strip().splitlines()[-3:])[-200:])
        caught = None
        if check:
            r = subprocess.run([PY, f"{HERE}/run.py", meta["property"], "--tier", "quick"], cwd=HERE, env=env, capture_output=True, text=True)
            caught = r.returncode == 1 and f"VIOLATION property={meta['property']}" in r.stdout
            out.append(("CAUGHT " if caught else f"MISSED rc={r.returncode} ") + r.stdout.strip()[:220].replace("\n", " "))
        return i, meta["property"], out, caught
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    fast = "--no-tests" in args
    args = [a for a in args if not a.startswith("--")]
    ids = make(args[0]) if cmd == "make" else args or sorted(os.path.basename(p) for p in glob.glob(f"{SEEDED}/*"))
    with cf.ThreadPoolExecutor(2) as ex:
        for i, p, out, caught in ex.map(lambda k: run(k, not fast), ids):
            print(f"{i} [{p}]")
            for o in out:
                print("   ", o)
