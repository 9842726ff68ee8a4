"""Author-time helper: turn one planted-bug spec (a Python file) into seeded/<id>/ after confirming it.

    python tools/seed.py SPEC.py [...]

A spec defines BUGS: a list of dicts id, property, edits [(file, old, new)], demo (Python text),
needs, breaks. The bug is applied in a scratch copy of /repo; it is kept only when the stable tests pass
with it, the demo passes without it and fails with it, and it touches no line of a "fix:" commit.
Then the property's quick check is run against the scratch copy (VERIF_REPO) and the outcome printed.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = """#!/bin/bash
# cwd: the repository. Exit 0 when the property's example holds.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, cwd, **kw):
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", PYTHONPATH=cwd, **kw)
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)


def tests_fail(r, work):
    x = os.path.join(work, "j.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "6", "--timeout=300",
        "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={x}"], r)
    res = os.path.join(work, "r.json")
    subprocess.run(["python3", "/opt/vp/results.py", res, f"junit:{x}"], capture_output=True)
    return sorted(STABLE - set(json.load(open(res))["passed"]))


def one(bug, work, quick):
    r = os.path.join(work, "r")
    shutil.rmtree(r, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    out = os.path.join(work, "out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
    open(os.path.join(out, "demo.py"), "w").write(bug["demo"].lstrip())
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    d = sh(["bash", os.path.join(out, "demo.sh")], r)
    if d.returncode:
        return f"demo fails on the unchanged tree: {d.stderr[-400:]}{d.stdout[-300:]}"
    for f, old, new in bug["edits"]:
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) != 1:
            return f"{f}: old text found {s.count(old)} times"
        base = subprocess.run(["git", "show", f"a6f6125:{f}"], cwd=r, capture_output=True, text=True).stdout
        for line in old.splitlines():
            if line.strip() and line not in base and line not in new:
                return f"changes a line of a fix commit: {line}"
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    d = sh(["bash", os.path.join(out, "demo.sh")], r)
    if not d.returncode:
        return "demo passes with the bug"
    bad = tests_fail(r, work)
    if bad:
        return f"existing tests notice: {bad[:3]}"
    json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]),
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    dst = os.path.join(HERE, "seeded", bug["id"])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    res = []
    for pid in [bug["property"]] + quick:
        c = subprocess.run([PY, os.path.join(HERE, "check.py"), pid], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick",
                                    VERIF_EVIDENCE=work))
        hit = c.returncode == 1 and f"VIOLATION property={pid}" in c.stdout
        res.append(f"{pid}:{'CAUGHT' if hit else 'missed rc=%d' % c.returncode}")
    return "KEPT " + " ".join(res)


def main():
    work = f"/tmp/seedwork.{os.getpid()}"
    os.makedirs(work)
    try:
        for spec in sys.argv[1:]:
            for bug in runpy.run_path(spec)["BUGS"]:
                print(bug["id"], "->", one(bug, work, bug.get("also", [])), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
