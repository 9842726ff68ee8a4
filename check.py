#!/usr/bin/env python
"""Entry point of every check:  check.py <PROPERTY> [--replay FILE] [--list]

Runs the monitors of one property against the code in /repo's working tree.
Exit 0: held on everything observed; exit 1 + VIOLATION line: violated;
exit 2: inconclusive (a monitor that must fire never did, or the harness itself failed).
"""
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


def _reexec():
    env = dict(os.environ)
    env.update(
        VERIF_CHILD="1",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONPATH=REPO + os.pathsep + HERE,
        PYTHONWARNINGS="ignore",
    )
    import shutil
    import subprocess

    with tempfile.TemporaryDirectory(prefix="verif-pyc-") as d:
        env["PYTHONPYCACHEPREFIX"] = d  # never read a stale .pyc of the tree under test
        py = PY if os.path.exists(PY) else (shutil.which("python3") or sys.executable)
        return subprocess.call([py, os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=HERE)


if __name__ == "__main__":
    if os.environ.get("VERIF_CHILD") != "1":
        sys.exit(_reexec())
    from lib import core

    sys.exit(core.main(sys.argv[1:], REPO))
