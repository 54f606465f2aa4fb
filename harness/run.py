#!/usr/bin/env python3
"""Entry point of every check: run.py <PROPERTY> [--replay FILE] [--family F] [--index I]

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough, default quick).
Exit 0 held on everything observed, 1 violation (with a VIOLATION line),
anything else: the check could not decide (error / inconclusive).
"""
import os
import sys

PY = "/opt/venv/bin/python"
PINNED = dict(
    PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
    OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
    OPENBLAS_CORETYPE="Haswell", MPLBACKEND="agg",
    QT_QPA_PLATFORM="offscreen", PIP_NO_INDEX="1", LANG="C.UTF-8",
    PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
)
if any(os.environ.get(k) != v for k, v in PINNED.items()) or \
        os.path.realpath(sys.executable) != os.path.realpath(PY) or \
        "DISPLAY" in os.environ or "PYTHONPATH" in os.environ:
    env = dict(os.environ, **PINNED)
    env.pop("DISPLAY", None)
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from core import main  # noqa: E402

sys.exit(main(sys.argv[1:], REPO))
