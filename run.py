#!/usr/bin/env python3
"""run.py PROPERTY [--replay FILE] [--runs N] [--jobs J] [--keep] [--digests FILE]

Decides one property by seeded simulation of the code in /repo's working tree.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Anything else: error of the check.
"""

import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

if __name__ == "__main__":
    want = {"PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8",
            "PYTHONUNBUFFERED": "1"}
    if any(os.environ.get(k) != v for k, v in want.items()) or os.environ.get("SIM_CHILD") != "1":
        env = dict(os.environ, **want, SIM_CHILD="1")
        env.pop("PYTHONPATH", None)
        env.pop("PYTHONSTARTUP", None)
        try:  # no address randomisation: object addresses must not differ between two runs of one seed
            import ctypes

            ctypes.CDLL(None).personality(0x0040000)
        except Exception:
            pass
        os.execve(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]], env)
    sys.path.insert(0, VERIF)
    from simlib.runner import main

    sys.exit(main(VERIF, sys.argv[1:]))
