#!/usr/bin/env python3
"""Entry point of every check. Usage: check.py P01 [--tier quick|thorough] | check.py --replay FILE

Starts itself again under the interpreter ratarmount is installed in, with the system-call seam preloaded."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")

if os.environ.get("DST_STARTED") != "1":
    from dst import shim
    so = shim.build()
    if "--setup" in sys.argv:
        print("built", so)
        sys.exit(0)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("RATARMOUNT", "XDG_", "PYTHON", "LD_"))}
    env.update(DST_STARTED="1", LD_PRELOAD=so, PYTHONHASHSEED=os.environ.get("DST_HASHSEED", "0"), TZ="UTC",
               LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONNOUSERSITE="1", OMP_NUM_THREADS="1")
    os.execve(PY, [PY, os.path.join(HERE, "check.py"), *sys.argv[1:]], env)

from dst import clock, sched  # noqa: E402

clock.install()
sched.install()
from dst import repo  # noqa: E402,F401  (imports the code under test, behind the seams)
from dst import runner  # noqa: E402

sys.exit(runner.main(sys.argv[1:]))
