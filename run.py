#!/usr/bin/env python3
"""run.py PROP [--tier quick|thorough] [--replay FILE] [--cases N] [--shards K]

Runs the monitor of one property against the zigpy_cc package in VERIF_REPO
(default /repo).  Re-executes itself under the interpreter the package is
installed for.
"""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

if os.environ.get("VERIF_INNER") != "1":
    env = dict(os.environ, VERIF_INNER="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def main():
    from lib import vloop, port   # before the driver: replaces time.sleep
    port.install()
    import zigpy_cc
    where = os.path.dirname(os.path.abspath(zigpy_cc.__file__))
    if where != os.path.join(os.path.abspath(REPO), "zigpy_cc"):
        print("INCONCLUSIVE zigpy_cc imported from %s" % where)
        return 2
    if sys.argv[1] == "--selftest":
        from lib import mtspec, rig, znp, gen   # noqa: F401  everything imports
        print("ok: %d commands, %d callable" % (len(mtspec.CMDS), len(gen.CALLS)))
        return 0
    import importlib
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    from lib import core
    return core.main(mod, sys.argv[2:])


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
