#!/usr/bin/env python3
"""
Runs the check of one property:   python3 check.py C01 [--replay FILE] [--part NAME] [--cases N]

exit 0: the property held on everything explored
exit 1: violated; prints   VIOLATION property=<id> replay=<path>
exit 2: the check itself could not give an answer

VERIF_SEED  determines every random choice        (default 1)
VERIF_TIER  quick | thorough                      (default quick)
VERIF_REPO  the tree to check                     (default /repo)
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"


def main():
    # fixed hash seed, no bytecode read from or written to the repository, the interpreter that has hypothesis
    if os.environ.get("VERIF_CHILD") != "1":
        env = dict(os.environ)
        env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache",
                   VERIF_CHILD="1", PYTHONUTF8="1")
        env.pop("PYTHONPATH", None)
        sys.stdout.flush()
        os.execve(VT, [VT, "-W", "ignore"] + [os.path.join(HERE, "check.py")] + sys.argv[1:], env)

    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    from vlib.runner import cli
    sys.exit(cli(sys.argv[1:]))


if __name__ == "__main__":
    main()
