#!/usr/bin/env python3-vt
"""run.py <ID> quick|thorough        run the check of one property
   run.py <ID> replay <file>          run one saved case against the current tree"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
for _v in ("OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from vlib import core
    pid, mode = sys.argv[1], sys.argv[2]
    check = importlib.import_module("checks." + pid.lower()).CHECK
    if mode == "replay":
        return core.main(check, "quick", replay=sys.argv[3])
    return core.main(check, mode)


if __name__ == "__main__":
    sys.exit(main())
