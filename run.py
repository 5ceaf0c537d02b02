#!/usr/bin/env python3
"""Entry point of the model-checking framework.

    run.py <PROPERTY-ID> [--tier quick|thorough]   decide one property
    run.py --replay FILE                            re-run one recorded counterexample
    run.py --selfcheck                              import every check, print its bounds
"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get("PYTHONHASHSEED") != "0":
    # Own the nondeterminism of string hashing: the same exploration must give
    # the same observations in every process.
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)

sys.path.insert(0, HERE)

from mc import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
