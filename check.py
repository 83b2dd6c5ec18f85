#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE] : one simulated property."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

if __name__ == "__main__":
    prop = sys.argv[1]
    from sim import env
    env.reexec(jit=prop in ("C11",))
    env.load()
    mod = importlib.import_module("sim." + prop.lower())
    from sim import core
    rc = core.main(getattr(mod, prop)(), sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
