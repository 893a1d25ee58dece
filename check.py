#!/usr/bin/env python3
"""check.py C01 [quick|thorough]   (run with python3-vt)"""
import os
import sys
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONHASHSEED", "0")
if __name__ == "__main__":
    if sys.flags.hash_randomization and os.environ.get("SX_REEXEC") is None:
        os.environ["SX_REEXEC"] = "1"
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    warnings.simplefilter("ignore", RuntimeWarning)  # coroutines dropped by failing runs
    from sx.runner import main

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rc = main(prop, prop.lower(), tier)
    sys.stdout.flush()
    os._exit(rc)
