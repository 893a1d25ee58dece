#!/usr/bin/env python3
"""Re-run a counterexample (or a sample model) on the plain code:  replay.py FILE
Exit 1: the property fails on these values.  Exit 0: it holds.  Exit 3: the values do not apply."""
import faulthandler
import gc
import importlib
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append(os.path.join(REPO, "scripts"))
sys.path.append(os.path.join(REPO, "example", "adder"))


def main():
    with open(sys.argv[1]) as f:
        items = json.load(f)
    if isinstance(items, dict):
        items = [items]
    from sx import common, loop
    from sx.base import ConcreteCtx, Infeasible, ViolationFound

    loop.install()
    gc.disable()
    import toffee

    assert os.path.realpath(toffee.__file__).startswith(os.path.realpath(REPO)), toffee.__file__
    worst = 0
    for it in items:
        importlib.import_module("checks." + it["module"])
        h = common.find(it["harness"], it["module"].upper())
        ctx = ConcreteCtx(it["values"])
        try:
            r = common.run_body(h, ctx, it["params"])
            if ctx.failures:
                r = ctx.failures[0]
            if ctx.infeasible:
                r, rc = ctx.infeasible, 3
            else:
                rc = 1 if r else 0
        except ViolationFound as e:
            r, rc = e.msg, 1
        except Infeasible as e:
            r, rc = str(e), 3
            if ctx.failures:
                r, rc = ctx.failures[0], 1
        print(json.dumps({"harness": it["harness"], "rc": rc, "msg": r, "reached": ctx.reached}))
        if rc == 1 or worst == 0:
            worst = rc if worst != 1 else 1
    return worst


if __name__ == "__main__":
    sys.exit(main())
