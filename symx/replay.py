"""Concrete replay on the plain, unmodified code in /repo.

usage: python -m symx.replay FILE.json            one counterexample
       python -m symx.replay --batch FILE.json    many; prints a JSON result line
exit 1: the violation shows on the real code; 0: it does not.
"""
from __future__ import annotations

import importlib
import json
import os
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def run_one(mod, rec, log=None):
    from symx.ctx import ConcreteAbort, ConcreteCtx, run_harness

    h = next(h for h in mod.HARNESSES if h.name == rec["harness"])
    x = ConcreteCtx(rec["inputs"], log)
    reset = getattr(mod, "reset", None)
    err = None
    try:
        if reset:
            reset()
        run_harness(h, x, rec["params"])
    except ConcreteAbort:
        err = None
        if not x.failed:
            return {"status": "assumption", "failed": [], "checked": x.checked}
    except Exception as e:
        err = f"unexpected exception {type(e).__name__}: {e}"
        if log:
            log(traceback.format_exc())
    failed = list(x.failed) + ([err] if err else [])
    return {
        "status": "failed" if failed else "ok",
        "failed": failed,
        "checked": x.checked,
        "known": x.known,
    }


def main(argv):
    batch = argv and argv[0] == "--batch"
    path = argv[1] if batch else argv[0]
    warnings.simplefilter("ignore")
    from symx import rewrite

    rewrite.install_plain()
    with open(path) as f:
        data = json.load(f)
    mod = importlib.import_module(f"checks.{data['property'].lower()}")
    if batch:
        out = [run_one(mod, r) for r in data["records"]]
        print("RESULT " + json.dumps(out))
        return 0
    r = run_one(mod, data, log=print)
    print(json.dumps(data["inputs"]), data["harness"], data["params"])
    if r["status"] == "failed":
        print(f"reproduced: property={data['property']}: {r['failed']}")
        return 1
    print(f"not reproduced ({r['status']})")
    return 0


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
