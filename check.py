#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--only substr] [-v]
   check.py replay FILE        re-runs a recorded failing input on the real code"""
import json
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get("_VC_HASH") != "0":
    os.environ["_VC_HASH"] = "0"
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

from vc import runner  # noqa


def main(a):
    if a[0] == "replay":
        from vc import harness
        d = json.load(open(a[1]))
        c = [x for x in harness.load_contracts(d["property"]) if x.cid == d["contract"]][0]
        r, _ = runner.replay(c, dict(choices=d["values"], values={}))
        print(json.dumps(r, indent=1))
        return 1 if r.get("status") == "fail" else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = "-v" in a
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--only" in a:
        only = a[a.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.check_property(a[0], tier, seed, only=only, verbose=verbose)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
