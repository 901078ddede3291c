"""prints the contracts per property: name, kind, functions, bound (used for DESIGN.md)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vc import harness, loader
loader.install()
for i in range(1, 25):
    p = "C%02d" % i
    for c in harness.load_contracts(p):
        if c.prop == p:
            print("| %s | %s%s | %s |" % (c.cid, c.kind, "" if not c.opts.get("no_sym") else " (real code only)", c.bound or "all inputs of the precondition, any number of elements/iterations"))
