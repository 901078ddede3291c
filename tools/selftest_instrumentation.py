"""Runs the repository's own tests on the instrumented modules (concrete values):
the instrumentation must not change what the code does."""
import sys, os, glob, random, importlib, io, contextlib, inspect
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from vc import loader
loader.install()
import numpy as np
os.chdir(os.path.join(loader.REPO, "ama_xiv_combat_sim"))
sys.dont_write_bytecode = True
TC = importlib.import_module("ama_xiv_combat_sim.simulator.testing.test_class").TestClass
ok, bad = 0, []
for f in sorted(glob.glob(loader.REPO + "/ama_xiv_combat_sim/**/test_*.py", recursive=True)):
    name = os.path.relpath(f, loader.REPO)[:-3].replace("/", ".")
    m = importlib.import_module(name)
    for n, c in list(vars(m).items()):
        if inspect.isclass(c) and issubclass(c, TC) and c is not TC and c.__module__ == name:
            inst = c()
            for fn in inst._get_test_methods():
                random.seed(0); np.random.seed(0)
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        r = fn()
                    if r[0]: ok += 1
                    else: bad.append((name, fn.__name__, r[1][:200]))
                except Exception as e:
                    bad.append((name, fn.__name__, repr(e)[:200]))
print("instrumented:", ok, "passed", len(bad), "failed")
for b in bad: print("  ", b)
