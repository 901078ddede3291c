"""Import hook: modules of the repository are instrumented from /repo's current source."""
import builtins
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "ama_xiv_combat_sim"
PLAIN = ("ama_xiv_combat_sim.simulator.game_data.class_skills", "ama_xiv_combat_sim.example_rotations")


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            spec = importlib.util.spec_from_loader(name, self, is_package=True)
            spec.submodule_search_locations = [p]
            spec.origin = f if os.path.exists(f) else None
            return spec
        f = p + ".py"
        if os.path.exists(f):
            spec = importlib.util.spec_from_loader(name, self)
            spec.origin = f
            return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        f = mod.__spec__.origin
        if f is None or not os.path.exists(f):
            return
        mod.__file__ = f
        with open(f, encoding="utf-8") as fh:
            src = fh.read()
        from . import rt, transform
        if mod.__name__.startswith(PLAIN):
            code = compile(src, f, "exec")
        else:
            code = transform.instrument(src, mod.__name__, f)
            mod.__dict__["_vc_rt_"] = rt
            for k, v in rt.SHADOW.items():
                mod.__dict__[k] = v
        exec(code, mod.__dict__)


def install():
    if not any(isinstance(x, Finder) for x in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    vs = "/opt/venv/lib/python3.12/site-packages"
    if os.path.isdir(vs) and vs not in sys.path:
        sys.path.append(vs)
