"""Planting bugs.  plant.py make SPECS.py   build /verif/seeded/* from a list of specs, keeping those that qualify
                  plant.py catch [ID...]    run each planted bug's property check against a scratch copy with it applied
Not used by any check."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = V + "/seeded"
BASE = json.load(open("/opt/vp/BASELINE.json"))
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# run in the repository root; exit 0: the property holds
d=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec /opt/venv/bin/python "$d/demo.py"
"""
HELP = open(V + "/tools/plant_help.py").read()


def copy_repo():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    return d


def base_tests():
    for k in ("tests", "stable", "passed", "stable_tests"):
        if k in BASE:
            return set(BASE[k])
    return set(BASE) if isinstance(BASE, list) else set()


def run_tests(d):
    env = dict(os.environ, PYTHONPATH=d + ":/opt/vp/plugin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    p = subprocess.run(["/opt/venv/bin/pytest", "-q", "-c", "/dev/null", "--rootdir=" + d, "-p", "no:cacheprovider",
                        "-p", "vp_testclass", "-p", "pytest_timeout", "--import-mode=importlib", "--timeout=60",
                        "--continue-on-collection-errors", d + "/ama_xiv_combat_sim"], cwd=d + "/ama_xiv_combat_sim",
                       env=env, capture_output=True, text=True)
    m = re.search(r"(\d+) passed", p.stdout)
    f = re.findall(r"^FAILED (\S+)", p.stdout, re.M)
    return int(m.group(1)) if m else 0, f


def demo(folder, d):
    return subprocess.run(["bash", folder + "/demo.sh"], cwd=d, capture_output=True, text=True, timeout=300)


def make_one(s):
    d = copy_repo()
    try:
        for f, old, new in s["edits"]:
            p = d + "/ama_xiv_combat_sim/" + f
            t = open(p).read()
            n = t.count(old)
            if n != s.get("count", 1):
                return s["id"], "pattern found %d times in %s" % (n, f)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
        out = SEEDED + "/" + s["id"]
        tmp = tempfile.mkdtemp(dir="/tmp")
        open(tmp + "/patch.diff", "w").write(diff)
        open(tmp + "/demo.sh", "w").write(DEMO)
        open(tmp + "/demo.py", "w").write(HELP + "\n" + s["demo"].strip() + "\nprint('ok')\n")
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
        a = demo(tmp, "/repo")
        b = demo(tmp, d)
        if a.returncode != 0:
            return s["id"], "demo fails on clean tree: " + (a.stderr or a.stdout)[-600:]
        if b.returncode == 0:
            return s["id"], "demo passes with the patch"
        n, f = run_tests(d)
        if n < 442:
            return s["id"], "tests: %d passed, failing %s" % (n, [x.split("::")[-1] for x in f][:6])
        if "AssertionError" not in b.stderr and not s.get("err"):
            return s["id"], "demo dies differently: " + b.stderr[-400:]
        shutil.rmtree(out, ignore_errors=True)
        shutil.move(tmp, out)
        return s["id"], "kept"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def catch_one(i, prop=None):
    m = json.load(open(SEEDED + "/%s/meta.json" % i))
    d = copy_repo()
    out = tempfile.mkdtemp(dir="/tmp")
    try:
        subprocess.run(["git", "apply", SEEDED + "/%s/patch.diff" % i], cwd=d, check=True)
        p = subprocess.run(["python3-vt", V + "/check.py", prop or m["property"]], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=out),
                           capture_output=True, text=True)
        o = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION") or "failed obligation" in l or "undecided" in l]
        return i, m["property"], p.returncode, o, p.stderr[-300:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        sp = [s for s in ns["SPECS"] if len(sys.argv) < 4 or s["id"] in sys.argv[3:]]
        with ThreadPoolExecutor(4) as ex:
            for i, r in ex.map(make_one, sp):
                print(i, r, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(2) as ex:
            for i, p, rc, o, err in ex.map(catch_one, ids):
                print(i, p, "CAUGHT" if rc == 1 and any(x.startswith("VIOLATION") for x in o) else "MISSED rc=%d" % rc, (o[0][:230] if o else err), "| NFI" if any("no-failing" in x for x in o) else "", flush=True)
