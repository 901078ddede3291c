"""Writes MANIFEST.json from the contracts present."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/contracts")
from vc import harness
cs = harness.load_contracts()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    mine = [c for c in cs if c.prop == i]
    if not mine:
        na.append(dict(property=i, reason="no contract written yet"))
        continue
    pr = [c for c in mine if c.kind == "proof"]
    bd = [c for c in mine if c.kind != "proof"]
    note = ""
    if pr:
        note += "Proved for all inputs: %s. " % ", ".join(c.cid for c in pr)
    if bd:
        note += "Bounded (number of container elements or operations fixed, all values symbolic): %s. " % "; ".join("%s [%s]" % (c.cid, c.bound) for c in bd)
    note += "Trusted: z3, the AST instrumentation and numpy/heapq/copy shims (cross-checked by running the repository's tests on the instrumented code and every contract on the untouched code); floats are treated as reals."
    checks.append(dict(property=i, quick_cmd="python3-vt check.py %s --tier quick" % i,
                       thorough_cmd="python3-vt check.py %s --tier thorough" % i,
                       technique="contracts on the real functions, verification conditions generated from the instrumented current source and discharged by z3; counter-models replayed on the untouched code",
                       level="proof" if pr else "other", level_note=note))
json.dump(dict(version=1, setup_cmd="python3-vt tools/selftest_constructs.py && python3-vt tools/selftest_instrumentation.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo. fix: commits are listed in known_findings.txt."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
