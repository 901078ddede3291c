"""Decides one property: discharges its contracts' obligations, replays
counter-models on the real code, writes evidence."""
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OUT = os.environ.get("VERIF_OUT", VERIF)
sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
REALPY = "/opt/venv/bin/python"

TIERS = {
    "quick": dict(sym_s=150, conc_s=10, conc_n=5000, timeout_ms=8000),
    "thorough": dict(sym_s=700, conc_s=60, conc_n=100000, timeout_ms=30000),
}


def sym_run(c, tier, seed, forced=None):
    from vc import engine, harness, loops
    cfg = TIERS[tier]
    t0 = time.time()
    best = None
    for attempt in range(loops.MAX_RESTARTS):
        e = engine.Engine(c.cid, timeout_ms=c.opts.get("timeout_ms", cfg["timeout_ms"]),
                          deadline=t0 + c.opts.get("sym_s", cfg["sym_s"]) * (1 if tier == "quick" else 3),
                          max_iter=c.opts.get("max_iter", 64), seed=seed,
                          max_paths=c.opts.get("max_paths", 200000))
        e.fp_mode = bool(c.opts.get("fp"))
        e.forced = dict(forced or {})
        if best is not None:
            e.loops = best.loops
            loops.prune(e.loops)
        ctx = harness.make_sym_ctx(e)
        ctx.internal = bool(c.opts.get("no_conc"))
        err = None
        try:
            e.explore(lambda: c.fn(ctx))
        except engine.Unsupported as x:
            err = "%s: %s" % (type(x).__name__, x)
        except Exception as x:  # harness error (e.g. private function renamed)
            err = "error: %r\n%s" % (x, traceback.format_exc()[-1500:])
        best = e
        if e.restart_needed:
            err = err or "loop invariants did not stabilise"
            continue
        break
    obs = e.obligations
    if e.restart_needed:  # judged under invariants that do not hold: nothing is concluded
        obs = [o for o in obs if o.status == "proved"]
    res = dict(cid=c.cid, kind=c.kind, bound=c.bound, functions=c.functions, paths=e.npaths,
               obligations=len(obs), proved=sum(o.status == "proved" for o in obs),
               labels={}, refuted=[], unknown=[], err=err, truncated=e.truncated,
               covers=e.covers, solver_s=round(e.solver_s, 3), queries=e.nqueries,
               secs=round(time.time() - t0, 2), notes=sorted(e.bounded_notes),
               assumptions=sorted(getattr(e, "assumed", ())))
    for o in obs:
        d = res["labels"].setdefault(o.label, [0, 0])
        d[0] += 1
        d[1] += o.status == "proved"
        if o.status == "refuted" and len(res["refuted"]) < 40:
            res["refuted"].append(dict(label=o.label, model=o.model, detail=o.detail))
        elif o.status == "unknown" and len(res["unknown"]) < 10:
            res["unknown"].append(dict(label=o.label, detail=o.detail))
    return res


def conc_run(c, tier, seed, extra=1):
    cfg = TIERS[tier]
    cmd = [REALPY, os.path.join(HERE, "conc.py"), c.prop, c.cid, "random", str(seed),
           str(c.opts.get("conc_s", cfg["conc_s"]) * extra), str(c.opts.get("conc_n", cfg["conc_n"]) * extra)]
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=cfg["conc_s"] * extra * 6 + 120)
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        return dict(cid=c.cid, error=(p.stderr or p.stdout)[-1500:])


def replay(c, model):
    import tempfile
    vals = dict(model.get("choices", {}))
    vals.update(model.get("values", {}))
    fd, f = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as fh:
        json.dump(vals, fh)
    try:
        p = subprocess.run([REALPY, os.path.join(HERE, "conc.py"), c.prop, c.cid, "replay", f],
                           capture_output=True, text=True, timeout=120)
        return json.loads(p.stdout.strip().splitlines()[-1]), vals
    except Exception as x:
        return dict(status="error", detail=repr(x)), vals
    finally:
        os.unlink(f)


def _task(a):
    kind, cid, prop, tier, seed, forced = a
    from vc import harness
    c = [x for x in harness.REGISTRY if x.cid == cid][0]
    try:
        return kind, cid, (sym_run(c, tier, seed, forced) if kind == "sym" else conc_run(c, tier, seed))
    except BaseException as x:
        return kind, cid, dict(cid=cid, err="worker: %r\n%s" % (x, traceback.format_exc()[-1500:]), crashed=True)


def known_findings(prop):
    f = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l[len("known: property=%s " % prop):])
    return out


def check_property(prop, tier="quick", seed=1, jobs=None, only=None, verbose=False):
    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 4)
    from vc import harness, loader
    loader.install()
    cs = harness.load_contracts(prop)
    if only:
        cs = [c for c in cs if only in c.cid]
    if not cs:
        print("no contracts for", prop)
        return 2
    # load the instrumented repository once; workers are forked
    try:
        import importlib
        for m in ("simulator.timeline_builders.rotation_builder", "simulator.timeline_builders.damage_builder",
                  "simulator.damage_simulator"):
            importlib.import_module(harness.PKG + "." + m)
    except Exception as x:
        print("import of the instrumented code failed:", repr(x))
    tasks = []
    for c in cs:
        if c.opts.get("no_sym"):
            continue
        combos = [{}]
        for nm, cnt in (c.opts.get("split") or {}).items():
            combos = [dict(d, **{nm: i}) for d in combos for i in range(cnt)]
        tasks += [("sym", c.cid, prop, tier, seed, d) for d in combos]
    tasks += [("conc", c.cid, prop, tier, seed, None) for c in cs if not c.opts.get("no_conc")]
    tasks.sort(key=lambda t: 1 if t[0] == "sym" else 0)
    sym, conc, cut = {}, {}, False
    ctxm = mp.get_context("fork")
    with ctxm.Pool(min(jobs, len(tasks)), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_task, tasks, chunksize=1)
        stop_at = None
        for _ in tasks:
            try:
                kind, cid, r = it.next(None if stop_at is None else max(0.1, stop_at - time.time()))
            except mp.TimeoutError:
                cut = True   # a violation is in hand: the remaining obligations are not waited for
                pool.terminate()
                break
            if kind == "sym" and cid in sym:
                merge(sym[cid], r)
            else:
                (sym if kind == "sym" else conc)[cid] = r
            if stop_at is None and kind == "conc" and r.get("fails"):
                stop_at = time.time() + 45
    if verbose:
        for kind, res in (("sym", sym), ("conc", conc)):
            for cid, r in sorted(res.items()):
                show = {k: v for k, v in r.items() if k not in ("labels", "sample", "functions", "bound", "cid", "kind", "mode", "notes", "assumptions") and v not in (None, [], {})}
                if "refuted" in show:
                    show["refuted"] = [(o["label"], o["model"], " ".join(str(o["detail"]).split())[:200]) for o in show["refuted"]][:1]
                if "unknown" in show:
                    show["unknown"] = [o["label"] for o in show["unknown"]][:2]
                print("  %-4s %-22s %s" % (kind, cid, json.dumps(show, default=str)[:900]))
    byid = {c.cid: c for c in cs}
    violations = []
    undecided = ["stopped early: a failing input was found"] if cut else []
    # 1. failures of the contract on the real code
    for cid, r in sorted(conc.items()):
        for f in r.get("fails", [])[:1]:
            violations.append(dict(cid=cid, label=f["label"], detail=f["detail"], values=f["log"], source="cross-check on the real code", replayed=True))
        if r.get("error"):
            undecided.append("%s: concrete run: %s" % (cid, r["error"][-300:]))
    # 2. refuted obligations
    for cid, r in sorted(sym.items()):
        c = byid[cid]
        if r.get("crashed") or r.get("err"):
            undecided.append("%s: %s" % (cid, (r.get("err") or "")[:600]))
        seen = {}
        for o in r.get("refuted", []):
            if seen.get(o["label"], 0) >= 4 or seen.get(o["label"] + "!"):
                continue
            seen[o["label"]] = seen.get(o["label"], 0) + 1
            rp, vals = ({"status": "internal", "detail": "a contract on abstract data: nothing to replay"}, o["model"]) if c.opts.get("no_conc") else replay(c, o["model"])
            v = dict(cid=cid, label=o["label"], detail=o["detail"], values=vals, source="refuted obligation",
                     replayed=rp.get("status") == "fail", replay_result=rp)
            if v["replayed"]:
                seen[o["label"] + "!"] = 1
                v["detail"] = "%s (replayed: %s %s)" % (o["label"], rp.get("label"), rp.get("detail"))
                violations.append(v)
            elif c.opts.get("report_unreplayed", True):
                v["pending"] = True
                violations.append(v)
            else:
                undecided.append("%s: %s refuted without replay" % (cid, o["label"]))
    # 3. refuted, not replayed: escalate the search for a failing input once
    pend = [v for v in violations if v.get("pending")]
    solid = [v for v in violations if not v.get("pending")]
    if pend and not solid:
        again = {v["cid"] for v in pend}
        if any(byid[cid].opts.get("no_conc") for cid in again):
            again = again | {c.cid for c in cs}   # abstract data cannot be run: search with the others
        for cid in sorted(again):
            if byid[cid].opts.get("no_conc") or solid:
                continue
            r = conc_run(byid[cid], tier, seed + 77, extra=4)
            for f in r.get("fails", [])[:1]:
                solid.append(dict(cid=cid, label=f["label"], detail=f["detail"], values=f["log"],
                                  source="search after refuted obligation", replayed=True))
    # 4. obligations the solver left open: search longer for a failing input
    if not solid and not pend:
        for cid in sorted(c for c, r in sym.items() if r.get("unknown")):
            undecided.append("%s: %d obligations left open by the solver" % (cid, len(sym[cid]["unknown"])))
            if byid[cid].opts.get("no_conc"):
                continue
            r = conc_run(byid[cid], tier, seed + 78, extra=3)
            for f in r.get("fails", [])[:1]:
                solid.append(dict(cid=cid, label=f["label"], detail=f["detail"], values=f["log"],
                                  source="search after open obligation", replayed=True))
    final = solid if solid else pend
    # vacuity
    nob = sum(r.get("obligations", 0) for r in sym.values())
    nconc = sum(r.get("checks", 0) for r in conc.values())
    broken = (nob + nconc == 0)
    kf = known_findings(prop)
    wall = time.time() - t0
    write_evidence(prop, tier, seed, cs, sym, conc, final, undecided, wall)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    proved = [cid for cid, r in sym.items() if byid[cid].kind == "proof" and full(r)]
    print("%s: %d contracts (%d fully proved), %d obligations, %d discharged, %d cross-check runs, %d undecided, %.1fs"
          % (prop, len(cs), len(proved), nob, sum(r.get("proved", 0) for r in sym.values()),
             sum(r.get("n", 0) for r in conc.values()), len(undecided), wall))
    for u in undecided:
        print("  undecided:", u.splitlines()[0][:300])
    if broken:
        print("no obligation was generated: the check is broken")
        return 2
    if final:
        v = final[0]
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        f = os.path.join(OUT, "replays", "%s.json" % prop)
        with open(f, "w") as fh:
            json.dump(dict(property=prop, contract=v["cid"], obligation=v["label"], detail=v["detail"],
                           values=v["values"], source=v["source"], replayed=v["replayed"],
                           how="python3-vt /verif/check.py replay %s" % f,
                           all=[dict(cid=x["cid"], label=x["label"], detail=x["detail"]) for x in final[:20]]),
                      fh, indent=1, default=str)
        for x in final[:5]:
            print("  failed obligation %s / %s: %s" % (x["cid"], x["label"], " ".join(str(x["detail"]).split())[:400]))
        print("VIOLATION property=%s replay=%s%s" % (prop, f, "" if v["replayed"] else " no-failing-input-found"))
        return 1
    return 0


def merge(a, b):
    for k in ("paths", "obligations", "proved", "solver_s", "queries", "secs"):
        a[k] = a.get(k, 0) + b.get(k, 0)
    for k in ("refuted", "unknown"):
        a[k] = a.get(k, []) + b.get(k, [])
    for k in ("err", "truncated", "crashed"):
        a[k] = a.get(k) or b.get(k)
    for k in ("notes", "assumptions"):
        a[k] = sorted(set(a.get(k, [])) | set(b.get(k, [])))
    for l, (x, y) in b.get("labels", {}).items():
        d = a.setdefault("labels", {}).setdefault(l, [0, 0])
        d[0] += x
        d[1] += y
    for l, x in b.get("covers", {}).items():
        a.setdefault("covers", {})[l] = a.get("covers", {}).get(l, 0) + x


def full(r):
    return (not r.get("err") and not r.get("truncated") and not r.get("crashed") and r.get("obligations", 0) > 0
            and r["proved"] == r["obligations"] and r.get("covers", {}).get("path-end", 0) + sum(
                v for k, v in r.get("covers", {}).items() if k != "path-end") > 0)


TRUSTED = [
    "z3 (back end for every obligation)",
    "CPython executing the instrumented source; the instrumentation (vc/transform.py) and shims (vc/rt.py), cross-checked by running the same contracts on the untouched code",
    "floating point treated as real arithmetic unless a contract says fp; decimal literals denote the decimal number",
]


def write_evidence(prop, tier, seed, cs, sym, conc, viol, undecided, wall):
    byid = {c.cid: c for c in cs}
    man = {}
    try:
        for ch in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            man[ch["property"]] = ch["level"]
    except Exception:
        pass
    level = man.get(prop, "other")
    cov = dict(
        obligations=sum(r.get("obligations", 0) for r in sym.values()),
        discharged=sum(r.get("proved", 0) for r in sym.values()),
        checker_cmd="python3-vt check.py %s --tier %s" % (prop, tier),
        trusted_base=TRUSTED,
        evaluations=sum(r.get("n", 0) for r in conc.values()),
        distinct_nontrivial=sum(r.get("distinct", 0) for r in conc.values()),
        rule="random inputs of the same contracts run on the untouched code; non-trivial: precondition met and all postconditions evaluated, distinct by input values",
        samples=[dict(contract=cid, inputs=r.get("sample")) for cid, r in sorted(conc.items()) if r.get("sample") is not None][:3],
        solver_s=round(sum(r.get("solver_s", 0) for r in sym.values()), 2),
        paths=sum(r.get("paths", 0) for r in sym.values()),
        back_end="z3 python bindings",
        contracts=[dict(id=cid, kind=("proof" if byid[cid].kind == "proof" and full(r) else "bounded"),
                        declared=byid[cid].kind, bound=byid[cid].bound, functions=byid[cid].functions,
                        obligations=r.get("obligations", 0), discharged=r.get("proved", 0), paths=r.get("paths", 0),
                        solver_s=r.get("solver_s", 0), covers=r.get("covers", {}), truncated=r.get("truncated"),
                        error=(r.get("err") or "")[:300] or None, unknown=r.get("unknown", []),
                        assumed=r.get("assumptions", []))
                   for cid, r in sorted(sym.items())],
        undecided=undecided,
        explanation="Contracts on the real functions; each obligation is discharged by z3 for all values of the symbolic inputs on its path. Contracts of kind 'proof' cover all inputs of their precondition; contracts of kind 'bounded' fix the number of container elements/operations as stated and are not counted as proved.",
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2),
              violations=len(viol), assumptions=TRUSTED)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
