"""Runs contracts on the untouched real code (plain CPython, /opt/venv).

  conc.py PROP CID random SEED SECS MAXN      random cross-check
  conc.py PROP CID replay FILE                replay of a model (json values)
Prints one JSON object.
"""
import io
import json
import os
import sys
import time
import contextlib

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


def main(argv):
    from vc import harness
    prop, cid, mode = argv[:3]
    c = [x for x in harness.load_contracts(prop) if x.cid == cid][0]
    out = {"cid": cid, "mode": mode}
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        if mode == "replay":
            with open(argv[3]) as fh:
                vals = json.load(fh)
            st, lab, det, log, n = harness.run_concrete(c, vals)
            out.update(status=st, label=lab, detail=det, log=log)
        else:
            seed, secs, maxn = int(argv[3]), float(argv[4]), int(argv[5])
            t0 = time.time()
            n = ok = disc = nch = 0
            fails = []
            sample = None
            distinct = set()
            while n < maxn and time.time() - t0 < secs:
                st, lab, det, log, k = harness.run_concrete(c, None, seed * 1000003 + n)
                n += 1
                nch += k
                if st == "ok":
                    ok += 1
                    distinct.add(hash(json.dumps(log, sort_keys=True, default=str)))
                    if sample is None:
                        sample = log
                elif st == "fail":
                    fails.append(dict(label=lab, detail=det, log=log))
                    if len(fails) >= 5:
                        break
                else:
                    disc += 1
                sink.seek(0)
                sink.truncate()
            out.update(n=n, ok=ok, discarded=disc, checks=nch, fails=fails, sample=sample, distinct=len(distinct))
    print(json.dumps(out, default=str))


if __name__ == "__main__":
    main(sys.argv[1:])
