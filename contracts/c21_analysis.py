"""C21: damage-over-time analysis accounts for every snapshotted hit once."""
from common import *

F = ["rotation_analysis_utils.py:RotationAnalysisUtils.get_all_damage_snapshots_before_timestamp",
     "rotation_analysis_utils.py:RotationAnalysisUtils.get_dps_at_intervals"]


class Row:
    def __init__(self, t, d):
        self.snapshot_time, self.expected_damage = t, d


@contract("C21", "threshold", F, kind="bounded", split={"n": 4}, bound="at most 3 hits (8 on the real code); any times, damages and timestamp to the millisecond")
def threshold(ctx):
    m = M(ctx)
    rows = [Row(ctx.int("t%d" % i), ctx.real("d%d" % i, 0, 100000)) for i in range(ctx.size("n", 0, 3, 8))]
    ms = ctx.int("ms")
    got = ctx.run(m.RotationAnalysisUtils.get_all_damage_snapshots_before_timestamp, rows, ms / 1000)
    want = 0
    for r in rows:
        want = want + If(r.snapshot_time <= ms, ex(r.expected_damage), 0)
    ctx.eq("sum over the hits snapshotted by then", got, want)
    ms2 = ctx.int("ms2", lo=ms)
    got2 = ctx.run(m.RotationAnalysisUtils.get_all_damage_snapshots_before_timestamp, rows, ms2 / 1000)
    ctx.check("never decreasing", got2 >= got)
    ctx.cover("end")


@contract("C21", "intervals", F, kind="bounded", split={"step": 3, "n": 2}, max_iter=20, bound="at most 2 hits between -3 and 7 s, intervals of 1, 2 and 3 s; up to 8 hits within 100 s on the real code")
def intervals(ctx):
    m = M(ctx)
    n = ctx.size("n", 1, 2, 8)
    rows = [Row(ctx.int("t%d" % i, -3000, 7000 if ctx.symbolic else 100000), ctx.real("d%d" % i, 0, 100000, grid=100)) for i in range(n)]
    step = ctx.choice("step", (1, 2, 3))
    o = ctx.run(m.RotationAnalysisUtils.get_dps_at_intervals, rows, step)
    last = Max(*[r.snapshot_time for r in rows]) if n > 1 else rows[0].snapshot_time
    ts, tot = o["snapshot_time"], o["total_snapshotted_damage"]
    marks = []
    k = step
    while bool(k * 1000 < last):
        marks.append(k)
        k += step
    ctx.check("listed timestamps", len(ts) == len(marks) + 1 and len(tot) == len(ts))
    if len(ts) != len(marks) + 1:
        return
    for i, w in enumerate(marks + [None]):
        ctx.eq("timestamp", ts[i] * 1000, last if w is None else w * 1000)
        lim = last if w is None else w * 1000
        s = 0
        for r in rows:
            s = s + If(r.snapshot_time <= lim, ex(r.expected_damage), 0)
        ctx.check("total at the timestamp (to the cent)", And((tot[i] - s) * 1000 <= 6, (s - tot[i]) * 1000 <= 6))
        if i:
            ctx.check("totals never decrease", tot[i] >= tot[i - 1])
    ctx.cover("end")


@contract("C21", "threshold_any", F, kind="proof", report_unreplayed=False)
def threshold_any(ctx):
    """any number of hits"""
    m = M(ctx)
    ms = ctx.int("ms")
    rows = ctx.seq("rows", lambda at: Row(at.int("t"), at.real("d", 0, 100000)))
    want = ctx.fold(rows, 0, lambda acc, r: acc + If(r.snapshot_time <= ms, ex(r.expected_damage), 0))
    got = ctx.run(m.RotationAnalysisUtils.get_all_damage_snapshots_before_timestamp, rows, ms / 1000)
    ctx.eq("sum over the hits snapshotted by then", got, want.total)
    ctx.cover("end")


@contract("C21", "intervals_any", F, kind="proof", no_conc=True, split={"step": 4})
def intervals_any(ctx):
    """any number of hits at any times, so any number of listed timestamps; the total at a timestamp is what
    get_all_damage_snapshots_before_timestamp (under contract in threshold_any) says"""
    m = M(ctx)
    step = ctx.choice("step", (1, 2, 3, 60))
    rows = ctx.seq("rows", lambda at: Row(at.int("t"), at.real("d", 0, 100000)), nonempty=True)
    last = ctx.fold(rows, None, lambda acc, r: r.snapshot_time if acc is None else Max(acc, r.snapshot_time)).total
    if last is None:
        ctx.stop()
    U = m.RotationAnalysisUtils
    asked, seen = [], []

    def ask(r, t):
        if r is not rows:
            ctx.unsupported("totals of other hits")
        v = ctx.real(ctx.e.fresh("total"), 0)
        asked.append((t, v))
        return v

    def entry(label, logs, t):
        """logs: one timestamp and one total"""
        ctx.check(label + ": one entry", len(logs) == 2 and all(len(x) == 1 for x in logs.values()))
        if len(logs) != 2:
            return
        ts, tot = logs["snapshot_time"][0], logs["total_snapshotted_damage"][0]
        ctx.eq(label + ": timestamp", ts * 1000, t)
        if len(asked) != 1:
            ctx.unsupported("totals computed otherwise")
        ctx.eq(label + ": total asked for at the timestamp", asked[0][0] * 1000, t)
        ctx.check(label + ": total (to the cent)", And((tot - asked[0][1]) * 1000 <= 6, (asked[0][1] - tot) * 1000 <= 6))

    def on(j, logs):
        names = {p[-1]: x for p, x in logs.items()}
        if set(names) != {"snapshot_time", "total_snapshotted_damage"}:
            ctx.unsupported("listed otherwise")
        entry("mark", names, (j + 1) * step * 1000)
        seen.append(1)
        rng = [s for s in ctx.e.seqs if s.name.startswith("marks")]
        i = ctx.int("some mark", 0)
        ctx.check("the marks are the multiples of the interval before the last hit", len(rng) == 1 and (i < rng[0].n) == ((i + 1) * step * 1000 < last))
    ctx.cut_ranges("marks", on_step=on)
    old = U.get_all_damage_snapshots_before_timestamp
    U.get_all_damage_snapshots_before_timestamp = staticmethod(ask)
    try:
        o = ctx.run(U.get_dps_at_intervals, rows, step)
    finally:
        U.get_all_damage_snapshots_before_timestamp = old
    if len(asked) != 1 or not all(type(o.get(k)).__mro__[1] is list and o[k]._unknown() for k in ("snapshot_time", "total_snapshotted_damage")):
        ctx.unsupported("totals computed otherwise")
    entry("end", {k: [x for x in list.__iter__(v) if type(x).__name__ != "Chunk"] for k, v in o.items()}, last)
    ctx.cover("end")
