"""C13: no damage is dealt in downtime, and nothing else is dropped."""
from rotation import *

F = [RB + x for x in ("get_skill_timing", "remove_damage_during_downtime", "__filter_by_downtime_range_and_damage_class",
                      "__init_downtime_windows", "__do_init_downtime_windows", "__process_downtime_windows",
                      "__process_and_check_targets", "add")]


def blocked(wins, target, kind, times):
    if kind is None:
        return False
    for (a, b, k) in wins.get(target, ()):
        if k is not None and k != kind:
            continue
        if any(bool(And(a <= t, t < b)) for t in times):
            return True
    return False


def compare(ctx, base, got, wins, kinds):
    """got is base without the blocked (event, target) pairs"""
    want = []
    for e in base:
        left = tuple(t for t in e.targets if not blocked(wins, t, kinds[e.name], (e.snap, e.app)))
        if left:
            want.append((e, left))
    ctx.check("exactly the events outside downtime remain, in order", [e.name for e in got] == [e.name for e, _ in want])
    if [e.name for e in got] != [e.name for e, _ in want]:
        return
    for g, (e, left) in zip(got, want):
        same_event(ctx, "kept event", g, e, targets=left)


def act(ctx, m, i, kinds, kind_options, effects=False):
    p = "a%d." % i
    kind = ctx.choice(p + "kind", kind_options)
    dc = None if kind is None else getattr(m.DamageClass, kind)
    name = "s%d" % i
    kinds[name] = dc
    delay = ctx.uint(p + "delay", 0, 5000)
    eff = m.StatusEffectSpec(duration=3000) if effects and ctx.flag(p + "effects") else None
    return m.Skill(name=name, buff_spec=eff, debuff_spec=eff, is_GCD=False, timing_spec=timing(m, application_delay=delay),
                   damage_spec=None if dc is None else m.DamageSpec(potency=100, damage_class=dc))


def windows(ctx, m, n, per_target, kinds_opt, targets):
    """-> (argument for the builder, {target: [(start, end, kind)]} in ms)"""
    ws = []
    for i in range(n):
        p = "w%d." % i
        a = ctx.int(p + "start", -1000, 30000) if not ctx.symbolic else ctx.int(p + "start")
        b = a + ctx.uint(p + "len", 0, 10000)
        k = ctx.choice(p + "kind", kinds_opt)
        dc = None if k in (None, "absent") else getattr(m.DamageClass, k)
        arg = (a / 1000, b / 1000) if k == "absent" else (a / 1000, b / 1000, dc)
        ws.append((ctx.choice(p + "target", targets) if per_target else None, arg, (a, b, dc)))
    if per_target:
        arg, model = {}, {}
        for t, x, w in ws:
            arg.setdefault(t, []).append(x)
            model.setdefault(t, []).append(w)
        return {t: tuple(v) for t, v in arg.items()}, model
    class All(dict):
        def get(self, k, d=None):
            return [w for _, _, w in ws]
    return tuple(x for _, x, _ in ws), All()


def build(ctx, m, lib, adds, st, **k):
    b = m.RotationBuilder(st, lib, **k)
    for (ms, n, tg) in adds:
        ctx.run(b.add, ms / 1000, n, targets=tg)
    return b


@contract("C13", "windows", F, kind="bounded", split={"form": 2, "w0.kind": 2, "a0.kind": 3},
          bound="one action on up to 3 targets, 2 windows; all times, window bounds, kinds and targets unbounded")
def per_window(ctx):
    m = M(ctx)
    kinds = {}
    form = ctx.choice("form", ("dict", "tuple"))
    sk = act(ctx, m, 0, kinds, ("DIRECT", None, "AUTO"), effects=True)
    lib, st = library(m, [sk]), stats(m)
    tg = ctx.choice("targets", ("A", "A, B", "B,A,C"))
    adds = [(ctx.uint("t", 0, 20000), "s0", tg)]
    arg, wins = windows(ctx, m, 2, form == "dict", ("DIRECT", "absent"), ("A", "C"))
    snapshot = copy.deepcopy(arg)
    base = events(ctx, ctx.run(build(ctx, m, lib, adds, st, fight_start_time=0).get_skill_timing))
    b = build(ctx, m, lib, adds, st, fight_start_time=0, downtime_windows=arg)
    got = events(ctx, ctx.run(b.get_skill_timing))
    ctx.check("without windows nothing is dropped", len(base) == 1)
    compare(ctx, base, got, wins, kinds)
    ctx.eq("the caller's windows are untouched", _plain(arg), _plain(snapshot))
    ctx.cover("end")


def _plain(w):
    if isinstance(w, dict):
        return [[t, [list(x[:2]) for x in v]] for t, v in w.items()]
    return [list(x[:2]) for x in w]


ALL = ("DIRECT", "PHYSICAL_DOT", "MAGICAL_DOT", "PET", "AUTO")


@contract("C13", "kinds", F, kind="bounded", split={"w0.kind": 7},
          bound="one action, one window; all pairs of damage kind and window kind, all times and bounds")
def all_kinds(ctx):
    m = M(ctx)
    kinds = {}
    sk = act(ctx, m, 0, kinds, ALL + (None,))
    lib, st = library(m, [sk]), stats(m)
    adds = [(ctx.uint("t", 0, 20000), "s0", "A, B")]
    arg, wins = windows(ctx, m, 1, True, ALL + (None, "absent"), ("B",))
    base = events(ctx, ctx.run(build(ctx, m, lib, adds, st, fight_start_time=0).get_skill_timing))
    got = events(ctx, ctx.run(build(ctx, m, lib, adds, st, fight_start_time=0, downtime_windows=arg).get_skill_timing))
    compare(ctx, base, got, wins, kinds)


@contract("C13", "rotation", F + [RB + "shift_timelines_for_first_damage_instance", RB + "__process_all_dots"], kind="bounded",
          split={"a0.kind": 2, "a1.kind": 2, "shift": 2},
          bound="two actions, the first leaving a short DoT, one window over all targets, with and without shift to the first hit")
def rotation(ctx):
    m = M(ctx)
    kinds = {"dot": m.DamageClass.PHYSICAL_DOT}
    sks = [act(ctx, m, i, kinds, ("DIRECT", None)) for i in range(2)]
    dot = m.Skill(name="dot", damage_spec=m.DamageSpec(potency=50, damage_class=m.DamageClass.PHYSICAL_DOT))
    fu = m.FollowUp(skill=dot, delay_after_parent_application=0, dot_duration=4000)
    sks[0] = m.Skill(name="s0", is_GCD=False, timing_spec=sks[0].timing_spec, damage_spec=sks[0].damage_spec,
                     follow_up_skills=(fu,))
    lib, st = library(m, sks), stats(m)
    k = dict(fight_start_time=0) if ctx.choice("shift", (True, False)) else {}
    t0 = ctx.uint("t0", 0, 9000)
    adds = [(t0, "s0", "A,B"), (t0 + ctx.uint("dt", 0, 9000), "s1", "B")]
    arg, wins = windows(ctx, m, 1, False, ("absent",), ())
    base = events(ctx, ctx.run(build(ctx, m, lib, adds, st, **k).get_skill_timing))
    got = events(ctx, ctx.run(build(ctx, m, lib, adds, st, downtime_windows=arg, **k).get_skill_timing))
    compare(ctx, base, got, wins, kinds)
    ctx.cover("end")


@contract("C13", "later_targets", F, kind="bounded", bound="two actions on different targets, built in between; times and window unbounded")
def later_targets(ctx):
    m = M(ctx)
    kinds = {}
    sks = [act(ctx, m, i, kinds, ("DIRECT",)) for i in range(2)]
    lib, st = library(m, sks), stats(m)
    t0 = ctx.uint("t0", 0, 9000)
    adds = [(t0, "s0", "A"), (t0 + ctx.uint("dt", 1, 9000), "s1", "New")]
    arg, wins = windows(ctx, m, 1, False, (None,), ())
    base = events(ctx, ctx.run(build(ctx, m, lib, adds, st, fight_start_time=0).get_skill_timing))
    b = build(ctx, m, lib, adds[:1], st, fight_start_time=0, downtime_windows=arg)
    ctx.run(b.get_skill_timing)
    ctx.run(b.add, adds[1][0] / 1000, "s1", targets="New")
    compare(ctx, base, events(ctx, ctx.run(b.get_skill_timing)), wins, kinds)


@contract("C13", "variants", F, kind="bounded", bound="one action with a condition-dependent damage kind, one window for one kind; times unbounded")
def variants(ctx):
    m = M(ctx)
    D, A = m.DamageClass.DIRECT, m.DamageClass.AUTO
    sk = m.Skill(name="s0", is_GCD=False, timing_spec=timing(m, application_delay=ctx.uint("delay", 0, 5000)),
                 damage_spec={"": m.DamageSpec(potency=100, damage_class=D), "x": m.DamageSpec(potency=100, damage_class=A),
                              "quiet": None})
    lib, st = library(m, [sk]), stats(m)
    cond = ctx.choice("cond", ("", "x", "quiet"))
    mod = m.SkillModifier(with_condition=cond)
    t = ctx.uint("t", 0, 20000)
    arg, wins = windows(ctx, m, 1, True, ("AUTO", "DIRECT", "absent"), ("A",))
    out = []
    for k in ({}, dict(downtime_windows=arg)):
        b = m.RotationBuilder(st, lib, fight_start_time=0, **k)
        ctx.run(b.add, t / 1000, "s0", skill_modifier=mod, targets="A,B")
        out.append(events(ctx, ctx.run(b.get_skill_timing)))
    compare(ctx, out[0], out[1], wins, {"s0": {"": D, "x": A, "quiet": None}[cond]})


@contract("C13", "windows_any", F, kind="proof", report_unreplayed=False)
def windows_any(ctx):
    """any number of windows for a target (each in canonical form, as the builder stores a single one)"""
    m = M(ctx)
    kinds = {}
    sk = act(ctx, m, 0, kinds, ("DIRECT", None, "AUTO"))
    lib, st = library(m, [sk]), stats(m)
    adds = [(ctx.uint("t", 0, 20000), "s0", "A, B")]

    def make(at):
        a = at.int("start", -1000, 30000)
        b = a + at.int("len", 0, 10000)
        k = at.choice("kind", ("DIRECT", None, "AUTO", "absent"))
        dc = None if k in (None, "absent") else getattr(m.DamageClass, k)
        return ((a / 1000, b / 1000) if k == "absent" else (a / 1000, b / 1000, dc)), (a, b, dc)
    ws = ctx.seq("windows", make)
    base = events(ctx, ctx.run(build(ctx, m, lib, adds, st, fight_start_time=0).get_skill_timing))
    ctx.check("without windows nothing is dropped", len(base) == 1)
    if len(base) != 1:
        return
    e = base[0]

    def hit(t):
        return lambda acc, w: Or(acc, And(w[1][0] <= t, t < w[1][1], w[1][2] is None or w[1][2] == kinds["s0"]))
    bs = ctx.fold(ws, False, hit(e.snap), monotone=True)
    ba = ctx.fold(ws, False, hit(e.app), monotone=True)
    if ctx.symbolic:
        def mk(arg):
            return build(ctx, m, lib, adds, st, fight_start_time=0, downtime_windows={"A": (arg,)})

        def stored(b):
            return [k for k, v in vars(b).items() if isinstance(v, dict) and set(v) == {"A"} and isinstance(v["A"], (tuple, list)) and len(v["A"]) == 1]
        b = mk((1.0, 2.0))
        at = stored(b)
        if len(at) != 1:
            ctx.unsupported("windows stored otherwise")
        setattr(b, at[0], {"A": ws.view(lambda w: vars(mk(w[0]))[at[0]]["A"][0])})
    else:
        b = build(ctx, m, lib, adds, st, fight_start_time=0, downtime_windows={"A": tuple(w[0] for w in ws)})
    got = events(ctx, ctx.run(b.get_skill_timing))
    gone = kinds["s0"] is not None and bool(Or(bs.total, ba.total))
    ctx.check("the event remains", len(got) == 1)
    if len(got) == 1:
        same_event(ctx, "kept event", got[0], e, targets=("B",) if gone else ("A", "B"))
    ctx.cover("end")


@contract("C13", "filter_any", F, kind="proof", no_conc=True)
def filter_any(ctx):
    """any number of events and of windows: an arbitrary event of the queue, an arbitrary list of
    windows of its targets; the queue is the one C12 specifies"""
    m = M(ctx)
    mod = ctx.mod("simulator.timeline_builders.rotation_builder")
    real = mod.SnapshotAndApplicationEvents
    kinds = (m.DamageClass.DIRECT, m.DamageClass.AUTO, None, m.DamageClass.DIRECT)
    eff = m.StatusEffectSpec(duration=3000)
    skills = [m.Skill(name="s%d" % i, buff_spec=eff if i > 1 else None, debuff_spec=eff if i > 1 else None, damage_spec=None if k is None else m.DamageSpec(potency=100, damage_class=k)) for i, k in enumerate(kinds)]
    lib, st = library(m, skills), stats(m)

    def make(at):
        a = at.int("start")
        b = a + at.int("len", 0)
        k = at.choice("kind", ("DIRECT", "AUTO", None))
        return (a, b, None if k is None else getattr(m.DamageClass, k))

    def mk(arg):
        return m.RotationBuilder(st, lib, fight_start_time=0, downtime_windows={"A": (arg,), "C": (arg,)})

    def stored(b):
        return [k for k, v in vars(b).items() if isinstance(v, dict) and set(v) == {"A", "C"} and all(isinstance(x, (tuple, list)) and len(x) == 1 for x in v.values())]
    b = mk((1.0, 2.0, None))
    at = stored(b)
    if len(at) != 1 or not hasattr(b, "_q_snapshot_and_applications"):
        ctx.unsupported("windows stored otherwise")
    ws = {g: ctx.seq("windows " + g, make) for g in ("A", "C")}
    canon = {g: s.view(lambda w: vars(mk((w[0] / 1000, w[1] / 1000, w[2])))[at[0]]["A"][0]) for g, s in ws.items()}
    # the windows, as used while building
    for k in [k for k in vars(b) if k == at[0] or vars(b)[k] == {}]:
        if "downtime" in k:
            setattr(b, k, canon)
    seen = {}

    def event(e):
        i = e.choice("skill", (0, 1, 2, 3))
        p, delayed = e.int("primary"), e.flag("delayed")
        s = e.int("secondary") if delayed else None
        if delayed:
            ctx.assume(s != p)
        tg = e.choice("targets", (("A",), ("B",), ("A", "C"), ("C", "B", "A")))
        app = p if s is None else s
        def hit(t):
            return lambda acc, w: Or(acc, And(w[0] <= t, t < w[1], w[2] is None or w[2] == kinds[i]))
        seen["f"] = {g: [ctx.fold(ws[g], False, hit(t), monotone=True) for t in (p, app)] for g in tg if g in ws}
        seen["e"] = (e.int("prio"), p, s, skills[i], object(), [object(), object()], tg, kinds[i])
        q = seen["e"]
        return real.Event(q[0], real.EventTimes(p, s), q[3], q[4], q[5], tg, e.int("id"), False, False, False)

    def step(popped, logs):
        prio, p, s, sk, mod_, flags, tg, kind = seen["e"]
        left = tuple(g for g in tg if kind is None or g not in ws or not bool(Or(*[f.total for f in seen["f"][g]])))
        if logs:
            ctx.unsupported("events moved by other means")
        ctx.check("one event at a time", len(popped) == 1)
        ctx.check("kept exactly while a target is outside downtime", len(out.added) == (1 if left else 0))
        if left and len(out.added) == 1:
            a, k = out.added[0]
            names = ("priority", "primary_time", "secondary_time", "skill", "skill_modifier", "snapshot_status", "event_id", "jr", "jc", "cc", "targets")
            d = dict(zip(names, a), **k)
            ctx.eq("kept event: order and times", [d["priority"], d["primary_time"]], [prio, p])
            ctx.check("kept event: application", (d["secondary_time"] is None) == (s is None))
            if s is not None:
                ctx.eq("kept event: application time", d["secondary_time"], s)
            ctx.check("kept event: action, modifier, flags", And(d["skill"] is sk, d["skill_modifier"] is mod_, d["snapshot_status"] is flags))
            ctx.check("kept event: targets outside downtime", d["targets"] == left)
    q, out = ctx.queue("queue", event, step), ctx.queue("kept", None)

    class Fake:
        def __new__(cls):
            return out
        Event, EventTimes = real.Event, real.EventTimes
    b._q_snapshot_and_applications = q
    mod.SnapshotAndApplicationEvents = Fake
    try:
        r = ctx.run(b.remove_damage_during_downtime)
    finally:
        mod.SnapshotAndApplicationEvents = real
    ctx.check("the whole queue is gone through", q.state == "drained" and r is out)
    ctx.cover("end")
