"""C15: button, cast, snapshot and recast times obey the timing rules."""
from rotation import *
from effects import Eff, Model

F = [RB + x for x in ("get_skill_timing", "__process_q_sequence", "__process_q_timed", "__process_skill", "__get_cast_time",
                      "add", "add_next", "get_button_press_timing")]
FS = ["calcs/stat_fns.py:StatFns.get_time_using_speed_stat", "utils.py:Utils.truncate_to_digit",
      "utils.py:Utils.transform_time_to_prio"]
LEVEL = {90: dict(sub=400, div=1900), 100: dict(sub=420, div=2780)}


def speed_time(t, speed, L):
    """game rule: 130 per-mille per level divisor, times truncated to 10 ms"""
    d = ceil(div(130 * (L["sub"] - speed), L["div"]))
    return 10 * floor(div(t * (1000 + d), 10000))


def trunc10(x):
    return 10 * floor(div(x, 10))


@contract("C15", "speed", FS, split={"set": 3})
def speed(ctx):
    m = M(ctx)
    ver, lv = ctx.choice("set", (("7.05", 100), ("6.55", 90), ("test", 90)))
    t, s = ctx.uint("t", 0, 10000), ctx.int("speed", 0, 5000)
    ctx.eq("speed-scaled time", ctx.run(m.StatFns.get_time_using_speed_stat, t, s, ver, lv), speed_time(t, s, LEVEL[lv]))


@contract("C15", "truncate", FS)
def truncate(ctx):
    m = M(ctx)
    x = ctx.int("x")
    ctx.eq("truncated to 10 ms", ctx.run(m.Utils.truncate_to_digit, x, 2), trunc10(x))
    ctx.eq("priority of a time", ctx.run(m.Utils.transform_time_to_prio, x), 1000 * x)


def presses(ctx, b):
    """[(time, name)] in time order"""
    return [(p[0], p[1]) for p in ctx.run(b.get_button_press_timing)]


def compare_presses(ctx, got, want):
    ctx.check("every action pressed once", sorted(n for _, n in got) == sorted(n for _, n in want))
    for (a, n), (b, k) in zip(got, got[1:]):
        ctx.check("presses listed in time order", a <= b)
    d = dict((n, t) for t, n in got)
    for t, n in want:
        ctx.eq("press time", d.get(n), t)


def app_snap(t, cast, delay, mod_delay=False):
    snap = t + Max(0, cast - 500)
    app = t + cast
    if not mod_delay:
        app = app + (delay if bool(cast == 0) else Max(0, delay - 500))
    return snap, app


def check_events(ctx, evs, want):
    """want: {name: (snap, app)}"""
    ctx.check("one event per action", sorted(e.name for e in evs) == sorted(want))
    for e in evs:
        if e.name in want:
            ctx.eq("snapshot and application time", [e.snap, e.app], list(want[e.name]))


@contract("C15", "sequence", F, kind="bounded", split={"a0.gcd": 2, "a1.gcd": 2, "a2.gcd": 2},
          bound="all sequences of 4 actions (the last a GCD), unscaled; all casts, recasts, locks, delays and start times; up to 10 actions on the real code")
def sequence(ctx):
    m = M(ctx)
    N = ctx.size("n", 4, 4, 10)
    t = ctx.int("start", -20000, 20000)
    nxt = None
    sks, want, ev = [], [], {}
    for i in range(N):
        p = "a%d." % i
        last = i == N - 1
        gcd = True if last else ctx.flag(p + "gcd")
        ends = i in (0, N - 1) or not ctx.symbolic
        cast = ctx.uint(p + "cast", 0, 4000) if gcd and ends else 0
        recast = 2500 if last else (ctx.uint(p + "recast", 0, 5000) if gcd else 0)
        lock = 0 if last else ctx.uint(p + "lock", 0, 3000)
        delay = ctx.uint(p + "delay", 0, 2000) if ends else 0
        n = "s%d" % i
        dmg = last or not ((i == 1 or not ctx.symbolic) and not gcd and ctx.flag(p + "no_damage"))
        sks.append(m.Skill(name=n, is_GCD=gcd if gcd or dmg else None, damage_spec=m.DamageSpec(potency=100) if dmg else None,
                           timing_spec=timing(m, base_cast_time=cast, gcd_base_recast_time=recast, animation_lock=lock,
                                              application_delay=delay)))
        if gcd and nxt is not None:
            t = Max(t, nxt)
        want.append((t, n))
        ev[n] = app_snap(t, cast, delay)
        if gcd:
            nxt = t + (Max(recast, 1500) if bool(recast == 2500) else recast)
        t = t + cast + lock
    b = m.RotationBuilder(stats(m), library(m, sks), fight_start_time=want[0][0])
    for s in sks:
        ctx.run(b.add_next, s.name)
    evs = events(ctx, ctx.run(b.get_skill_timing))
    compare_presses(ctx, presses(ctx, b), want)
    check_events(ctx, evs, ev)
    ctx.cover("end")


@contract("C15", "default_start", F, kind="bounded", bound="two actions, no start time given; shifted to the first hit")
def default_start(ctx):
    m = M(ctx)
    d0, lock, n = ctx.uint("delay", 0, 3000), ctx.uint("lock", 0, 3000), ctx.choice("times", (1, 2, 3))
    s0 = m.Skill(name="s0", is_GCD=False, damage_spec=m.DamageSpec(potency=100),
                 timing_spec=timing(m, animation_lock=lock, application_delay=d0))
    b = m.RotationBuilder(stats(m), library(m, [s0]))
    ctx.run(b.add_next, "s0", num_times=n)
    evs = events(ctx, ctx.run(b.get_skill_timing))
    ctx.eq("presses", [t for t, _ in presses(ctx, b)], [i * lock - d0 for i in range(n)])
    ctx.eq("hits", sorted([e.app for e in evs]), [i * lock for i in range(n)])


@contract("C15", "scaling", F + FS, kind="bounded", split={"job": 2, "by_speed": 2, "by_haste": 2, "recast": 3},
          bound="one scaled action and the next, one active haste effect; all casts, speed stats and flat reductions, haste from a grid")
def scaling(ctx):
    m = M(ctx)
    job = ctx.choice("job", ("test_job", "test_job_haste"))
    by_speed, by_haste = ctx.choice("by_speed", (True, False)), ctx.choice("by_haste", (True, False))
    sp = ctx.choice("speed", (400, 401, 415, 2000, 380)) if by_speed else 400
    cast = ctx.uint("cast", 0, 6000)
    recast = ctx.choice("recast", (2500, 1500, 4000))
    haste = ctx.choice("haste", (0, 0.25, 0.1, 0.5))
    fc, fg = ctx.uint("flat_cast", 0, 2500), ctx.uint("flat_recast", 0, 2500)
    trait = Fraction(4, 5) if job == "test_job_haste" else 1
    buff = m.Skill(name="buff", is_GCD=False, timing_spec=timing(m),
                   buff_spec=m.StatusEffectSpec(duration=60000, haste_time_reduction=haste, flat_cast_time_reduction=fc,
                                                flat_gcd_recast_time_reduction=fg))
    tm = timing(m, base_cast_time=cast, gcd_base_recast_time=recast, affected_by_speed_stat=by_speed,
                affected_by_haste_buffs=by_haste)
    s = m.Skill(name="s", is_GCD=True, timing_spec=tm, damage_spec=m.DamageSpec(potency=100))
    e = m.Skill(name="e", is_GCD=True, timing_spec=timing(m), damage_spec=m.DamageSpec(potency=100))
    b = m.RotationBuilder(stats(m, job=job, speed=sp), library(m, [buff, s, e], job=job), fight_start_time=0)
    for n in ("buff", "s", "e"):
        ctx.run(b.add_next, n)
    evs = events(ctx, ctx.run(b.get_skill_timing))

    def scale(x):
        x = speed_time(x, sp, LEVEL[90]) if by_speed else x
        return trunc10(x * (1 - ex(haste)) * trait) if by_haste else x
    c = Max(0, scale(cast) - fc)
    r = scale(recast) - fg
    if recast == 2500:
        r = Max(r, 1500)
    compare_presses(ctx, presses(ctx, b), [(0, "buff"), (0, "s"), (Max(c, r), "e")])
    check_events(ctx, evs, {"buff": (0, 0), "s": app_snap(0, c, 0), "e": (Max(c, r), Max(c, r))})
    ctx.cover("end")


@contract("C15", "haste_window", F, kind="bounded", split={"gives": 2, "twice": 2, "extra": 2},
          bound="an action giving a haste effect (with allow list) after a delay, then three GCDs; all delays, durations, locks and counts")
def haste_window(ctx):
    m = M(ctx)
    h = ctx.choice("gives", ("buff", "debuff"))
    e = Eff(duration=ctx.uint("duration", 0, 9000), uses=ctx.int_or_inf("uses", 1, 3), haste=0.2,
            allow=("g1", "g2") if ctx.flag("extra") else None)
    delay, lock = ctx.uint("delay", 0, 3000), ctx.uint("lock", 0, 3000)
    giver = m.Skill(name="giver", is_GCD=False, timing_spec=timing(m, application_delay=delay, animation_lock=lock),
                    **({"buff_spec": e.build(m)} if h == "buff" else {"debuff_spec": e.build(m)}))
    gs = [m.Skill(name="g%d" % i, is_GCD=True, damage_spec=m.DamageSpec(potency=1),
                  timing_spec=timing(m, affected_by_haste_buffs=True, gcd_base_recast_time=3000)) for i in range(3)]
    b = m.RotationBuilder(stats(m), library(m, [giver] + gs), fight_start_time=0)
    names = ["giver", "g0", "g1", "g2"] if not ctx.flag("twice") else ["giver", "g0", "giver", "g1"]
    for n in names:
        ctx.run(b.add_next, n)
    ctx.run(b.get_skill_timing)
    md = Model()
    t, nxt, want = 0, None, []
    for n in names:
        if n != "giver" and nxt is not None:
            t = Max(t, nxt)
        want.append(t)
        md.expire(t)
        _, fb, _, _ = md.compile(md.buffs, t, n)
        _, fd, _, _ = md.compile(md.debuffs.get(m.SimConsts.DEFAULT_TARGET, {}), t, n)
        if n == "giver":
            md.apply(t + delay, "giver", e if h == "buff" else None, e if h == "debuff" else None, (m.SimConsts.DEFAULT_TARGET,))
            t = t + lock
        else:
            nxt = t + trunc10(3000 * fb["haste_time_mult"] * fd["haste_time_mult"])
    got = ctx.run(b.get_button_press_timing)
    ctx.eq("press times", [p[0] for p in got], want)
    ctx.check("press order", [p[1] for p in got] == names)
    ctx.cover("end")


@contract("C15", "waivers", F, kind="bounded", split={"how": 2},
          bound="one action, timed or in sequence, with any waiver; all times, casts and delays")
def waivers(ctx):
    m = M(ctx)
    how = ctx.choice("how", ("timed", "sequence"))
    cast, delay, lock = ctx.uint("cast", 0, 6000), ctx.uint("delay", 0, 3000), ctx.uint("lock", 0, 3000)
    nc, nd = ctx.flag("no_cast"), ctx.flag("no_delay")
    s = m.Skill(name="s", is_GCD=True, timing_spec=timing(m, base_cast_time=cast, application_delay=delay, animation_lock=lock,
                gcd_base_recast_time=0), damage_spec=m.DamageSpec(potency=100) if ctx.flag("damage") else None)
    e = m.Skill(name="e", is_GCD=False, timing_spec=timing(m))
    mod = m.SkillModifier(ignore_cast_times=nc, ignore_application_delay=nd)
    b = m.RotationBuilder(stats(m), library(m, [s, e]), fight_start_time=0)
    c = 0 if nc else cast
    if how == "timed":
        t = ctx.int("t", -30000, 30000)
        ctx.run(b.add, t / 1000, "s", skill_modifier=mod)
        want, ev = [(t, "s")], {"s": app_snap(t, c, delay, nd)}
    else:
        ctx.run(b.add_next, "s", skill_modifier=mod)
        ctx.run(b.add_next, "e")
        want, ev = [(0, "s"), (c + lock, "e")], {"s": app_snap(0, c, delay, nd), "e": (c + lock, c + lock)}
    evs = events(ctx, ctx.run(b.get_skill_timing))
    compare_presses(ctx, presses(ctx, b), want)
    check_events(ctx, evs, ev)
    for e in evs:
        ctx.check("an action snapshots everything", e.flags == [True, True])
    ctx.cover("end")


@contract("C15", "variant", F, kind="bounded", split={"how": 2},
          bound="timing that depends on a condition: stated, from an active effect, or from the combo; all times")
def variant(ctx):
    m = M(ctx)
    how = ctx.choice("how", ("timed", "sequence"))
    c0, c1, dur = ctx.uint("cast", 0, 6000), ctx.uint("cast1", 0, 6000), ctx.uint("duration", 0, 5000)
    dt = ctx.uint("dt", 0, 6000)
    src = ctx.choice("source", ("stated", "effect", "none", "combo", "follow-up"))
    later = ctx.uint("later", 0, 3000) if src == "follow-up" else 0
    s = m.Skill(name="s", is_GCD=True, damage_spec=m.DamageSpec(potency=100),
                combo_spec=(m.ComboSpec(combo_actions=("x",)),) if src == "combo" else (),
                timing_spec={"": timing(m, base_cast_time=c0), "Fast": timing(m, base_cast_time=c1),
                             "No Combo": timing(m, base_cast_time=c1)})
    eff = m.StatusEffectSpec(duration=dur, add_to_skill_modifier_condition=True)
    first = "first" if src == "follow-up" else "Fast"
    fast = m.Skill(name=first, is_GCD=False, timing_spec=timing(m, animation_lock=dt),
                   buff_spec=eff if src == "effect" else None,
                   follow_up_skills=(m.FollowUp(skill=m.Skill(name="Fast", is_GCD=False, buff_spec=eff), delay_after_parent_application=later),) if src == "follow-up" else ())
    b = m.RotationBuilder(stats(m), library(m, [s, fast]), fight_start_time=0)
    mod = m.SkillModifier(with_condition="Fast" if src == "stated" else "")
    if how == "timed":
        ctx.run(b.add, 0, first)
        ctx.run(b.add, dt / 1000, "s", skill_modifier=mod)
    else:
        ctx.run(b.add_next, first)
        ctx.run(b.add_next, "s", skill_modifier=mod)
    evs = events(ctx, ctx.run(b.get_skill_timing))
    quick = src in ("stated", "combo") or (src in ("effect", "follow-up") and bool(And(later <= dt, dt - later <= dur)))
    check_events(ctx, evs, {first: (0, 0), **({"Fast": (0, later)} if src == "follow-up" else {}), "s": app_snap(dt, c1 if quick else c0, 0)})
    ctx.check("the caller's modifier is untouched", mod.with_condition == ({"Fast"} if src == "stated" else set()))


@contract("C15", "follow_ups", F + [RB + "_process_follow_up_skills", RB + "__process_non_dot_follow_up_skill"], kind="bounded",
          split={"f0.buffs": 2, "f0.debuffs": 2},
          bound="an action with two follow-ups, all flag combinations; all times, casts and delays")
def follow_ups(ctx):
    m = M(ctx)
    cast, delay, t = ctx.uint("cast", 0, 4000), ctx.uint("delay", 0, 3000), ctx.uint("t", 0, 9000)
    fus, want = [], {}
    snap, app = app_snap(t, cast, delay)
    want["s"] = (snap, app, [True, True], ("A", "B"))
    for i in range(2):
        p = "f%d." % i
        sb, sd = ctx.flag(p + "buffs"), ctx.flag(p + "debuffs")
        po = ctx.flag(p + "primary_only")
        d = ctx.uint(p + "delay", 0, 5000)
        fus.append(m.FollowUp(skill=m.Skill(name="f%d" % i, damage_spec=m.DamageSpec(potency=5)),
                              delay_after_parent_application=d, snapshot_buffs_with_parent=sb,
                              snapshot_debuffs_with_parent=sd, primary_target_only=po))
        a = app + d
        want["f%d" % i] = (snap if sb or sd else a, a, [sb, sd] if sb or sd else [True, True], ("A",) if po else ("A", "B"))
    s = m.Skill(name="s", is_GCD=True, timing_spec=timing(m, base_cast_time=cast, application_delay=delay),
                damage_spec=m.DamageSpec(potency=100), follow_up_skills=tuple(fus))
    b = m.RotationBuilder(stats(m), library(m, [s]), fight_start_time=0)
    ctx.run(b.add, t / 1000, "s", targets="A, B")
    evs = events(ctx, ctx.run(b.get_skill_timing))
    ctx.check("the action and each follow-up once", sorted(e.name for e in evs) == ["f0", "f1", "s"])
    for e in evs:
        w = want[e.name]
        ctx.eq("times", [e.snap, e.app], [w[0], w[1]])
        ctx.check("flags", e.flags == ([True, True] if e.sec is None else w[2]))
        ctx.check("targets", e.targets == w[3])
    order = [e.name for e in evs]
    for i in range(2):
        if want["f%d" % i][2] != [True, True] or fus[i].snapshot_buffs_with_parent:
            ctx.check("a follow-up sharing the snapshot comes after its parent", order.index("s") < order.index("f%d" % i))
    ctx.cover("end")


def abstract_trackers(ctx, mod, buffs, debuffs):
    """trackers that return whatever their contracts (C05-C08) allow: arbitrary effects"""
    class Any:
        _vc_spec_ = True

        def __init__(self, *a, **k):
            self.calls = []

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            ctx.unsupported("tracker operation " + n)

        def expire_status_effects(self, t):
            self.calls.append(("expire", t))

        def compile_buffs(self, t, skill):
            return buffs(t), ""

        def compile_debuffs(self, t, skill, *target):
            return debuffs(t), ""

        def compile_job_resources(self, t, skill):
            return ""

        def add_resource(self, t, skill, mod):
            pass

        def compile_and_update_combo(self, t, skill, mod):
            return ""

        def add_to_status_effects(self, t, skill, mod, targets):
            self.calls.append(("apply", t, skill))
    for n in ("StatusEffectTracker", "JobResourceTracker", "ComboTracker"):
        if not hasattr(mod, n):
            ctx.unsupported("trackers made otherwise")
        setattr(mod, n, Any)


@contract("C15", "sequence_any", F, kind="proof", no_conc=True, split={"haste": 2})
def sequence_any(ctx):
    """any number of actions in a sequence, under arbitrary effects at each of them"""
    m = M(ctx)
    mod = ctx.mod("simulator.timeline_builders.rotation_builder")
    t0 = ctx.int("start", -20000, 20000)
    hasted = ctx.choice("haste", (False, True))
    lib, st = library(m, []), stats(m)

    class El:
        pass

    def make(at):
        e = El()
        e.gcd = at.flag("gcd")
        e.cast, e.lock, e.delay = at.int("cast", 0), at.int("lock", 0), at.int("delay", 0)
        e.recast = 2500 if at.flag("standard recast") else at.int("recast", 0)
        e.hb, e.hd = (at.choice("hb", (1, 0.75)), at.choice("hd", (1, 0.9))) if hasted else (1, 1)
        e.fc, e.fg = at.int("flat cast", 0), at.int("flat recast", 0)
        e.waive = at.flag("no cast")
        e.skill = m.Skill(name="s", is_GCD=e.gcd, damage_spec=m.DamageSpec(potency=100),
                          timing_spec=timing(m, base_cast_time=e.cast, gcd_base_recast_time=e.recast, animation_lock=e.lock,
                                             application_delay=e.delay, affected_by_haste_buffs=hasted))
        e.mod = m.SkillModifier(ignore_cast_times=e.waive)
        e.buffs = m.StatusEffects(haste_time_mult=e.hb, flat_cast_time_reduction=e.fc, flat_gcd_recast_time_reduction=e.fg)
        e.debuffs = m.StatusEffects(haste_time_mult=e.hd)
        c = trunc10(e.cast * ex(e.hb)) if hasted else e.cast
        e.c = 0 if e.waive else Max(0, c - e.fc)
        r = (trunc10(e.recast * ex(e.hb) * ex(e.hd)) if hasted else e.recast) - e.fg
        e.r = Max(r, 1500) if bool(eq(e.recast, 2500)) else r
        return e

    def step(a, e):
        t = a["t"]
        if e.gcd:
            if a["next"] != -INF:
                t = Max(t, a["next"])
            return {"t": t + e.c + e.lock, "next": t + e.r}
        return {"t": t + e.lock, "next": a["next"]}

    def on_step(k, logs):
        a, e = f.at(k.z), seq.at(k.z)
        t = a["t"]
        if e.gcd and a["next"] != -INF:
            t = Max(t, a["next"])
        new = [x for v in logs.values() for x in v if isinstance(x, list) and len(x) == 4]
        ctx.check("pressed once", len(new) == 1 and new[0][1] == "s")
        if len(new) == 1:
            ctx.eq("press time", new[0][0], t)
        ctx.check("one event", len(out.added) == 1)
        if len(out.added) == 1:
            x, kw = out.added[0]
            snap, app = app_snap(t, e.c, e.delay)
            ctx.eq("snapshot and application time", [x[1], x[2]], [snap, app])
            if not hasted:
                ctx.eq("priority", x[0], 1000 * snap)
            ctx.check("action, its flags and targets", And(x[3] is e.skill, x[5] == [True, True], kw.get("targets") == ("A", "B")))
    seq = ctx.seq("actions", make, on_step=on_step)
    f = ctx.fold(seq, {"t": t0, "next": -INF}, step, ints=not hasted)
    out = ctx.queue("events", None)
    abstract_trackers(ctx, mod, lambda t: seq.at(seq.cur).buffs, lambda t: seq.at(seq.cur).debuffs)
    b = m.RotationBuilder(st, lib, fight_start_time=t0)
    run = getattr(b, "_RotationBuilder__process_q_sequence", None)
    if run is None or getattr(b, "_q_sequence", None) != []:
        ctx.unsupported("sequence stored otherwise")
    b._q_snapshot_and_applications = out
    b._q_dot_skills = {}
    b._q_sequence = seq.view(lambda e: (e.skill, e.mod, st.job_class, ("A", "B")))
    ctx.run(run)
    ctx.cover("end")
