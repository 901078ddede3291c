"""C14: DoTs tick every three seconds, from application to expiry or renewal."""
from rotation import *

F = [RB + x for x in ("get_skill_timing", "__process_all_dots", "__get_base_dot_timings", "__get_consolidated_dot_timing",
                      "__process_dot_follow_up_skill", "_process_follow_up_skills", "__follow_up_is_dot", "__process_skill", "add")]


def ticks(apps, duration, server, cut):
    """apps: [(application time, snapshot time)] of one DoT on one target, in time order -> [(tick, snapshot)]"""
    out = []
    for i, (a, s) in enumerate(apps):
        t = a
        if server is not None:
            r = (a - server) % 3000
            t = a if bool(r == 0) else a - r + 3000
        end = a + duration
        if i + 1 < len(apps):
            end = Min(end, apps[i + 1][0])
        while bool(t < end):
            if cut is None or bool(t <= cut):
                out.append((t, s))
            t = t + 3000
    return out


def check_dot(ctx, evs, name, target, want, flags):
    got = [e for e in evs if e.name == name and e.targets == (target,)]
    got.sort(key=lambda e: e.app)
    want = sorted(want, key=lambda x: x[0])
    ctx.check("number of ticks", len(got) == len(want))
    if len(got) != len(want):
        return
    for e, (t, s) in zip(got, want):
        ctx.eq("tick time", e.app, t)
        ctx.eq("tick belongs to the snapshot of its application", e.snap, s)
        ctx.check("snapshot flags of the DoT", e.flags == ([True, True] if e.sec is None else flags))


def dot_skill(ctx, m, flags, duration, delay=0, name="dot", parent="p", immediate=0, more=()):
    dot = m.Skill(name=name, damage_spec=m.DamageSpec(potency=50, damage_class=m.DamageClass.PHYSICAL_DOT))
    fu = m.FollowUp(skill=dot, delay_after_parent_application=0, dot_duration=duration,
                    snapshot_buffs_with_parent=flags[0], snapshot_debuffs_with_parent=flags[1])
    return m.Skill(name=parent, is_GCD=False, timing_spec=timing(m, application_delay=delay),
                   damage_spec=m.DamageSpec(potency=100), follow_up_skills=tuple(more) + (fu,))


@contract("C14", "single", F, kind="bounded", max_iter=12, split={"server": 2},
          bound="one application with up to 3 full ticks; application time, delay, duration and server-tick offset arbitrary")
def single(ctx):
    m = M(ctx)
    flags = [ctx.flag("buffs"), ctx.flag("debuffs")]
    dur = ctx.int("duration", 0, 8000)
    delay = ctx.uint("delay", 0, 3000)
    srv = ctx.choice("server", (False, True))
    off = ctx.int("offset", -6000, 6000) if srv else None
    lib = library(m, [dot_skill(ctx, m, flags, dur, delay)])
    k = dict(snap_dots_to_server_tick_starting_at=off / 1000) if srv else {}
    b = m.RotationBuilder(stats(m), lib, fight_start_time=0, **k)
    t = ctx.uint("t", 0, 20000)
    ctx.run(b.add, t / 1000, "p")
    evs = events(ctx, ctx.run(b.get_skill_timing))
    check_dot(ctx, evs, "dot", m.SimConsts.DEFAULT_TARGET, ticks([(t + delay, t)], dur, off, None), flags)
    ctx.check("nothing but the action and its ticks", all(e.name == "dot" for e in evs if e.name != "p")
              and len([e for e in evs if e.name == "p"]) == 1)
    ctx.cover("end")


@contract("C14", "renewal", F, kind="bounded", max_iter=12, split={"server": 2, "targets1": 3},
          bound="three applications of a DoT of at most 3 ticks to one or two targets; times, delays and duration arbitrary")
def renewal(ctx):
    m = M(ctx)
    flags = [True, False]
    dur = ctx.int("duration", 0, 6000)
    srv = ctx.choice("server", (False, True))
    off = ctx.int("offset", 0, 2999) if srv else None
    d0, d1 = ctx.uint("delay0", 0, 4000), ctx.uint("delay1", 0, 4000)
    lib = library(m, [dot_skill(ctx, m, flags, dur, d0, parent="p"), dot_skill(ctx, m, flags, dur, d1, parent="q")])
    k = dict(snap_dots_to_server_tick_starting_at=off / 1000) if srv else {}
    b = m.RotationBuilder(stats(m), lib, fight_start_time=0, **k)
    t0 = ctx.uint("t0", 0, 9000)
    t1 = t0 + ctx.uint("dt1", 0, 9000)
    tg1 = ctx.choice("targets1", ("A", "B", "A, B"))
    seq = [(t0, "p", ("A", "B"), d0), (t1, "q", tuple(x.strip() for x in tg1.split(",")), d1)]
    if not srv and tg1 == "A":
        seq.append((t1 + ctx.uint("dt2", 0, 9000), "p", ("A",), d0))
    for (t, n, tg, _) in seq:
        ctx.run(b.add, t / 1000, n, targets=", ".join(tg))
    evs = events(ctx, ctx.run(b.get_skill_timing))
    for g in ("A", "B"):
        apps = sorted([(t + d, t) for (t, n, tg, d) in seq if g in tg], key=lambda x: x[0])
        if any(bool(x[0] == y[0]) for x, y in zip(apps, apps[1:])):
            ctx.stop()   # two applications at one instant: which of them counts is not claimed
        check_dot(ctx, evs, "dot", g, ticks(apps, dur, off, None), flags)
    ctx.check("every tick belongs to one target", all(len(e.targets) == 1 for e in evs if e.name == "dot"))
    ctx.cover("end")


@contract("C14", "independent", F, kind="bounded", max_iter=12, bound="two different DoTs, one action each and one giving both; at most 2 ticks each")
def independent(ctx):
    m = M(ctx)
    dur1, dur2 = ctx.int("dur1", 0, 5000), ctx.int("dur2", 0, 5000)
    dot2 = m.FollowUp(skill=m.Skill(name="dot2", damage_spec=m.DamageSpec(potency=7, damage_class=m.DamageClass.MAGICAL_DOT)),
                      delay_after_parent_application=0, dot_duration=dur2)
    both = dot_skill(ctx, m, [True, True], dur1, 0, parent="p", more=(dot2,))
    one = dot_skill(ctx, m, [True, True], dur1, 0, parent="q")
    b = m.RotationBuilder(stats(m), library(m, [both, one]), fight_start_time=0)
    t0 = ctx.uint("t0", 0, 9000)
    t1 = t0 + ctx.uint("dt1", 1, 9000)
    ctx.run(b.add, t0 / 1000, "p", targets="A")
    ctx.run(b.add, t1 / 1000, "q", targets="A")
    evs = events(ctx, ctx.run(b.get_skill_timing))
    check_dot(ctx, evs, "dot", "A", ticks([(t0, t0), (t1, t1)], dur1, None, None), [True, True])
    check_dot(ctx, evs, "dot2", "A", ticks([(t0, t0)], dur2, None, None), [True, True])


@contract("C14", "trailing", F + ["timeline_builders/snapshot_and_application_events.py:SnapshotAndApplicationEvents.get_last_event_time",
                                  RB + "set_ignore_trailing_dots"],
          kind="bounded", max_iter=12, split={"how": 3},
          bound="one DoT of at most 3 ticks and one other action at any time, trailing DoTs ignored or not")
def trailing(ctx):
    m = M(ctx)
    dur, delay = ctx.int("duration", 0, 8000), ctx.uint("delay", 0, 4000)
    other = m.Skill(name="o", is_GCD=False, timing_spec=timing(m, application_delay=ctx.uint("odelay", 0, 4000)),
                    damage_spec=m.DamageSpec(potency=1) if ctx.flag("odamage") else None)
    how = ctx.choice("how", ("constructor", "setter", "off"))
    b = m.RotationBuilder(stats(m), library(m, [dot_skill(ctx, m, [True, True], dur, delay), other]), fight_start_time=0,
                          ignore_trailing_dots=how == "constructor")
    if how == "setter":
        ctx.run(b.set_ignore_trailing_dots, True)
    t0, t1 = ctx.uint("t0", 0, 9000), ctx.uint("t1", 0, 12000)
    ctx.run(b.add, t0 / 1000, "p")
    ctx.run(b.add, t1 / 1000, "o")
    evs = events(ctx, ctx.run(b.get_skill_timing))
    cut = None if how == "off" else Max(t0 + delay, t1 + other.timing_spec.application_delay)
    check_dot(ctx, evs, "dot", m.SimConsts.DEFAULT_TARGET, ticks([(t0 + delay, t0)], dur, None, cut), [True, True])
    ctx.check("other events stay", sorted(e.name for e in evs if e.name != "dot") == ["o", "p"])
    ctx.cover("end")


@contract("C14", "cast", F + [RB + "__get_cast_time", RB + "add_next"], kind="bounded", max_iter=12,
          bound="one cast action, DoT of at most 2 ticks, added in sequence and shifted to the first hit; cast time and delay arbitrary")
def cast(ctx):
    m = M(ctx)
    dur, delay, ct = ctx.int("duration", 0, 6000), ctx.uint("delay", 0, 3000), ctx.uint("cast", 0, 4000)
    dmg = ctx.flag("damage")
    sk = dot_skill(ctx, m, [True, True], dur)
    sk = m.Skill(name="p", is_GCD=True, timing_spec=timing(m, application_delay=delay, base_cast_time=ct),
                 damage_spec=sk.damage_spec if dmg else None, follow_up_skills=sk.follow_up_skills)
    b = m.RotationBuilder(stats(m), library(m, [sk]), fight_start_time=None)
    ctx.run(b.add_next, "p")
    evs = events(ctx, ctx.run(b.get_skill_timing))
    app = ct + (delay if bool(ct == 0) else Max(0, delay - 500))
    snap = Max(0, ct - 500)
    shift = app if dmg or bool(dur > 0) else 0
    check_dot(ctx, evs, "dot", m.SimConsts.DEFAULT_TARGET, ticks([(app - shift, snap - shift)], dur, None, None), [True, True])


@contract("C14", "ticks_any", F, kind="proof", no_conc=True, split={"server": 2, "trailing": 2})
def ticks_any(ctx):
    """any number of applications of a DoT to a target, any duration: the ticks of an arbitrary one.  The
    applications are what _process_follow_up_skills records for them; two never fall on one instant."""
    m = M(ctx)
    flags = [ctx.flag("buffs"), ctx.flag("debuffs")]
    dur = ctx.int("duration", 0)
    srv, cut = ctx.choice("server", (False, True)), ctx.choice("trailing", (False, True))
    off = ctx.int("offset") if srv else None
    last = ctx.int("last") if cut else None
    sk = dot_skill(ctx, m, flags, dur)
    fu = sk.follow_up_skills[-1]
    k = dict(snap_dots_to_server_tick_starting_at=off / 1000) if srv else {}

    def new():
        b = m.RotationBuilder(stats(m), library(m, [sk]), fight_start_time=0, **k)
        b._q_dot_skills = {}
        return b

    def recorded(e):
        b = new()
        ctx.run(b._process_follow_up_skills, (fu,), e.snap, e.app, None, None, ("A",))
        q = b._q_dot_skills
        if list(q) != ["A"] or list(q["A"]) != [fu] or len(q["A"][fu]) != 1:
            ctx.unsupported("applications recorded otherwise")
        return q["A"][fu][0]

    class El:
        pass

    def make(at):
        e = El()
        e.i, e.app, e.snap = at.i, at.int("app"), at.int("snap")
        return e
    def other(logs):
        if logs:
            ctx.unsupported("DoT ticks made by other means")
    apps = ctx.seq("applications", make, sorted_by=lambda e: e.app, on_step=lambda k, logs: other(logs))
    view = apps.view(recorded)

    def nxt(i):
        """application time of the next one, or None"""
        if bool(i + 1 < apps.n):
            a, b = apps.at(i.z), apps.at(i.z + 1)
            ctx.assume(a.app < b.app)
            return b.app
        return None

    def end(i):
        n = nxt(i)
        e = apps.at(i.z).app + dur
        return e if n is None else Min(e, n)
    run = getattr(m.RotationBuilder, "_RotationBuilder__process_all_dots", None)
    if run is None:
        ctx.unsupported("DoTs made otherwise")
    # what the code may build on its way
    ctx.map(apps, lambda e: (e.app, e.app + dur, e.snap, recorded(e)[2]))
    ctx.map(apps, lambda i: (apps.at(i.z).app, end(i), apps.at(i.z).snap, recorded(apps.at(i.z))[2]), indexed=True)

    def start(e):
        if off is None:
            return e.app
        r = (e.app - off) % 3000
        return e.app if bool(r == 0) else e.app - r + 3000

    def tick(j, logs):
        e = apps.at(apps.cur)
        t = start(e) + 3000 * j
        other(logs)
        late = last is not None and bool(t > last)
        ctx.check("one event per tick, none after the last other event", len(out.added) == (0 if late else 1))
        if not late and len(out.added) == 1:
            a, kw = out.added[0]
            d = dict(zip(("priority", "primary_time", "secondary_time", "skill", "skill_modifier", "snapshot_status", "event_id"), a), **kw)
            ctx.eq("tick times", [d["primary_time"], d["secondary_time"]], [e.snap, t])
            ctx.check("the DoT, its flags and its target", And(d["skill"] is fu.skill, d["snapshot_status"] == flags, d["targets"] == ("A",),
                                                              d["skill_modifier"].with_condition == set()))
        rng = [s for s in ctx.e.seqs if s.name.startswith("ticks")]
        i = ctx.int("some tick", 0)
        ctx.check("ticks go on strictly before expiry and renewal", len(rng) == 1 and (i < rng[0].n) == (start(e) + 3000 * i < end(type(j)(apps.cur))))
    ctx.cut_ranges("ticks", on_step=tick)
    out = ctx.queue("events", None)
    b = new()
    b._q_dot_skills = {"A": {fu: view}}
    b._q_snapshot_and_applications = out
    ctx.run(run, b, last)
    ctx.cover("end")
