"""C18: building a timeline is repeatable and starts the fight at its first hit."""
from rotation import *

F = [RB + x for x in ("get_skill_timing", "shift_timelines_for_first_damage_instance", "get_button_press_timing", "add", "add_next",
                      "__process_q_sequence", "__process_q_timed", "__process_all_dots", "__add_autos")] + [
    "timeline_builders/snapshot_and_application_events.py:SnapshotAndApplicationEvents.get_first_damage_time"]


def same_timeline(ctx, what, got, want, shift=0, ids=True):
    ctx.check(what + ": same events in the same order", [e.name for e in got] == [e.name for e in want])
    if [e.name for e in got] != [e.name for e in want]:
        return
    if not ids:   # events with equal priority and name may swap places: pair them by target
        key = lambda e: (e.name, e.targets)
        got, want = sorted(got, key=key), sorted(want, key=key)
        ctx.check(what + ": same targets", [key(e) for e in got] == [key(e) for e in want])
    for g, w in zip(got, want):
        ctx.eq(what + ": times", [g.snap, g.app], [w.snap - shift, w.app - shift])
        ctx.check(what + ": data", And(g.cond == w.cond, g.flags == w.flags, g.targets == w.targets,
                  g.mod.guaranteed_crit == w.mod.guaranteed_crit, g.mod.guaranteed_dh == w.mod.guaranteed_dh,
                  g.mod.force_combo == w.mod.force_combo, g.mod.bonus_percent == w.mod.bonus_percent))
        if ids:
            ctx.check(what + ": event id", g.eid == w.eid)


def same_presses(ctx, what, got, want, shift=0):
    ctx.check(what + ": number of presses", len(got) == len(want))
    if len(got) != len(want):
        return
    for g, w in zip(got, want):
        ctx.eq(what + ": press time", g[0], w[0] - shift)
        ctx.check(what + ": press data", list(g[1:3]) == list(w[1:3]) and conds(g[3]) == conds(w[3]))


def conds(s):
    return sorted(c.strip() for c in s.split(","))


def kit(ctx, m, dmg=(True, True, True), cast=None):
    """a library with everything that leaves traces: effects, combos, gauges, follow-ups, DoTs"""
    dot = m.Skill(name="dot", damage_spec=m.DamageSpec(potency=5, damage_class=m.DamageClass.PHYSICAL_DOT))
    fu = m.Skill(name="fu", damage_spec=m.DamageSpec(potency=7))
    D = lambda i: m.DamageSpec(potency=100) if dmg[i] else None
    return [
        m.Skill(name="a", is_GCD=True, damage_spec=D(0), timing_spec=timing(m, application_delay=ctx.uint("a.delay", 0, 3000)),
                follow_up_skills=(m.FollowUp(skill=dot, delay_after_parent_application=0, dot_duration=4000),) if dmg[0] else ()),
        m.Skill(name="b", is_GCD=True, damage_spec=D(1), timing_spec=timing(m, base_cast_time=ctx.uint("b.cast", 0, 3000) if cast is None else cast, animation_lock=10),
                combo_spec=(m.ComboSpec(combo_actions=("a",)),), job_resource_spec=(m.JobResourceSpec(name="G", change=1),),
                buff_spec=m.StatusEffectSpec(duration=5000, add_to_skill_modifier_condition=True, damage_mult=1.1)),
        m.Skill(name="c", is_GCD=False, damage_spec=D(2), timing_spec=timing(m),
                follow_up_skills=(m.FollowUp(skill=fu, delay_after_parent_application=100),) if dmg[2] else ())]


RES = lambda m: {"G": m.JobResourceSettings(max_value=9, skill_allowlist=("c",))}


def fill(ctx, b, m, plan, mods):
    for how, n, t, tg in plan:
        k = dict(skill_modifier=mods.get(n), targets=tg)
        if how == "next":
            ctx.run(b.add_next, n, **k)
        else:
            ctx.run(b.add, t / 1000, n, **k)


def make(ctx, m, sks, **k):
    return m.RotationBuilder(stats(m), library(m, sks, resources=RES(m)), **k)


def plan_of(ctx, how, n, t=0):
    out = []
    for i in range(n):
        name = ctx.choice("n%d" % i, ("a", "b", "c")[: 3])
        t = t + ctx.uint("dt%d" % i, 0, 5000)
        tg = "A, B" if name == "a" else None
        out.append((how, name, t, tg))
    return out


@contract("C18", "shift", F, kind="bounded", split={"how": 2, "n0": 3, "n1": 3},
          bound="all pairs of actions (with DoT, follow-up, cast), timed or in sequence, damaging or not; all times")
def shift(ctx):
    m = M(ctx)
    how = ctx.choice("how", ("next", "at"))
    dmg = (ctx.flag("d0"), ctx.flag("d1"), True)
    sks = kit(ctx, m, dmg)
    plan = plan_of(ctx, how, 2)
    res = []
    for k in (dict(fight_start_time=0), {}):
        b = make(ctx, m, sks, **k)
        fill(ctx, b, m, plan, {})
        evs = events(ctx, ctx.run(b.get_skill_timing))
        res.append((evs, ctx.run(b.get_button_press_timing)))
    (base, bp), (got, gp) = res
    times = [e.app for e in base if e.skill.get_damage_spec(e.mod) is not None]
    first = times[0] if times else 0
    for x in times[1:]:
        first = Min(first, x)
    same_timeline(ctx, "shifted", got, base, first, ids=False)
    same_presses(ctx, "shifted", gp, bp, first)
    if times:
        hits = [e.app for e in got if e.skill.get_damage_spec(e.mod) is not None]
        ctx.check("the first damage lands at 0", And(Or([h == 0 for h in hits]), And([h >= 0 for h in hits])))
    ctx.cover("end")


@contract("C18", "shift_mixed", F, kind="bounded", split={"n0": 3, "n1": 3},
          bound="a timed action at any time, negative included, with an action in sequence (up to four on the real code)")
def shift_mixed(ctx):
    m = M(ctx)
    sks = kit(ctx, m, cast=1000)
    n = ctx.size("n", 2, 2, 4)
    plan = plan_of(ctx, "at", n, t=ctx.int("t0", -30000, 30000))
    plan = [(("at", "next")[i % 2],) + x[1:] for i, x in enumerate(plan)]
    res = []
    for k in (dict(fight_start_time=0), {}):
        b = make(ctx, m, sks, **k)
        fill(ctx, b, m, plan, {})
        evs = events(ctx, ctx.run(b.get_skill_timing))
        res.append((evs, ctx.run(b.get_button_press_timing)))
    (base, bp), (got, gp) = res
    first = base[0].app
    for e in base[1:]:
        first = Min(first, e.app)
    same_presses(ctx, "shifted", gp, bp, first)
    same_timeline(ctx, "shifted", got, base, first, ids=False)
    ctx.cover("end")


@contract("C18", "start", F, kind="bounded", bound="a sequence of two actions with any given fight start time")
def start(ctx):
    m = M(ctx)
    sks = kit(ctx, m)
    s = ctx.int("start", -20000, 20000)
    res = []
    for k in (0, s):
        b = make(ctx, m, sks, fight_start_time=k)
        fill(ctx, b, m, [("next", "a", 0, None), ("next", "b", 0, None)], {})
        res.append((events(ctx, ctx.run(b.get_skill_timing)), ctx.run(b.get_button_press_timing)))
    same_timeline(ctx, "given start", res[1][0], res[0][0], -s)
    same_presses(ctx, "given start", res[1][1], res[0][1], -s)


def build_twice(ctx, m, b, between):
    e1, p1 = events(ctx, ctx.run(b.get_skill_timing)), ctx.run(b.get_button_press_timing)
    between(b)
    return e1, p1, events(ctx, ctx.run(b.get_skill_timing)), ctx.run(b.get_button_press_timing)


@contract("C18", "again", F, kind="bounded", split={"how": 2, "n0": 3, "n1": 3, "start": 2, "use": 3},
          bound="all pairs of actions, timed or in sequence, built twice (untouched, consumed by the damage builder, lists altered); all times")
def again(ctx):
    m = M(ctx)
    how = ctx.choice("how", ("next", "at"))
    sks = kit(ctx, m)
    plan = plan_of(ctx, how, 2)
    mod = m.SkillModifier(with_condition="z", force_combo=ctx.flag("force"))
    use = ctx.choice("use", ("nothing", "damage builder", "altered"))
    st = stats(m)
    lib = library(m, sks, resources=RES(m))
    b = m.RotationBuilder(st, lib, fight_start_time=ctx.choice("start", (0, None)),
                          downtime_windows={"A": ((50, 60),)})
    fill(ctx, b, m, plan, {"b": mod})
    tl = ctx.run(b.get_skill_timing)
    e1, p1 = events(ctx, tl), ctx.run(b.get_button_press_timing)
    if use == "damage builder":
        ctx.run(m.DamageBuilder(st, lib).get_damage_instances, tl)
    elif use == "altered":
        q = ctx.run(b.get_button_press_timing)
        q[0][0] = q[0][0] + 5
        q.pop()
        ctx.run(tl.clear)
    tl2 = ctx.run(b.get_skill_timing)
    same_timeline(ctx, "built again", events(ctx, tl2), e1)
    same_presses(ctx, "built again", ctx.run(b.get_button_press_timing), p1)
    ctx.check("the caller's modifier is untouched", mod.with_condition == {"z"})
    ctx.cover("end")


@contract("C18", "added_later", F, kind="bounded", split={"how": 2, "n0": 3, "n1": 3, "start": 2},
          bound="two actions, built after the first and again after both; all times")
def added_later(ctx):
    m = M(ctx)
    how = ctx.choice("how", ("next", "at"))
    sks = kit(ctx, m)
    plan = plan_of(ctx, how, 2)
    st = ctx.choice("start", (0, None))
    fresh = make(ctx, m, sks, fight_start_time=st)
    fill(ctx, fresh, m, plan, {})
    want, wp = events(ctx, ctx.run(fresh.get_skill_timing)), ctx.run(fresh.get_button_press_timing)
    b = make(ctx, m, sks, fight_start_time=st)
    fill(ctx, b, m, plan[:1], {})
    ctx.run(b.get_skill_timing)
    fill(ctx, b, m, plan[1:], {})
    same_timeline(ctx, "after adding", events(ctx, ctx.run(b.get_skill_timing)), want)
    same_presses(ctx, "after adding", ctx.run(b.get_button_press_timing), wp)


@contract("C18", "autos_again", F, kind="bounded", split={"later": 2}, max_iter=16,
          bound="with auto-attacks: two or three actions on different targets, built twice; all times")
def autos_again(ctx):
    m = M(ctx)
    auto = m.Skill(name="Auto", is_GCD=False, timing_spec=timing(m), damage_spec=m.DamageSpec(potency=9, damage_class=m.DamageClass.AUTO))
    sks = [m.Skill(name=n, is_GCD=False, timing_spec=timing(m), damage_spec=m.DamageSpec(potency=1)) for n in ("a", "b")] + [
        m.Skill(name="h", is_GCD=False, timing_spec=timing(m), buff_spec=m.StatusEffectSpec(duration=2000, auto_attack_delay_reduction=0.2)), auto]
    adds = [(0, "a", "A"), (ctx.int("t1", 0, 2000), "h", "A"), (ctx.int("t2", 1, 6000), "b", "B")]
    later = ctx.choice("later", (0, 1))

    def mk(xs):
        b = m.RotationBuilder(stats(m, delay=2.5), library(m, sks), fight_start_time=0, enable_autos=True)
        for t, n, g in xs:
            ctx.run(b.add, t / 1000, n, targets=g)
        return b
    fresh = mk(adds)
    want, wp = events(ctx, ctx.run(fresh.get_skill_timing)), ctx.run(fresh.get_button_press_timing)
    b = mk(adds[: 3 - later])
    ctx.run(b.get_skill_timing)
    for t, n, g in adds[3 - later:]:
        ctx.run(b.add, t / 1000, n, targets=g)
    same_timeline(ctx, "with autos", events(ctx, ctx.run(b.get_skill_timing)), want)
    same_presses(ctx, "with autos", ctx.run(b.get_button_press_timing), wp)


@contract("C18", "undamaged", F, kind="bounded", split={"n": 3},
          bound="up to two actions without damage, with and without auto-attacks, timed or in sequence; all times")
def undamaged(ctx):
    m = M(ctx)
    n, how, autos, start = ctx.choice("n", (0, 1, 2)), ctx.flag("sequence"), ctx.flag("autos"), ctx.flag("start")
    sks = [m.Skill(name="Auto", is_GCD=False, damage_spec=m.DamageSpec(potency=90, damage_class=m.DamageClass.AUTO), timing_spec=timing(m))]
    lock = ctx.uint("lock", 1, 3000)
    sks += [m.Skill(name="s%d" % i, is_GCD=False, buff_spec=m.StatusEffectSpec(duration=500), timing_spec=timing(m, animation_lock=lock, application_delay=i)) for i in range(2)]
    b = m.RotationBuilder(stats(m), library(m, sks), enable_autos=autos, **(dict(fight_start_time=0) if start else {}))
    ts = [ctx.uint("t%d" % i, 0, 5000) for i in range(n)]
    if n == 2:
        ctx.assume(ts[0] != ts[1])
    for i in range(n):
        if how:
            ctx.run(b.add_next, "s%d" % i)
        else:
            ctx.run(b.add, ts[i] / 1000, "s%d" % i)
    for again in range(2):
        evs = {e.name: e for e in events(ctx, ctx.run(b.get_skill_timing))}
        ctx.check("the actions and nothing else", sorted(evs) == ["s%d" % i for i in range(n)])
        ps = {p[1]: p[0] for p in ctx.run(b.get_button_press_timing)}
        ctx.check("the presses and nothing else", sorted(ps) == ["s%d" % i for i in range(n)])
        for i in range(n):
            t = i * lock if how else ts[i]
            ctx.eq("nothing is shifted", [ps["s%d" % i], evs["s%d" % i].snap, evs["s%d" % i].app], [t, t, t + i])
    ctx.cover("end")


@contract("C18", "arguments", F, kind="bounded", split={"how": 2},
          bound="one modifier object shared by three actions whose conditions differ; downtime settings; all times")
def arguments(ctx):
    m = M(ctx)
    how = ctx.choice("how", ("next", "at"))
    sks = kit(ctx, m, cast=1000)
    mod = m.SkillModifier(with_condition="z", bonus_percent=3, ignore_application_delay=ctx.flag("nodelay"))
    wins = {"A": [(1.5, 2.5)], "B": ((70, 71, m.DamageClass.AUTO),)}
    keep = copy.deepcopy(wins)
    b = make(ctx, m, sks, fight_start_time=0, downtime_windows=wins)
    plan = [(how, "b", 0, None), (how, "c", 3000, None), (how, "a", ctx.uint("t", 3001, 9000), None)]
    fill(ctx, b, m, plan, {"a": mod, "b": mod, "c": mod})
    evs = events(ctx, ctx.run(b.get_skill_timing))
    byname = {e.name: e for e in evs}
    ctx.check("conditions of one action do not leak into another", "No Combo" in byname["b"].cond and "No Combo" not in byname["c"].cond
              and "No Combo" not in byname["a"].cond and "1 G" in byname["c"].cond and "1 G" not in byname["a"].cond)
    ctx.check("modifier untouched", And(mod.with_condition == {"z"}, mod.bonus_percent == 3, mod.force_combo is False))
    ctx.check("settings untouched", wins == keep)
    p = ctx.run(b.get_button_press_timing)
    ctx.check("presses list the stated conditions", [x[3] for x in p] == ["z"] * 3)


@contract("C18", "shift_any", F, kind="proof", no_conc=True)
def shift_any(ctx):
    """any number of events and presses; the queue is the one C12 specifies"""
    m = M(ctx)
    mod = ctx.mod("simulator.timeline_builders.rotation_builder")
    real = mod.SnapshotAndApplicationEvents
    first = ctx.int("first")
    b = m.RotationBuilder(stats(m), library(m, []))
    press = [k for k, v in vars(b).items() if v == [] and "press" in k]
    if len(press) != 1 or not hasattr(b, "_q_snapshot_and_applications"):
        ctx.unsupported("presses stored otherwise")
    seen = {}

    def event(e):
        p = e.int("primary")
        s = e.int("secondary") if e.flag("delayed") else None
        seen["e"] = (e.int("prio"), p, s, object(), object(), [object(), object()], ("A", "B"))
        q = seen["e"]
        return real.Event(q[0], real.EventTimes(p, s), q[3], q[4], q[5], q[6], e.int("id"), False, False, False)

    def step(popped, logs):
        prio, p, s, sk, mo, flags, tg = seen["e"]
        if logs:
            ctx.unsupported("events moved by other means")
        ctx.check("one event out, one event in", len(popped) == 1 and len(out.added) == 1)
        if len(out.added) != 1:
            return
        a, k = out.added[0]
        names = ("priority", "primary_time", "secondary_time", "skill", "skill_modifier", "snapshot_status", "event_id", "jr", "jc", "cc", "targets")
        d = dict(zip(names, a), **k)
        ctx.eq("order and times move by the common amount", [d["priority"], d["primary_time"]], [prio - 1000 * first, p - first])
        ctx.check("still delayed", (d["secondary_time"] is None) == (s is None))
        if s is not None:
            ctx.eq("application moves by the common amount", d["secondary_time"], s - first)
        ctx.check("data kept", And(d["skill"] is sk, d["skill_modifier"] is mo, d["snapshot_status"] is flags, d["targets"] == tg))
    q, out = ctx.queue("queue", event, step), ctx.queue("shifted", None)
    has = ctx.flag("damage")
    q.get_first_damage_time = lambda: first if has else None

    class Fake:
        def __new__(cls):
            return out
        Event, EventTimes = real.Event, real.EventTimes
    b._q_snapshot_and_applications = q
    mod.SnapshotAndApplicationEvents = Fake
    try:
        r = ctx.run(b.shift_timelines_for_first_damage_instance)
    finally:
        mod.SnapshotAndApplicationEvents = real
    if not has:
        ctx.check("nothing shifted without damage", r is q and not q.popped and not out.added)
    else:
        ctx.check("the whole queue is gone through", q.state == "drained" and r is out)
    ctx.cover("end")
