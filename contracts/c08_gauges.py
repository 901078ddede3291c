"""C08: job gauge values follow the gauge rules at every moment."""
from rotation import *

T = "trackers/job_resource_tracker.py:JobResourceTracker."
F = [T + x for x in ("__init__", "add_resource", "__clear_resources", "compile_job_resources")] + ["skills/skill.py:Skill.get_job_resource_spec"]


def value(events, q, cap, expiry):
    """replay of (start, duration, change, refreshing) in time order (made order among equals)"""
    order = []
    for e in events:
        k = len(order)
        while k > 0 and bool(e[0] < order[k - 1][0]):
            k -= 1
        order.insert(k, e)
    v, ref = 0, None
    for t, dur, ch, fresh in order:
        if not bool(t <= q):
            continue
        if ref is None:
            ref = t
        v = If(t - ref > expiry, 0, v)
        ref = If(fresh, t, ref)
        if ch == -INF:
            v = 0
        else:
            v = If(q - t > dur, v, Max(0, Min(v + ch, cap)))
    if ref is not None:
        v = If(q - ref > expiry, 0, v)
    return v


def read(ctx, s, name):
    """condition text -> reported number of the gauge (0: not reported, True: reported without number)"""
    for part in [x.strip() for x in s.split(",")]:
        if part == name:
            return True
        if part.endswith(" " + name):
            return ctx.tok(part[:-len(name) - 1])
    return 0


def skill_changing(m, specs):
    return m.Skill(name="s", job_resource_spec=tuple(specs))


def event(ctx, m, p, name="G", plain=False):
    e = (ctx.int(p + "t"), INF if plain else ctx.int_or_inf(p + "dur", 0), ctx.int(p + "change", -100, 100),
         False if plain else ctx.bool(p + "refresh"))
    return e, m.JobResourceSpec(name=name, change=e[2], duration=e[1], refreshes_duration_of_last_gained=e[3])


def query(ctx, m, tr, evs, q, cap, expiry, name="G"):
    s = ctx.run(tr.compile_job_resources, q, m.Skill(name="x"))
    want = value(evs, q, cap, expiry)
    got = read(ctx, s, name)
    ctx.eq("gauge value", got, want)
    ctx.check("never above its maximum, never negative", And(got >= 0, got <= cap))


@contract("C08", "replay", F, kind="bounded", split={"n": 3, "expiry.inf": 2, "e0.dur.inf": 2},
          bound="one gauge, at most 3 changes made in any order of times, one query; all numbers unbounded")
def replay(ctx):
    m = M(ctx)
    cap = ctx.uint("cap", 1, 100)
    expiry = ctx.int_or_inf("expiry", 0)
    n = ctx.choice("n", (1, 2, 3))
    tr = m.JobResourceTracker({"G": m.JobResourceSettings(max_value=cap, skill_allowlist=("x", "z"), expiry_from_last_gain=expiry)})
    evs = []
    for i in range(n):
        e, spec = event(ctx, m, "e%d." % i)
        if i == 2:
            ctx.assume(e[0] > evs[1][0])
        ctx.run(tr.add_resource, e[0], skill_changing(m, [spec]), m.SkillModifier())
        evs.append(e)
    query(ctx, m, tr, evs, ctx.int("q"), cap, expiry)
    ctx.cover("end")


@contract("C08", "queries", F, kind="bounded", split={"clear": 3},
          bound="one gauge, two changes and optionally a clearing action, queried between and after; all numbers unbounded")
def queries(ctx):
    """earlier queries do not influence later ones"""
    m = M(ctx)
    cap = ctx.uint("cap", 1, 100)
    expiry = INF
    tr = m.JobResourceTracker({"G": m.JobResourceSettings(max_value=cap, skill_allowlist=("x",)),
                               "H": m.JobResourceSettings(max_value=100, skill_allowlist=("x",))})
    evs = []
    where = ctx.choice("clear", (None, 0, 1))
    hv = ctx.int("h", 1, 100)
    th = ctx.int("th")
    ctx.run(tr.add_resource, th, skill_changing(m, [m.JobResourceSpec(name="H", change=hv)]), m.SkillModifier())
    hev = [(th, INF, hv, False)]
    for i in range(2):
        e, spec = event(ctx, m, "e%d." % i, plain=i == 1)
        ctx.run(tr.add_resource, e[0], skill_changing(m, [spec]), m.SkillModifier())
        evs.append(e)
        if where == i:
            tc = ctx.int("tc")
            ctx.run(tr.add_resource, tc, skill_changing(m, [m.JobResourceSpec(clear_all_resources_only=True)]), m.SkillModifier())
            evs.append((tc, INF, -INF, False))
            hev.append((tc, INF, -INF, False))
        if i == 0:
            ctx.run(tr.compile_job_resources, ctx.int("q0"), m.Skill(name="x"))
    q = ctx.int("q")
    s = ctx.run(tr.compile_job_resources, q, m.Skill(name="x"))
    ctx.eq("gauge value", read(ctx, s, "G"), value(evs, q, cap, expiry))
    ctx.eq("other gauge's value", read(ctx, s, "H"), value(hev, q, 100, INF))
    ctx.cover("end")


@contract("C08", "cleared", F, kind="bounded", split={"more": 4},
          bound="a gain, an action that clears all gauges and may also give one, a query; all numbers unbounded")
def cleared(ctx):
    m = M(ctx)
    tr = m.JobResourceTracker({n: m.JobResourceSettings(max_value=100, skill_allowlist=("x",)) for n in ("G", "H")})
    t, tc, q, v, w = ctx.int("t"), ctx.int("tc"), ctx.int("q"), ctx.int("gain", 1, 100), ctx.int("again", 1, 100)
    clear, more = m.JobResourceSpec(clear_all_resources_only=True), ctx.choice("more", ("nothing", "after", "before", "both"))
    g, h = m.JobResourceSpec(name="G", change=v), m.JobResourceSpec(name="H", change=w)
    ctx.run(tr.add_resource, t, skill_changing(m, [g, h]), m.SkillModifier())
    ctx.run(tr.add_resource, tc, skill_changing(m, {"nothing": [clear], "after": [clear, h], "before": [h, clear], "both": [g, clear, h]}[more]), m.SkillModifier())
    s = ctx.run(tr.compile_job_resources, q, m.Skill(name="x"))
    gone = (tc, INF, -INF, False)
    ev = {"G": [(t, INF, v, False)] + ([(tc, INF, v, False)] if more == "both" else []) + [gone],
          "H": [(t, INF, w, False)] + ([(tc, INF, w, False)] if more == "before" else []) + [gone] + ([(tc, INF, w, False)] if more in ("after", "both") else [])}
    for n in ("G", "H"):
        ctx.eq("gauge value", read(ctx, s, n), value(ev[n], q, 100, INF))
    ctx.cover("end")


@contract("C08", "reporting", F, kind="bounded", bound="two gauges changed by one action; three reading actions")
def reporting(ctx):
    m = M(ctx)
    names = ("G", "big H")
    num = [ctx.flag("number%d" % i) for i in range(2)]
    allow = [ctx.choice("allow%d" % i, ((), ("x",), ("x", "y"), ("y",))) for i in range(2)]
    cap = [ctx.uint("cap%d" % i, 1, 100) for i in range(2)]
    ch = [ctx.int("change%d" % i, -100, 100) for i in range(2)]
    tr = m.JobResourceTracker({names[i]: m.JobResourceSettings(max_value=cap[i], skill_allowlist=allow[i], add_number_to_conditional=num[i]) for i in range(2)})
    t, q = ctx.int("t"), ctx.int("q")
    ctx.run(tr.add_resource, t, skill_changing(m, [m.JobResourceSpec(name=names[i], change=ch[i]) for i in range(2)]), m.SkillModifier())
    for who in ("x", "y", "z"):
        s = ctx.run(tr.compile_job_resources, q, m.Skill(name=who))
        parts = [x.strip() for x in s.split(",") if x.strip()]
        n = 0
        for i in range(2):
            got = read(ctx, s, names[i])
            v = value([(t, INF, ch[i], False)], q, cap[i], INF)
            if who not in allow[i]:
                ctx.check("not reported to actions off the allow list", got is not True and eq(got, 0))
            elif bool(v > 0):
                n += 1
                ctx.check("reported as configured", (got is True) == (not num[i]))
                if num[i]:
                    ctx.eq("reported number", got, v)
            else:
                ctx.check("nothing reported at 0", got is not True and eq(got, 0))
        ctx.check("nothing else reported", len(parts) == n)
    o = ctx.call(tr.add_resource, t, skill_changing(m, [m.JobResourceSpec(name="unknown", change=1)]), m.SkillModifier())
    ctx.check("unknown gauge refused", not o.ok)
    ctx.cover("end")


@contract("C08", "in_rotation", F + [RB + x for x in ("__process_q_timed", "__process_q_sequence", "__process_skill", "__process_non_dot_follow_up_skill")],
          kind="bounded", split={"how": 2, "by": 2},
          bound="an action changing a gauge itself or by its follow-up, then one whose variant needs it; all times, casts and delays")
def in_rotation(ctx):
    """the moment a gain happens: the snapshot of the action, the application of a follow-up"""
    m = M(ctx)
    how, by = ctx.choice("how", ("timed", "sequence")), ctx.choice("by", ("action", "follow-up"))
    cast, delay, d = ctx.uint("cast", 0, 3000), ctx.uint("delay", 0, 2000), ctx.uint("fu.delay", 0, 3000)
    gap, dur = ctx.uint("gap", 0, 9000), ctx.uint("duration", 0, 4000)
    gain = (m.JobResourceSpec(name="G", change=1, duration=dur),)
    fu = m.Skill(name="f", is_GCD=False, job_resource_spec=gain if by == "follow-up" else ())
    a = m.Skill(name="a", is_GCD=False, timing_spec=timing(m, base_cast_time=cast, application_delay=delay, animation_lock=gap),
                job_resource_spec=gain if by == "action" else (),
                follow_up_skills=(m.FollowUp(skill=fu, delay_after_parent_application=d),))
    s = m.Skill(name="s", is_GCD=False, timing_spec={"": timing(m), "G": timing(m, application_delay=7)})
    b = m.RotationBuilder(stats(m), library(m, [a, s], resources={"G": m.JobResourceSettings(max_value=5, skill_allowlist=("s",), add_number_to_conditional=False)}),
                          fight_start_time=0)
    if how == "timed":
        ctx.run(b.add, 0, "a")
        ctx.run(b.add, gap / 1000, "s")
    else:
        ctx.run(b.add_next, "a")
        ctx.run(b.add_next, "s")
    evs = {e.name: e for e in events(ctx, ctx.run(b.get_skill_timing))}
    ctx.check("both actions", "a" in evs and "s" in evs and "f" in evs)
    at = evs["a"].snap if by == "action" else evs["f"].app
    has = And(at <= gap, gap - at <= dur)
    ctx.eq("the variant for the gauge used exactly while it is there", evs["s"].app - evs["s"].snap, If(has, 7, 0))
    ctx.cover("end")


@contract("C08", "replay_any", F, kind="proof", report_unreplayed=False)
def replay_any(ctx):
    """any number of changes, in any order"""
    m = M(ctx)
    cap = ctx.uint("cap", 1, 100)
    expiry = ctx.int_or_inf("expiry", 0)
    q = ctx.int("q")

    def new():
        return m.JobResourceTracker({"G": m.JobResourceSettings(max_value=cap, skill_allowlist=("x", "z"), expiry_from_last_gain=expiry),
                                     "H": m.JobResourceSettings(max_value=100, skill_allowlist=("y",))})

    def make(at):
        if at.flag("clear"):
            return (at.int("t"), INF, -INF, False), m.JobResourceSpec(clear_all_resources_only=True)
        return event(at, m, "")
    evs = ctx.seq("events", make, sorted_by=lambda e: e[0][0])
    tr = new()
    record(ctx, tr, evs, new, lambda tr, e: ctx.run(tr.add_resource, e[0][0], skill_changing(m, [e[1]]), m.SkillModifier()))

    def step(a, e):
        (t, dur, ch, fresh), _ = e
        if not bool(t <= q):
            return a
        ref = t if a["ref"] is None else a["ref"]
        v = If(t - ref > expiry, 0, a["v"])
        ref = If(fresh, t, ref)
        if ch == -INF:
            v = 0
        else:
            v = If(q - t > dur, v, Max(0, Min(v + ch, cap)))
        return {"v": v, "ref": ref}
    f = ctx.fold(evs, {"v": 0, "ref": None}, step, inv=lambda a: And(a["v"] >= 0, a["v"] <= cap), ints=True)
    s = ctx.run(tr.compile_job_resources, q, m.Skill(name="x"))
    want = f.total
    v = want["v"] if want["ref"] is None else If(q - want["ref"] > expiry, 0, want["v"])
    ctx.eq("gauge value", read(ctx, s, "G"), v)
    ctx.cover("end")
