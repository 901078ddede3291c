"""C17: auto-attacks keep their cadence and respect casts and downtime."""
from rotation import *
from effects import Eff, Model
from c15_timing import abstract_trackers

F = [RB + x for x in ("get_skill_timing", "__add_autos", "__get_next_auto_time", "forward_to_next_non_downtime_time",
                      "get_no_auto_periods", "__get_applicable_status_effects", "__assemble_speed_status_effects_timeline",
                      "set_enable_autos", "__get_cast_time")] + ["utils.py:Utils.truncate_to_digit"]


def trunc10(x):
    return 10 * floor(div(x, 10))


def auto_skill(m, delay, name="Auto"):
    return m.Skill(name=name, is_GCD=False, timing_spec=timing(m, application_delay=delay),
                   damage_spec=m.DamageSpec(potency=90, damage_class=m.DamageClass.AUTO))


def act(m, name, dmg=True, **k):
    tm = {x: k.pop(x) for x in ("base_cast_time", "application_delay") if x in k}
    return m.Skill(name=name, is_GCD=False, timing_spec=timing(m, **tm), damage_spec=m.DamageSpec(potency=100) if dmg else None, **k)


def model(first, last, ad, step, target, forward):
    """autos as (snapshot, application, target)"""
    out, t = [], first
    while bool(t + ad < last):
        g = target(t)
        out.append((t, t + ad, g))
        t = forward(t + step(t), g)
    return out


def verify(ctx, evs, want, name="Auto"):
    got = sorted([e for e in evs if e.name == name], key=lambda e: e.snap)
    ctx.check("number of autos", len(got) == len(want))
    if len(got) != len(want):
        return
    for e, (s, a, g) in zip(got, want):
        ctx.eq("auto's times", [e.snap, e.app], [s, a])
        ctx.check("auto's target", e.targets == (g,))
        ctx.check("auto snapshots everything when it starts", e.flags == [True, True])


def build(ctx, m, sks, adds, delay, job=JOB, start=0, **k):
    b = m.RotationBuilder(stats(m, job=job, delay=delay / 1000), library(m, sks, job=job), fight_start_time=start,
                          **dict(dict(enable_autos=True), **k))
    for x in adds:
        ctx.run(b.add, x[0] / 1000, x[1], targets=x[2] if len(x) > 2 else None)
    return b


DEF = "Default Target"


@contract("C17", "cadence", F, kind="bounded", max_iter=10, split={"job": 2, "on": 3, "start": 2},
          bound="two actions less than 3 weapon delays apart; all times, delays and weapon delays, with and without trait haste")
def cadence(ctx):
    m = M(ctx)
    job = ctx.choice("job", (JOB, "test_job_haste"))
    delay = ctx.int("weapon_delay", 1000, 6000)
    mult = Fraction(4, 5) if job == "test_job_haste" else 1
    on = ctx.choice("on", ("constructor", "setter", "off"))
    ad = ctx.int("auto_delay", 0, 2000)
    d0, d1 = ctx.int("d0", 0, 2000), ctx.int("d1", 0, 2000)
    t0 = ctx.int("t0", 0, 9000)
    gap = ctx.int("gap", 0, 12000)
    ctx.assume(gap + 2000 < 3 * trunc10(delay * mult))
    start = ctx.choice("start", (0, None))
    nm = "Shot" if ctx.flag("shot") else "Auto"
    sks = [act(m, "s0", application_delay=d0), act(m, "s1", dmg=ctx.flag("s1.damage"), application_delay=d1), auto_skill(m, ad, nm)]
    if nm == "Shot":
        sks.append(auto_skill(m, 77, "Auto"))
    b = build(ctx, m, sks, [(t0, "s0"), (t0 + gap, "s1")], delay, job=job, start=start, enable_autos=on == "constructor")
    if on == "setter":
        ctx.run(b.set_enable_autos, True)
    evs = events(ctx, ctx.run(b.get_skill_timing))
    first = t0 + d0 if sks[1].damage_spec is None else Min(t0 + d0, t0 + gap + d1)
    last = Max(t0 + d0, t0 + gap + d1)
    want = [] if on == "off" else model(first, last, ad, lambda t: trunc10(delay * mult), lambda t: DEF, lambda t, g: t)
    sh = first if start is None else 0
    verify(ctx, evs, [(s - sh, a - sh, g) for s, a, g in want], nm)
    ctx.check("the actions stay", sorted(e.name for e in evs if e.name != nm) == ["s0", "s1"])
    ctx.cover("end")


@contract("C17", "trailing", F, kind="bounded", max_iter=10, bound="a DoT of up to two ticks; with and without trailing ticks; all times")
def trailing(ctx):
    m = M(ctx)
    dur = ctx.int("dur", 0, 6000)
    gap = ctx.int("gap", 0, 5000)
    ign = ctx.flag("ignore")
    dot = m.Skill(name="dot", damage_spec=m.DamageSpec(potency=5, damage_class=m.DamageClass.PHYSICAL_DOT))
    s0 = act(m, "s0", follow_up_skills=(m.FollowUp(skill=dot, delay_after_parent_application=0, dot_duration=dur),))
    b = build(ctx, m, [s0, act(m, "s1"), auto_skill(m, 0)], [(0, "s0"), (gap, "s1")], 2000, ignore_trailing_dots=ign)
    evs = events(ctx, ctx.run(b.get_skill_timing))
    last = gap if ign else Max(gap, 3000 if bool(dur > 3000) else 0)
    verify(ctx, evs, model(0, last, 0, lambda t: 2000, lambda t: DEF, lambda t, g: t))


@contract("C17", "effects", F, kind="bounded", max_iter=20, split={"kind": 3, "also": 2},
          bound="an effect speeding up autos starting after any delay, for any duration; up to 4 autos")
def effects(ctx):
    m = M(ctx)
    kind = ctx.choice("kind", ("buff", "debuff", "both"))
    dur, dl, t1 = ctx.uint("dur", 0, 9000), ctx.int("delay", 0, 3000), ctx.int("t1", 0, 3000)
    e = Eff(duration=dur, auto=0.25)
    also = ctx.choice("also", (False, True))
    e2 = Eff(duration=4000, auto=0.5)
    h = m.Skill(name="h", is_GCD=False, timing_spec=timing(m, application_delay=dl),
                buff_spec=e.build(m) if kind != "debuff" else None, debuff_spec=e.build(m) if kind != "buff" else None)
    h2 = m.Skill(name="h2", is_GCD=False, timing_spec=timing(m), buff_spec=e2.build(m))
    last = ctx.int("last", 0, 5000)
    app = t1 + dl
    end = Max(Max(last, app), 1500 if also else 0)
    ctx.assume(end <= 5000)
    if also and bool(app == 1500):
        ctx.stop()
    adds = [(0, "s0"), (last, "s1"), (t1, "h")] + ([(1500, "h2")] if also else [])
    b = build(ctx, m, [act(m, "s0"), act(m, "s1"), h, h2, auto_skill(m, 0)], adds, 2504)
    evs = events(ctx, ctx.run(b.get_skill_timing))

    def step(t):
        x = 1
        on = bool(And(app <= t, t <= app + dur))
        if kind in ("buff", "both") and on:
            x = x * Fraction(3, 4)
        if kind in ("debuff", "both") and on:
            x = x * Fraction(3, 4)
        if also and bool(And(1500 <= t, t <= 5500)):
            x = x * Fraction(1, 2)
        return trunc10(2504 * x)
    verify(ctx, evs, model(0, end, 0, step, lambda t: DEF, lambda t, g: t))
    ctx.cover("end")


@contract("C17", "casts", F, kind="bounded", max_iter=10, split={"what": 4},
          bound="two casts, or a cast and a channel (interrupted or not), at any times; up to 4 autos")
def casts(ctx):
    m = M(ctx)
    what = ctx.choice("what", ("cast", "channel", "interrupted", "waived"))
    t1, t2 = ctx.uint("t1", 0, 6000), ctx.uint("t2", 0, 6000)
    c1, c2 = ctx.int("c1", 0, 4000), ctx.int("c2", 0, 4000)
    gap = ctx.choice("delay", (2500,))
    sks = [act(m, "s0"), auto_skill(m, 0), act(m, "end", dmg=False), act(m, "c1", dmg=False, base_cast_time=c1)]
    adds = [(0, "s0"), (t1, "c1")]
    per = [(t1, t1 + c1)] if bool(c1 > 0) else []
    apps = [0, t1 + c1]
    if what in ("cast", "waived"):
        sks.append(act(m, "c2", dmg=False, base_cast_time=c2))
        adds.append((t2, "c2"))
        if what == "cast":
            per += [(t2, t2 + c2)] if bool(c2 > 0) else []
            apps.append(t2 + c2)
        else:
            apps.append(t2)
    else:
        ctx.assume(Or(t1 < t2, t1 > t2))
        sks.append(act(m, "c2", dmg=False, channeling_spec=m.ChannelingSpec(
            duration=c2, skill_allowlist=("c1",) if what == "channel" else (), num_uses=math.inf)))
        adds.append((t2, "c2"))
        e = t2 + c2
        if what == "interrupted" and bool(t2 < t1):
            e = Min(e, t1)
        per.append((t2, e))
        apps.append(t2)
    last = 0
    for a in apps:
        last = Max(last, a)
    ctx.assume(last <= 7000)
    b = build(ctx, m, sks, [], gap)
    for t, n in adds:
        ctx.run(b.add, t / 1000, n, skill_modifier=m.SkillModifier(ignore_cast_times=True) if n == "c2" and what == "waived" else None)
    evs = events(ctx, ctx.run(b.get_skill_timing))

    def forward(t, g):
        hit = [e for (s, e) in per if bool(And(s <= t, t <= e))]
        r = t
        for i, e in enumerate(hit):
            r = e if i == 0 else Max(r, e)
        return r
    want = model(0, last, 0, lambda t: gap, lambda t: DEF, forward)
    verify(ctx, evs, want)
    ctx.cover("end")


@contract("C17", "downtime", F, kind="bounded", max_iter=10, split={"kind": 3, "start": 2},
          bound="one downtime window of any kind at any time; up to 4 autos")
def downtime(ctx):
    m = M(ctx)
    kind = ctx.choice("kind", (None, "AUTO", "DIRECT"))
    tgt = ctx.choice("target", (DEF, "other", "all"))
    a = ctx.int("a", -1000, 9000)
    b_ = a + ctx.uint("len", 0, 9000)
    start = ctx.choice("start", (0, None))
    d0 = ctx.int("d0", 0, 1500)
    last = ctx.int("last", 0, 7000)
    w = ((a / 1000, b_ / 1000) + ((getattr(m.DamageClass, kind),) if kind else ()),)
    b = build(ctx, m, [act(m, "s0", application_delay=d0), act(m, "s1", dmg=False), auto_skill(m, 0)],
              [(0, "s0"), (last, "s1")], 2500, start=start, downtime_windows=w if tgt == "all" else {tgt: w})
    evs = events(ctx, ctx.run(b.get_skill_timing))
    off = d0 if start is None else 0
    blocks = kind != "DIRECT" and tgt in (DEF, "all")

    def inside(t):
        return blocks and bool(And(a <= t - off, t - off < b_))
    want = model(d0, Max(last, d0), 0, lambda t: 2500, lambda t: DEF, lambda t, g: b_ + off if inside(t) else t)
    want = [x for x in want if not inside(x[0])]      # the first auto may itself fall into downtime (C13)
    verify(ctx, evs, [(s - off, x - off, g) for s, x, g in want])
    ctx.cover("end")


@contract("C17", "downtime_then_cast", F, kind="bounded", max_iter=10, bound="one downtime window and one cast at any times; up to 3 autos")
def downtime_then_cast(ctx):
    m = M(ctx)
    a = ctx.int("a", 0, 6000)
    b_ = a + ctx.uint("len", 0, 6000)
    t1, c1 = ctx.uint("t1", 0, 6000), ctx.int("c1", 1, 4000)
    ctx.assume(t1 + c1 <= 6000)
    AUTO = m.DamageClass.AUTO
    b = build(ctx, m, [act(m, "s0"), act(m, "c1", dmg=False, base_cast_time=c1), act(m, "end", dmg=False), auto_skill(m, 0)],
              [(0, "s0"), (t1, "c1"), (6000, "end")], 2500, downtime_windows=((a / 1000, b_ / 1000, AUTO),))
    evs = events(ctx, ctx.run(b.get_skill_timing))
    inside = lambda t: bool(And(a <= t, t < b_))

    def forward(t, g):
        t = b_ if inside(t) else t
        return t1 + c1 if bool(And(t1 <= t, t <= t1 + c1)) else t
    want = [x for x in model(0, 6000, 0, lambda t: 2500, lambda t: DEF, forward) if not inside(x[0])]
    verify(ctx, evs, want)


@contract("C17", "targets", F, kind="bounded", max_iter=10, split={"g0": 2, "g1": 3, "g2": 3},
          bound="three actions at any times with any main targets; up to 4 autos")
def targets(ctx):
    m = M(ctx)
    tg = [ctx.choice("g0", ("A", "B")), ctx.choice("g1", ("A", "B", "C,A")), ctx.choice("g2", ("A", "B", "C"))]
    ts = [0, ctx.int("t1", 1, 7000), ctx.int("t2", 1, 7000)]
    ctx.assume(Not(ts[1] == ts[2]))
    names = ["s0", "s1", "s2"]
    b = build(ctx, m, [act(m, n) for n in names] + [auto_skill(m, 0)], list(zip(ts, names, tg)), 2500)
    evs = events(ctx, ctx.run(b.get_skill_timing))

    def target(t):
        best = 0
        for i in (1, 2):
            if bool(And(ts[i] <= t, ts[i] >= ts[best])):
                best = i
        return tg[best].split(",")[0]
    verify(ctx, evs, model(0, Max(ts[1], ts[2]), 0, lambda t: 2500, target, lambda t, g: t))
    ctx.cover("end")


@contract("C17", "effects_end", F, kind="bounded", max_iter=20, split={"what": 6, "on": 2},
          bound="an effect speeding up autos, then renewed, ended, cleared or given in another variant, at any times; up to 4 autos")
def effects_end(ctx):
    m = M(ctx)
    what = ctx.choice("what", ("again", "no extension", "ended", "cleared", "variant", "other ended"))
    on = ctx.choice("on", ("buff", "debuff"))
    dur, t1, t2 = ctx.uint("dur", 0, 9000), ctx.int("t1", 0, 3000), ctx.int("t2", 0, 4000)
    ctx.assume(Not(t1 == t2))
    e = Eff(duration=dur, auto=0.25, extends=what != "no extension")
    x = Eff(duration=0, expires=("h",) if what == "ended" else ("o",) if what == "other ended" else (), clear=what == "cleared")
    field = on + "_spec"
    if what == "variant":
        slow = Eff(duration=dur, auto=0.5)
        h = m.Skill(name="h", is_GCD=False, timing_spec=timing(m), **{field: {"": e.build(m), "Fast": slow.build(m), "None": None}})
    else:
        h = m.Skill(name="h", is_GCD=False, timing_spec=timing(m), **{field: e.build(m)})
    sx = m.Skill(name="x", is_GCD=False, timing_spec=timing(m), **{field: x.build(m)})
    end = ctx.int("last", 5000, 6000)
    b = build(ctx, m, [act(m, "s0"), act(m, "s1"), h, sx, auto_skill(m, 0)], [(0, "s0"), (end, "s1")], 2504)
    first = e
    if what == "variant":
        v = ctx.choice("variant", ("Fast", "None"))
        first = slow if v == "Fast" else None
        ctx.run(b.add, t1 / 1000, "h", skill_modifier=m.SkillModifier(with_condition=v))
    else:
        ctx.run(b.add, t1 / 1000, "h")
    ctx.run(b.add, t2 / 1000, "h" if what in ("again", "no extension", "variant") else "x")
    evs = events(ctx, ctx.run(b.get_skill_timing))
    acts = [(t1, "h", first), (t2, "h", e) if what in ("again", "no extension", "variant") else (t2, "x", x)]
    if bool(t2 < t1):
        acts.reverse()
    if what == "cleared" and on == "debuff":
        ctx.stop()          # clears the user's own effects: C05

    def step(t):
        mod = Model()
        for at, n, f in acts:
            if f is not None and bool(at <= t):
                mod.expire(at)
                mod.apply(at, n, f if on == "buff" else None, f if on == "debuff" else None, (DEF,))
        mod.expire(t)
        r = 1
        for d in [mod.buffs] + list(mod.debuffs.values()):
            for n in d:
                r = r * (1 - ex(d[n][3].auto))
        return trunc10(2504 * r)
    verify(ctx, evs, model(0, end, 0, step, lambda t: DEF, lambda t, g: t))
    ctx.cover("end")


@contract("C17", "cadence_any", F, kind="proof", no_conc=True)
def cadence_any(ctx):
    """any number of autos: an arbitrary one, and when the next follows.  First and last event and the effects at each
    auto are whatever the contracts of the parts allow (C12, C05)."""
    any_autos(ctx, "plain")


@contract("C17", "interrupted_any", F, kind="bounded", no_conc=True, split={"world": 3},
          bound="any number of autos; two casts, or one downtime window, or three actions on two targets, at any times")
def interrupted_any(ctx):
    any_autos(ctx, ctx.choice("world", ("casts", "downtime", "targets")))


def any_autos(ctx, world):
    m = M(ctx)
    mod = ctx.mod("simulator.timeline_builders.rotation_builder")
    delay = ctx.int("weapon_delay", 1000, 6000) if world == "plain" else 2504
    ad = ctx.int("auto_delay", 0, 2000)
    first, last = ctx.int("first"), ctx.int("last")
    per = [(ctx.int("p%d" % i), ctx.int("q%d" % i)) for i in range(2)] if world == "casts" else []
    for p, q in per:
        ctx.assume(p <= q)
    a = ctx.int("a", -1000, 9000)
    b_ = a + ctx.uint("len", 0, 9000)
    presses = [(0, "A")] + ([(ctx.uint("t1", 1), "B"), (ctx.uint("t2", 1), "A")] if world == "targets" else [])
    if world == "targets":
        ctx.assume(presses[1][0] < presses[2][0])

    class El:
        pass

    def make(at):
        e = El()
        e.b, e.d = (at.choice("b", (1, 0.75)), at.choice("d", (1, 0.9))) if world == "plain" else (1, 1)
        e.buffs, e.debuffs = m.StatusEffects(auto_attack_delay_mult=e.b), m.StatusEffects(auto_attack_delay_mult=e.d)
        return e

    def target(t):
        j = 0
        for i in range(1, len(presses)):
            if bool(presses[i][0] <= t):
                j = i
        return j

    def step(x, e):
        t = x["t"] + trunc10(delay * ex(e.b) * ex(e.d))
        if world == "downtime" and bool(And(a <= t, t < b_)):
            t = b_
        hit = [q for p, q in per if bool(And(p <= t, t <= q))]
        for i, q in enumerate(hit):
            t = q if i == 0 else Max(t, q)
        return {"t": t, "j": target(x["t"])}
    adds = []

    class Events:
        """C12: the events so far"""
        _vc_spec_ = True

        def get_first_damage_time(self):
            return first

        def get_last_event_time(self):
            return last

        def get_q(self):
            return []

        def is_empty(self):
            return True

        def add(self, prio, snap, app, skill, mod_, flags, targets=None):
            if skill.name == "Auto":
                ctx.mark(seq)
                adds.append((prio, snap, app, skill, flags, targets))

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            ctx.unsupported("queue operation " + n)

    def effects(which):
        def get(t):
            if seq.cur is None:
                return m.StatusEffects()
            ctx.eq("effects at the time of the auto", t, f.at(seq.cur)["t"])
            return getattr(seq.at(seq.cur), which)
        return get

    def on_step(k, logs):
        x = f.at(k.z)
        ctx.check("one auto", len(adds) == 1)
        if len(adds) == 1:
            pr, s, ap, sk, fl, tg = adds[0]
            ctx.eq("auto's times", [s, ap], [x["t"], x["t"] + ad])
            ctx.check("auto's target", tg == (presses[target(x["t"])][1],))
            ctx.check("auto snapshots everything when it starts", fl == [True, True])
    seq = ctx.seq("autos", make, on_step=on_step)

    def inv(x):
        """the main target at the auto before: pressed before it, and before this one"""
        j = x["j"]
        return And(Or(*[j == i for i in range(len(presses))]), *[Implies(j == i, presses[i][0] <= x["t"]) for i in range(1, len(presses))])
    f = ctx.fold(seq, {"t": first, "j": 0}, step, inv=inv, ints=world != "plain")
    f.derive(lambda x: x["t"] + ad)
    ctx.ghost(seq, lambda k: f.at(k.z)["t"] + ad < last)
    abstract_trackers(ctx, mod, effects("buffs"), effects("debuffs"))
    if not hasattr(mod, "SnapshotAndApplicationEvents"):
        ctx.unsupported("events kept otherwise")
    mod.SnapshotAndApplicationEvents = Events
    w = {"A": ((a / 1000, b_ / 1000),), "B": ((-50, 10 ** 6, m.DamageClass.PET),)} if world == "downtime" else {}
    b = build(ctx, m, [act(m, "s", dmg=True), auto_skill(m, ad)], [(t, "s", g) for t, g in presses], delay, downtime_windows=w)
    b.get_no_auto_periods = lambda: list(per)
    ctx.run(b.get_skill_timing)
    ctx.cover("end")


@contract("C17", "mix", F, kind="bounded", no_sym=True,
          bound="on the real code (sampled): up to 8 actions (hits, casts, speed effects, effects that end them) on two targets, up to two downtime windows, up to 20 autos")
def mix(ctx):
    m = M(ctx)
    n = ctx.size("n", 2, 4, 8)
    ad = ctx.int("auto_delay", 0, 1500)
    dur, red = ctx.uint("dur", 500, 15000), ctx.choice("reduction", (0.25, 0.5, 0.125))
    e, x = Eff(duration=dur, auto=red), Eff(duration=0, expires=("h",))
    sks = [act(m, "hit"), auto_skill(m, ad), act(m, "x", dmg=False, buff_spec=x.build(m)), act(m, "h", dmg=False, buff_spec=e.build(m))]
    t, adds, per, effs, apps, mains = 0, [(0, "hit", "A")], [], [], [0], [(0, "A")]
    for i in range(n):
        t = t + ctx.int("gap%d" % i, 1, 8000)
        k, g = ctx.choice("k%d" % i, ("hit", "cast", "h", "x")), ctx.choice("g%d" % i, ("A", "B"))
        if k == "cast":
            c = ctx.int("c%d" % i, 1, 4000)
            sks.append(act(m, "cast%d" % i, dmg=False, base_cast_time=c))
            per.append((t, t + c))
            apps.append(t + c)
            adds.append((t, "cast%d" % i, g))
        else:
            adds.append((t, k, g))
            apps.append(t)
            if k in "hx":
                effs.append((t, k))
        mains.append((t, g))
    last = max(apps)
    ctx.assume(last <= 25000)
    wins, w0 = {"A": [], "B": []}, -500
    for i in range(ctx.size("windows", 0, 1, 2)):
        w0 = w0 + ctx.int("w%d" % i, 0, 12000)
        w1 = w0 + ctx.int("l%d" % i, 0, 9000)
        kind = ctx.choice("wk%d" % i, (None, "AUTO", "DIRECT"))
        for g in ctx.choice("wg%d" % i, ("A", "B", "AB")):
            wins[g].append((w0, w1, kind))
        w0 = w1
    dw = {g: tuple((p / 1000, q / 1000) + ((getattr(m.DamageClass, k),) if k else ()) for p, q, k in v) for g, v in wins.items() if v}
    b = build(ctx, m, sks, adds, 2504, downtime_windows=dw)
    evs = events(ctx, ctx.run(b.get_skill_timing))

    def step(t):
        s = None
        for at, k in effs:
            if at <= t:
                s = None if k == "x" else (at, at + dur) if s is None or s[1] < at else (s[0], at + dur)
        return trunc10(2504 * (1 - ex(red))) if s is not None and t <= s[1] else 2500

    def inside(t, g):
        hit = [q for p, q, k in wins[g] if k != "DIRECT" and p <= t < q]
        return hit[0] if hit else None

    def forward(t, g):
        q = inside(t, g)
        t = t if q is None else q
        return max([q for p, q in per if p <= t <= q], default=t)
    want = model(0, last, ad, step, lambda t: [g for at, g in mains if at <= t][-1], forward)
    verify(ctx, evs, [x for x in want if inside(x[0], x[2]) is None and inside(x[1], x[2]) is None])      # C13
    ctx.cover("end")
