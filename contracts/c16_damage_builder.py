"""C16: each hit uses the effects of its own snapshot, once per target."""
from rotation import *
from effects import Eff, Model

DB = "timeline_builders/damage_builder.py:DamageBuilder."
F = [DB + "__init__", DB + "get_damage_instances", DB + "__is_application_time"]
STAGGER = 135


class E:
    """an event of the timeline, as the specification sees it"""

    def __init__(self, name, snap, app, targets=("A",), flags=(True, True), dmg=True, buff=None, debuff=None, cond="", extra=None,
                 variant=False):
        """variant: the effects are given by the variant for the condition "x", which holds"""
        self.__dict__.update(locals())
        self.extra = extra or {}
        self.immediate = app is None or bool(snap == app)

    def skill(self, m):
        return m.Skill(name=self.name, damage_spec=m.DamageSpec(potency=100) if self.dmg else None,
                       buff_spec=self.effect(m, self.buff), debuff_spec=self.effect(m, self.debuff), **self.extra)

    def effect(self, m, e):
        if e is None:
            return None
        return {"": Eff(duration=77, dmg=9).build(m), "x": e.build(m)} if self.variant else e.build(m)

    def hit_time(self, i):
        return (self.snap if self.immediate else self.app) + (STAGGER * i if len(self.targets) > 1 else 0)


def phases(ctx, evs):
    """[(time, event, target index or None for the snapshot)] in time order; same-instant phases of
    different events are not claimed (the path is dropped)"""
    ph = []
    for e in evs:
        if e.immediate:
            ph.append((e.snap, e, "both"))
        else:
            ph.append((e.snap, e, "snap"))
            ph += [(e.hit_time(i), e, i) for i in range(len(e.targets))]
    for i, a in enumerate(ph):
        for b in ph[i + 1:]:
            if a[1] is not b[1] and bool(a[0] == b[0]):
                ctx.stop()
    return sorted(ph, key=lambda x: x[0])


def model(ctx, evs, priority=()):
    """-> {(name, target): (time, buffs, debuffs, conditions)}; buffs/debuffs as Model.compile gives them"""
    md = Model(priority)
    out, got_b, got_d = {}, {}, {}

    def buffs(e, t):
        return md.compile(md.buffs, t, e.name)

    def debuffs(e, t, g):
        return md.compile(md.debuffs.setdefault(g, {}), t, e.name)
    for (t, e, what) in phases(ctx, evs):
        md.expire(t)
        if what in ("snap", "both"):
            if e.flags[0] or what == "both":
                got_b[e.name] = buffs(e, t)
            for g in e.targets:
                if e.flags[1] or what == "both":
                    got_d[e.name, g] = debuffs(e, t, g)
        if what == "both":
            for i, g in enumerate(e.targets):
                out[e.name, g] = (e.hit_time(i), got_b[e.name], got_d[e.name, g])
            md.apply(t, e.name, e.buff, e.debuff, e.targets)
        elif what != "snap":
            g = e.targets[what]
            b = got_b[e.name] if e.flags[0] else buffs(e, t)
            d = got_d[e.name, g] if e.flags[1] else debuffs(e, t, g)
            out[e.name, g] = (t, b, d)
            md.apply(t, e.name, e.buff, e.debuff, (g,))
    return out


def timeline(ctx, m, evs):
    tl = m.SnapshotAndApplicationEvents()
    for e in evs:
        ctx.run(tl.add, m.Utils.transform_time_to_prio(e.snap), e.snap, e.app, e.skill(m), m.SkillModifier(with_condition=e.cond),
                list(e.flags), targets=e.targets)
    return tl


def run(ctx, m, evs, **k):
    lib = library(m, [e.skill(m) for e in evs], **k)
    return ctx.run(m.DamageBuilder(stats(m), lib).get_damage_instances, timeline(ctx, m, evs))


def verify(ctx, m, evs, inst, priority=(), extra_cond=None):
    want = model(ctx, evs, priority)
    ids = {e.name: i for i, e in enumerate(evs)}
    keys = [(x[1].name, x[5]) for x in inst]
    expected = [(e.name, g) for e in evs if e.dmg for g in e.targets]
    ctx.check("exactly one instance per damaging event and target", sorted(keys) == sorted(expected))
    for a, b in zip(inst, inst[1:]):
        ctx.check("sorted by time", a[0] <= b[0])
    for x in inst:
        name, g = x[1].name, x[5]
        if (name, g) not in want:
            continue
        t, b, d = want[name, g]
        e = [e for e in evs if e.name == name][0]
        ctx.eq("lands at its application time", x[0], t)
        ctx.check("event id", x[4] == ids[name])
        ctx.check("buffs of its snapshot", sorted(x[3][0].status_effects) == sorted(b[0]))
        ctx.eq("buff multiplier", x[3][0].damage_mult, b[1]["damage_mult"])
        ctx.check("debuffs of its target and snapshot", sorted(x[3][1].status_effects) == sorted(d[0]))
        ctx.eq("debuff multiplier", x[3][1].damage_mult, d[1]["damage_mult"])
        conds = {c.strip() for c in e.cond.split(",") if c.strip()} | b[3] | d[3]
        if len(e.targets) > 1:
            conds |= {"Target %d" % (e.targets.index(g) + 1)}
        conds |= (extra_cond or {}).get(name, set())
        ctx.check("conditions", set(x[2].with_condition) == conds)


def eff(ctx, p, **k):
    return Eff(duration=ctx.uint(p + "dur", 0, 9000), dmg=k.pop("dmg", 1.25), **k)


def flags(ctx, p):
    return [(True, True), (True, False), (False, True), (False, False)][ctx.choice(p + "flags", (0, 1, 2, 3))]


def hit(ctx, p, name, targets, fl, **k):
    s = ctx.int(p + "snap", 0, 9000) if not ctx.symbolic else ctx.int(p + "snap")
    a = None if ctx.flag(p + "immediate") else s + ctx.uint(p + "wait", 0, 5000)
    return E(name, s, a, targets=targets, flags=fl, **k)


@contract("C16", "effects", F, kind="bounded", split={"h.flags": 4, "targets": 3, "h.immediate": 2},
          bound="one event giving a buff and a debuff, one hit with every flag combination on up to 3 targets; all times and durations")
def effects(ctx):
    m = M(ctx)
    give = hit(ctx, "g.", "give", (ctx.choice("gt", ("A", "B")),), (True, True), dmg=ctx.flag("gdmg"),
               buff=eff(ctx, "b.", cond=True), debuff=eff(ctx, "d.", dmg=1.5))
    fl = flags(ctx, "h.")
    h = hit(ctx, "h.", "hit", ctx.choice("targets", (("A",), ("A", "B"), ("C", "B", "A"))), fl, cond="x, y")
    verify(ctx, m, [give, h], run(ctx, m, [give, h]))
    ctx.cover("end")


@contract("C16", "own_effects", F, kind="bounded", split={"h.flags": 4, "h.immediate": 2},
          bound="a hit giving itself a buff and a debuff, used twice under two names; all times, durations and flags")
def own_effects(ctx):
    m = M(ctx)
    fl = flags(ctx, "h.")
    b, d = eff(ctx, "b."), eff(ctx, "d.", dmg=1.5, cond=True)
    v = ctx.flag("variant")
    h = hit(ctx, "h.", "hit", ("A",), fl, buff=b, debuff=d, variant=v, cond="x" if v else "")
    h2 = hit(ctx, "k.", "again", ("A",), (True, False), buff=b)
    verify(ctx, m, [h, h2], run(ctx, m, [h, h2]))


@contract("C16", "area_effects", F, kind="bounded", split={"h.immediate": 2, "k.flags": 4},
          bound="an area hit leaving a debuff on two targets, a later hit on one or two of them; all times, durations and flags")
def area_effects(ctx):
    m = M(ctx)
    h = hit(ctx, "h.", "area", ("A", "B"), (True, True), debuff=eff(ctx, "d.", dmg=1.5))
    k = hit(ctx, "k.", "hit", ctx.choice("targets", (("B",), ("A",), ("B", "A"))), flags(ctx, "k."))
    verify(ctx, m, [h, k], run(ctx, m, [h, k]))


@contract("C16", "stagger", F, kind="bounded", split={"a.immediate": 2},
          bound="a buff, an area hit on two targets and another hit, all at any times: the stagger disturbs nobody else")
def stagger(ctx):
    m = M(ctx)
    g = E("give", 0, None, dmg=False, buff=eff(ctx, "b."))
    a = hit(ctx, "a.", "area", ("A", "B"), (True, ctx.flag("adeb")))
    z = E("zap", ctx.uint("z", 0, 9000), None)
    if bool(Or(a.snap <= 0, z.snap <= 0)):
        ctx.stop()
    verify(ctx, m, [g, a, z], run(ctx, m, [g, a, z]))


@contract("C16", "uses", F, kind="bounded", split={"h.flags": 4},
          bound="an effect with a limited number of uses and three single-target hits; all times and counts")
def uses(ctx):
    m = M(ctx)
    which = ctx.choice("which", ("buff", "debuff"))
    e = Eff(duration=60000, uses=ctx.int("uses", 1, 3), dmg=1.5)
    g = E("give", 0, None, dmg=False, **{which: e})
    fl = flags(ctx, "h.")
    hs = [g]
    t = 0
    for i in range(3):
        t = t + ctx.uint("dt%d" % i, 1, 3000)
        hs.append(E("h%d" % i, t, t + ctx.uint("wait%d" % i, 0, 4000) if i < 2 else None, flags=fl if i == 0 else (True, True)))
    verify(ctx, m, hs, run(ctx, m, hs))


@contract("C16", "priorities", F, kind="bounded", bound="two ranked effects and a hit; all times")
def priorities(ctx):
    m = M(ctx)
    gs = [E("p%d" % i, ctx.uint("t%d" % i, 0, 3000), None, dmg=False, buff=Eff(duration=5000, dmg=1.5)) for i in range(2)]
    h = hit(ctx, "h.", "hit", ("A",), (True, True))
    verify(ctx, m, gs + [h], run(ctx, m, gs + [h], priority=("p1", "p0")), priority=("p1", "p0"))


@contract("C16", "gauges", F, kind="bounded", split={"snapshots": 2, "targets": 3},
          bound="gauge gains before, between and after a hit's snapshot and application; all times")
def gauges(ctx):
    m = M(ctx)
    snaps = ctx.choice("snapshots", (True, False))
    s = ctx.uint("snap", 0, 9000)
    a = s + ctx.uint("wait", 1, 4000)
    tg = ctx.choice("targets", (("A",), ("A", "B"), tuple("ABCDEF")))
    own = ctx.flag("own_gain")
    h = E("hit", s, a, targets=tg, extra=dict(job_resources_snapshot=snaps,
          job_resource_spec=(m.JobResourceSpec(name="G", change=5),) if own else ()))
    gain_imm = ctx.flag("gain_immediate")
    gt = ctx.uint("gain", 0, 14000)
    g = E("gain", gt, None if gain_imm else gt + ctx.uint("gwait", 1, 4000), dmg=False,
          extra=dict(job_resource_spec=(m.JobResourceSpec(name="G", change=3),)))
    evs = [h, g]
    inst = run(ctx, m, evs, resources={"G": m.JobResourceSettings(max_value=100, skill_allowlist=("hit",))})
    # a gain happens at the snapshot of its event; the hit reads the gauge once per resolution,
    # at the snapshot, or at the application if it does not snapshot gauges
    phases(ctx, evs)

    def cond(g_i, i):
        q = s if snaps else h.hit_time(i)
        v = (3 if bool(gt < q) else 0) + (5 if own and not snaps else 0)
        return {"%d G" % v} if v else set()
    keys = sorted((x[1].name, x[5]) for x in inst)
    ctx.check("one instance per target", keys == sorted(("hit", g_) for g_ in tg))
    for x in inst:
        i = tg.index(x[5])
        c = cond(x[5], i) | ({"Target %d" % (i + 1)} if len(tg) > 1 else set())
        ctx.check("gauge condition", set(x[2].with_condition) == c)


@contract("C16", "combos", F, kind="bounded", split={"first": 2, "targets": 3},
          bound="a combo action and its successor, with and without application delay; all times")
def combos(ctx):
    m = M(ctx)
    s0, s1 = ctx.uint("s0", 0, 9000), ctx.uint("s1", 0, 60000)
    if bool(s0 == s1):
        ctx.stop()
    w0 = None if ctx.choice("first", (True, False)) else s0 + ctx.uint("w0", 1, 4000)
    w1 = None if ctx.flag("imm1") else s1 + ctx.uint("w1", 1, 4000)
    a = E("one", s0, w0, extra=dict(combo_spec=(m.ComboSpec(),)))
    b = E("two", s1, w1, targets=ctx.choice("targets", (("A",), ("A", "B"), tuple("ABCDEF"))),
          extra=dict(combo_spec=(m.ComboSpec(combo_actions=("one",)),)))
    inst = run(ctx, m, [a, b])
    # the combo state is that of the snapshots, taken once
    ok = bool(And(s0 < s1, s1 - s0 <= 30000))
    verify(ctx, m, [a, b], inst, extra_cond={"two": set() if ok else {"No Combo"}})


@contract("C16", "damage_only", F, kind="bounded", bound="an action that damages only under a condition given by a buff; all times")
def damage_only(ctx):
    m = M(ctx)
    dur = ctx.uint("dur", 0, 5000)
    give = m.Skill(name="give", buff_spec=m.StatusEffectSpec(duration=dur, add_to_skill_modifier_condition=True))
    hit_ = m.Skill(name="hit", damage_spec={"": None, "give": m.DamageSpec(potency=100)})
    tl = m.SnapshotAndApplicationEvents()
    t = ctx.uint("t", 1, 6000)
    app = t + ctx.uint("wait", 0, 3000)
    ctx.run(tl.add, 0, 0, None, give, m.SkillModifier(), [True, True])
    ctx.run(tl.add, 1000 * t, t, app, hit_, m.SkillModifier(), [True, True])
    inst = ctx.run(m.DamageBuilder(stats(m), library(m, [give, hit_])).get_damage_instances, tl)
    ctx.check("damage exactly under the condition", len(inst) == (1 if bool(t <= dur) else 0))
    for x in inst:
        ctx.eq("lands at its application time", x[0], app)


@contract("C16", "same_time", F, kind="bounded",
          bound="two hits of one action landing at the same instant on differently debuffed targets; all times")
def same_time(ctx):
    m = M(ctx)
    t, w = ctx.int("t", 1, 50000), ctx.uint("w", 1, 3000)
    sk = m.Skill(name="tick", damage_spec=m.DamageSpec(potency=10))
    deb = Eff(duration=60000, dmg=1.5)
    give = m.Skill(name="give", debuff_spec=deb.build(m))
    tl = m.SnapshotAndApplicationEvents()
    ctx.run(tl.add, 0, 0, None, give, m.SkillModifier(), [True, True], targets=("B",))
    for i, g in enumerate(("A", "B", "B")):
        ctx.run(tl.add, 1000 * t + i, t, t + w, sk, m.SkillModifier(), [True, True], targets=(g,))
    inst = ctx.run(m.DamageBuilder(stats(m), library(m, [sk, give])).get_damage_instances, tl)
    ctx.check("every hit once", sorted((x[4], x[5]) for x in inst) == [(1, "A"), (2, "B"), (3, "B")])
    for x in inst:
        ctx.eq("lands at its application time", x[0], t + w)
        ctx.check("debuffs of its own target", sorted(x[3][1].status_effects) == ([] if x[5] == "A" else ["give"]))


@contract("C16", "wide", F, kind="bounded", split={"h.immediate": 2, "n": 2},
          bound="a buff and an area hit on 9 or 10 targets (up to 14 on the real code); all times and durations")
def wide(ctx):
    m = M(ctx)
    g = E("give", 0, None, dmg=False, buff=eff(ctx, "b."))
    tg = tuple("T%d" % i for i in range(ctx.size("n", 9, 10, 14)))
    h = hit(ctx, "h.", "area", tg, (True, True))
    if bool(h.snap <= 0):
        ctx.stop()
    verify(ctx, m, [g, h], run(ctx, m, [g, h]))


@contract("C16", "crowd", F, kind="bounded", no_sym=True,
          bound="up to 6 events of any kind on up to 4 targets on the real code (sampled)")
def crowd(ctx):
    m = M(ctx)
    T = ("A", "B", "C", "D")
    evs = []
    for i in range(ctx.size("n", 2, 3, 6)):
        p = "e%d." % i
        k = ctx.int(p + "first", 0, 3)
        tg = (T + T)[k:k + ctx.int(p + "targets", 1, 4)]
        v = ctx.flag(p + "variant")
        kw = {}
        if ctx.flag(p + "buff") and (len(tg) == 1):
            kw["buff"] = eff(ctx, p + "b.", dmg=1 + (i + 1) / 16, cond=ctx.flag(p + "bc"), uses=ctx.choice(p + "u", (INF, INF, 1, 2)))
        if ctx.flag(p + "debuff"):
            kw["debuff"] = eff(ctx, p + "d.", dmg=1 + (i + 1) / 8, cond=ctx.flag(p + "dc"))
        evs.append(hit(ctx, p, "e%d" % i, tg, flags(ctx, p), dmg=ctx.flag(p + "dmg"), variant=v, cond="x" if v else "", **kw))
    verify(ctx, m, evs, run(ctx, m, evs))


@contract("C16", "step", F, kind="bounded", no_conc=True, split={"delayed": 2, "n": 6, "damage": 2},
          bound="any event of any timeline, from any state of the trackers; up to 10 targets")
def one_event(ctx):
    """any timeline: one arbitrary event taken from it, from an arbitrary state of the trackers
    (they return whatever their contracts C05-C08 allow; here tokens that can be told apart)"""
    m = M(ctx)
    real = m.SnapshotAndApplicationEvents
    calls = []
    delayed, n = ctx.choice("delayed", (False, True)), ctx.choice("n", (1, 2, 3, 4, 6, 10))
    tg = tuple("ABCDEFGHIJ")[:n]
    damage = ctx.choice("damage", (True, False))
    gs = ctx.flag("gauges snapshot")
    sk = m.Skill(name="s", damage_spec=m.DamageSpec(potency=100) if damage else None, job_resources_snapshot=gs)
    p, s, prio, eid = ctx.int("primary"), ctx.int("secondary"), ctx.int("prio"), ctx.int("id")
    ctx.assume(s > p)
    old = [m.StatusEffects(), m.StatusEffects()]
    if delayed:
        flags = [ctx.flag("fb"), ctx.flag("fd")]
        done = (False, False, False)
    else:
        flags = [ctx.choice("fb", (True, False, old[0])), ctx.choice("fd", (True, False, old[1]))]
        done = tuple(ctx.flag("done%d" % i) for i in range(3))  # gauge changes, gauge conditions, combo
    mod = m.SkillModifier(with_condition="stated")
    buffs = m.StatusEffects(status_effects=("buff",))
    debuffs = {t: m.StatusEffects(status_effects=("debuff " + t,)) for t in tg}

    class SE:
        _vc_spec_ = True

        def expire_status_effects(self, t):
            calls.append(("expire", t))

        def compile_buffs(self, t, skill):
            calls.append(("buffs", t, skill))
            return buffs, "from buffs"

        def compile_debuffs(self, t, skill, target):
            calls.append(("debuffs", t, skill, target))
            return debuffs[target], "from debuffs " + target

        def add_to_status_effects(self, t, skill, mod, targets):
            calls.append(("apply", t, skill, targets))

    class JR:
        _vc_spec_ = True

        def compile_job_resources(self, t, skill):
            calls.append(("gauge", t, skill))
            return "from gauge"

        def add_resource(self, t, skill, mod):
            calls.append(("change", t, skill))

    class CT:
        _vc_spec_ = True

        def compile_and_update_combo(self, t, skill, mod):
            calls.append(("combo", t, skill))
            return "from combo"
    ev = real.Event(prio, real.EventTimes(p, s if delayed else None), sk, mod, list(flags), tg, eid, *done)

    def step(popped, logs):
        names = [c[0] for c in calls]
        ctx.check("one event at a time", len(popped) == 1)
        ctx.check("everything happens at the event's time", And([c[1] == p for c in calls]))
        ctx.check("for its action", all(c[2] is sk for c in calls if c[0] != "expire"))
        ctx.check("ended effects are dropped first", "expire" in names and names.index("expire") < min([names.index(x) for x in ("buffs", "debuffs") if x in names] + [99]))
        fb, fd = flags
        gauge = (not done[1]) and (gs or not delayed)
        change, combo = not done[0], not done[2]
        nb = fb is True if delayed else fb is not old[0]
        nd = fd is True if delayed else fd is not old[1]
        ctx.check("gauges, combo and buffs consulted once, where they belong",
                  [names.count("gauge"), names.count("change"), names.count("combo"), names.count("buffs")] == [int(gauge), int(change), int(combo), int(nb)])
        if gauge and change:
            ctx.check("the action's own gauge changes do not count for itself", names.index("gauge") < names.index("change"))
        ctx.check("debuffs of each target consulted once", [c[3] for c in calls if c[0] == "debuffs"] == (list(tg) if nd else []))
        if delayed:
            ctx.check("no effects yet", "apply" not in names)
        else:
            ctx.check("its own effects start last", names.count("apply") == 1 and names[-1] == "apply" and calls[-1][3] == tg)
        base = {"stated"} | ({"from gauge"} if gauge else set()) | ({"from combo"} if combo else set()) | ({"from buffs"} if nb else set())
        hits = [x for v in logs.values() for x in v]
        hit = damage and not delayed
        ctx.check("one instance per target", len(hits) == (n if hit else 0))
        ctx.check("one application per target", len(q.added) == (n if delayed else 0))
        if len(hits) != (n if hit else 0) or len(q.added) != (n if delayed else 0):
            return
        for i, t in enumerate(tg):
            want = base | ({"Target %d" % (i + 1)} if n > 1 else set()) | ({"from debuffs " + t} if nd else set())
            b_, d_ = buffs if nb else fb, debuffs[t] if nd else fd
            same = lambda x, y: x is y or (x == y if isinstance(y, bool) else (not isinstance(x, bool) and tuple(x.status_effects) == tuple(y.status_effects)))
            if hit:
                x = hits[i]
                ctx.eq("lands at its application, 135 ms later per preceding target", x[0], p + 135 * i)
                ctx.check("instance: action, id and target", And(x[1] is sk, x[4] is eid, x[5] == t))
                ctx.check("instance: conditions", x[2].with_condition == want)
                ctx.check("instance: effects", same(x[3][0], b_) and same(x[3][1], d_))
            if delayed:
                a, k = q.added[i]
                nm = ("priority", "primary_time", "secondary_time", "skill", "skill_modifier", "snapshot_status", "event_id", "job_resources_added",
                      "job_conditional_processed", "combo_conditional_processed", "targets")
                x = dict(zip(nm, a), **k)
                ctx.eq("application time and order", [x["primary_time"], x["priority"]], [s + 135 * i, 1000 * (s + 135 * i) + 1000 * p - prio])
                ctx.check("application: action, id and target", And(x["secondary_time"] is None, x["skill"] is sk, x["event_id"] is eid, x["targets"] == (t,)))
                ctx.check("application: conditions", x["skill_modifier"].with_condition == want)
                ctx.check("application: effects", same(x["snapshot_status"][0], b_) and same(x["snapshot_status"][1], d_))
                ctx.check("application: what has been taken is not taken again", [x["job_resources_added"], x["job_conditional_processed"], x["combo_conditional_processed"]] == [True, gauge, True])
        ctx.check("the event's own modifier is untouched", mod.with_condition == {"stated"})
    q = ctx.queue("queue", lambda at: ev, step)
    db = m.DamageBuilder(stats(m), library(m, [sk]))
    if not all(hasattr(db, a) for a in ("se", "job_resource_tracker", "combo_tracker")):
        ctx.unsupported("trackers kept otherwise")
    db.se, db.job_resource_tracker, db.combo_tracker = SE(), JR(), CT()
    out = ctx.run(db.get_damage_instances, q)
    ctx.check("the whole timeline is gone through", q.state == "drained")
    by = [k for l, k in ctx.e.sorted if l is out]
    if not list.__len__(out):
        return
    if len(by) != 1:
        ctx.unsupported("sorted otherwise")
    x = (p, sk, mod, (buffs, buffs), eid, "A")
    key = ctx.run(by[0], x)
    ctx.eq("instances come out by time", key[0] if isinstance(key, tuple) else key, p)
    ctx.cover("end")
