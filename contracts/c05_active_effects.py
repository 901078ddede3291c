"""C05: exactly the active, applicable effects shape an action."""
from effects import *

T = "trackers/status_effect_tracker.py:StatusEffectTracker."
F = [T + x for x in ("expire_status_effects", "__expire_status_effects", "__get_valid_status_effects",
                     "__delete_lower_priority_status_effects", "__compile_status_effects", "compile_buffs",
                     "compile_debuffs", "__get_debuffs")]


def window_effect(ctx, p, uses=(INF, 1, 2)):
    return Eff(duration=ctx.int_or_inf(p + "dur", 0), uses=ctx.choice(p + "uses", uses), crit=ctx.real(p + "crit", 0, 1))


@contract("C05", "windows", F, kind="bounded", split={"A.uses": 3, "B.uses": 3},
          bound="two buffs with any windows and 1, 2 or unlimited uses, two consecutive queries at any times")
def windows(ctx):
    m = M(ctx)
    tr, md = m.StatusEffectTracker(), Model()
    ta, tb = ctx.int("ta"), ctx.int("tb")
    for n, t in (("A", ta), ("B", tb)):
        e = window_effect(ctx, n + ".")
        ctx.run(tr.add_to_status_effects, t, skill_with(m, n, e), m.SkillModifier())
        md.apply(t, n, e, None, ())
    q = ctx.int("q")
    for k in range(2):
        ctx.run(tr.expire_status_effects, q)
        md.expire(q)
        compare(ctx, m, ctx.call(tr.compile_buffs, q, m.Skill(name="x")), md.compile(md.buffs, q, "x"), "buffs")
        q = ctx.int("q2", lo=q)
    ctx.cover("end")


@contract("C05", "composition", F, kind="bounded", bound="two active buffs (one debuff) with arbitrary values of every kind")
def composition(ctx):
    m = M(ctx)
    tr, md = m.StatusEffectTracker(), Model()
    for n in ("A", "B", "D"):
        p = n + "."
        e = Eff(duration=1000, crit=ctx.real(p + "crit", -1, 1), dh=ctx.real(p + "dh", -1, 1), dmg=ctx.ureal(p + "dmg", 0, 3),
                msa=ctx.int(p + "msa", -1000, 1000), msm=ctx.ureal(p + "msm", 0, 3), auto=ctx.real(p + "auto", 0, 1),
                haste=ctx.real(p + "haste", 0, 1), cast=ctx.int(p + "cast", 0, 5000), gcd=ctx.int(p + "gcd", 0, 5000))
        b, d = (e, None) if n != "D" else (None, e)
        ctx.run(tr.add_to_status_effects, 0, skill_with(m, n, b, d), m.SkillModifier())
        md.apply(0, n, b, d, (m.SimConsts.DEFAULT_TARGET,))
    q = ctx.int("q", 0, 1000)
    ctx.run(tr.expire_status_effects, q)
    compare(ctx, m, ctx.call(tr.compile_buffs, q, m.Skill(name="x")), md.compile(md.buffs, q, "x"), "buffs")
    compare(ctx, m, ctx.call(tr.compile_debuffs, q, m.Skill(name="x")),
            md.compile(md.debuffs[m.SimConsts.DEFAULT_TARGET], q, "x"), "debuffs")
    ctx.cover("end")


ALLOW = (None, (), ("x",), ("y", "x"), ("y",))
PRIO = ((), ("B", "A"), ("A", "B", "C"), ("C", "Z", "A"), ("B",))


@contract("C05", "filters", F, kind="bounded", split={"prio": 5, "A.allow": 5},
          bound="three buffs, five allow lists each, all deny lists, five priority orders, uses 1 or unlimited, two queries")
def filters(ctx):
    m = M(ctx)
    prio = ctx.choice("prio", PRIO)
    tr, md = m.StatusEffectTracker(prio), Model(prio)
    for i, n in enumerate(("A", "B", "C")):
        e = Eff(duration=1000, crit=(0.5, 0.25, 0.125)[i], dmg=(1.1, 1.2, 1.3)[i],
                allow=ctx.choice(n + ".allow", ALLOW if n == "A" else ALLOW[::2]),
                uses=(1, INF, INF)[i], cond=(True, False, True)[i])
        ctx.run(tr.add_to_status_effects, 0, skill_with(m, n, e), m.SkillModifier())
        md.apply(0, n, e, None, ())
    deny = ctx.choice("deny", ((), ("A",), ("B", "Z"), ("A", "C")))
    q = ctx.int("q", 0, 900)
    for k, sk in enumerate(("x", "y")):
        ctx.run(tr.expire_status_effects, q + k)
        md.expire(q + k)
        compare(ctx, m, ctx.call(tr.compile_buffs, q + k, m.Skill(name=sk, status_effect_denylist=deny)),
                md.compile(md.buffs, q + k, sk, deny), "buffs")
        deny = ()
    ctx.cover("end")


@contract("C05", "forced", F, kind="bounded", split={"A.crit": 3}, bound="three buffs with every combination of forced outcomes, one inactive at will")
def forced(ctx):
    m = M(ctx)
    tr, md = m.StatusEffectTracker(), Model()
    for i, n in enumerate(("A", "B", "C")):
        e = Eff(duration=1000 if n != "C" else ctx.int("C.dur", 0, 2000), fcrit=ctx.choice(n + ".crit", (None, True, False)),
                fdh=ctx.choice(n + ".dh", (None, False, True)), cond=ctx.flag(n + ".cond") if n == "A" else i == 2)
        ctx.run(tr.add_to_status_effects, 0, skill_with(m, n, e), m.SkillModifier())
        md.apply(0, n, e, None, ())
    q = ctx.int("q", 0, 1000)
    ctx.run(tr.expire_status_effects, q)
    md.expire(q)
    compare(ctx, m, ctx.call(tr.compile_buffs, q, m.Skill(name="x")), md.compile(md.buffs, q, "x"), "buffs")
    ctx.cover("end")


@contract("C05", "targets", F, kind="bounded", split={"where.A": 4, "where.B": 4},
          bound="two debuffs and a buff over three targets, any windows, one query per target")
def targets(ctx):
    m = M(ctx)
    tr, md = m.StatusEffectTracker(), Model()
    W = (("t1",), ("t2",), ("t1", "t2"), ("t2", "t1"))
    for n in ("A", "B"):
        t = ctx.int(n + ".t", 0, 10)
        e = Eff(duration=ctx.int(n + ".dur", 0), uses=1 if n == "A" else INF, dh=ctx.real(n + ".dh", 0, 1))
        w = ctx.choice("where." + n, W)
        ctx.run(tr.add_to_status_effects, t, skill_with(m, n, None, e), m.SkillModifier(), w)
        md.apply(t, n, None, e, w)
    e = Eff(duration=INF, dh=0.5, uses=1)
    ctx.run(tr.add_to_status_effects, 0, skill_with(m, "C", e), m.SkillModifier(), ("t1",))
    md.apply(0, "C", e, None, ("t1",))
    q = ctx.int("q", 0)
    ctx.run(tr.expire_status_effects, q)
    md.expire(q)
    for g in ("t1", "t2", "t3"):
        compare(ctx, m, ctx.call(tr.compile_debuffs, q, m.Skill(name="x"), g),
                md.compile(md.debuffs.get(g, {}), q, "x"), "debuffs")
    compare(ctx, m, ctx.call(tr.compile_buffs, q, m.Skill(name="x")), md.compile(md.buffs, q, "x"), "buffs")
    ctx.run(tr.expire_status_effects, q)
    md.expire(q)
    for g in ("t1", "t2"):
        compare(ctx, m, ctx.call(tr.compile_debuffs, q, m.Skill(name="x"), g),
                md.compile(md.debuffs.get(g, {}), q, "x"), "debuffs")
    ctx.cover("end")


NM = ("A", "BB", "C", "d e", "E", "F2", "Gg", "H")


@contract("C05", "many", F, kind="bounded", split={"k": 4},
          bound="up to four of four effects present under every length-four priority order rotation; up to eight effects, "
                "five queries and any priority order on the real code")
def many(ctx):
    m = M(ctx)
    n = 4 if ctx.symbolic else ctx.size("n", 4, 4, 8)
    k = ctx.choice("k", (0, 1, 2, 3))
    prio = list(NM[:n])
    prio = prio[k:] + prio[:k]
    if not ctx.symbolic:
        for i in range(ctx.size("swaps", 0, 0, 6)):
            a, b = ctx.int("sa%d" % i, 0, n - 1), ctx.int("sb%d" % i, 0, n - 1)
            prio[a], prio[b] = prio[b], prio[a]
        prio = prio[:ctx.int("cut", 0, n)] + (["not there"] if ctx.flag("zz") else [])
    prio = tuple(prio)
    tr, md = m.StatusEffectTracker(prio), Model(prio)
    debuffs = ctx.flag("debuffs")
    for i, nm in enumerate(NM[:n]):
        if not ctx.flag("has" + nm):
            continue
        allow = None if ctx.symbolic else ctx.choice(nm + ".allow", (None, None, None, (), ("x",), ("y", "x"), ("y",)))
        e = Eff(duration=1000 if ctx.symbolic else ctx.int(nm + ".dur", 0, 1000), crit=1 / 2 ** (i + 1), dmg=1 + i / 8,
                uses=INF if ctx.symbolic else ctx.choice(nm + ".uses", (INF, 1, 2, 3)), cond=i % 2 == 1, allow=allow)
        b, d = (None, e) if debuffs else (e, None)
        t = 0 if ctx.symbolic else ctx.int(nm + ".t", 0, 300)
        ctx.run(tr.add_to_status_effects, t, skill_with(m, nm, b, d), m.SkillModifier(), ("T", "U"))
        md.apply(t, nm, b, d, ("T", "U"))
    q = ctx.int("q", 0, 1000)
    deny = ()
    for j in range(1 if ctx.symbolic else ctx.size("qs", 1, 1, 5)):
        ctx.run(tr.expire_status_effects, q)
        md.expire(q)
        sk = m.Skill(name="x", status_effect_denylist=deny)
        if debuffs:
            compare(ctx, m, ctx.call(tr.compile_debuffs, q, sk, "T"), md.compile(md.debuffs.get("T", {}), q, "x", deny), "debuffs")
        else:
            compare(ctx, m, ctx.call(tr.compile_buffs, q, sk), md.compile(md.buffs, q, "x", deny), "buffs")
        q = ctx.int("q%d" % (j + 1), q, q + 500) if not ctx.symbolic else q
        deny = () if ctx.symbolic else ctx.choice("deny%d" % j, ((), ("A",), ("C", "BB"), ("E", "Q")))
    ctx.cover("end")


class Entry(tuple):
    """(name, stored effect) with the specification's view of it"""


def any_effects(ctx, m, on_step, full=True):
    """a tracker holding any number of effects with any windows, uses and definitions"""
    def make(at):
        if not full:
            e = Eff(duration=1, crit=at.real("crit"))
            e.fc = e.fd = m.ForcedCritOrDH.DEFAULT
            return entry(at, e, e.build(m))
        forced = lambda n: at.enum(n, list(m.ForcedCritOrDH))
        e = Eff(duration=1, crit=at.real("crit"), dh=at.real("dh"), dmg=at.real("dmg"), msa=at.real("msa"), msm=at.real("msm"),
                auto=at.real("auto"), haste=at.real("haste"), cast=at.int("cast"), gcd=at.int("gcd"),
                allow=None, cond=at.bool("cond"))
        spec = e.build(m)
        e.allow, e.fc, e.fd = at.choice("allow", (None, ("y", "x"), ("y",))), forced("fcrit"), forced("fdh")
        for k, v in (("skill_allowlist", e.allow), ("guaranteed_crit", e.fc), ("guaranteed_dh", e.fd)):
            object.__setattr__(spec, k, v)
        return entry(at, e, spec)

    def entry(at, e, spec):
        n = at.name("name")
        start, end, uses = at.int("start"), at.int("end"), at.int("uses")
        p = Entry((n, (start, end, uses, spec)))
        p.e, p.spec, p.n, p.start, p.end, p.uses = e, spec, n, start, end, uses
        return p
    return ctx.dict_of("effects", make, on_step=on_step)


def stored_plainly(ctx, m):
    """whether the tracker keeps name -> (start, end, uses, definition)"""
    tr = m.StatusEffectTracker()
    if not (isinstance(getattr(tr, "buffs", None), dict) and isinstance(getattr(tr, "debuffs", None), dict)):
        ctx.unsupported("effects stored otherwise")
    ctx.run(tr.add_to_status_effects, 5, skill_with(m, "A", Eff(duration=7, uses=3)), m.SkillModifier())
    if list(tr.buffs) != ["A"] or not isinstance(tr.buffs["A"], tuple) or tr.buffs["A"][:3] != (5, 12, 3) or len(tr.buffs["A"]) != 4:
        ctx.unsupported("effects stored otherwise")
    return tr


@contract("C05", "expire_any", F, kind="proof", no_conc=True, split={"where": 2})
def expire_any(ctx):
    """any number of effects: exactly those past their end, or used up, go; the others stay as they were"""
    m = M(ctx)
    stored_plainly(ctx, m)
    t = ctx.int("t")

    def step(k, logs):
        if logs:
            ctx.unsupported("other bookkeeping")
        p = d.seq.at(d.seq.cur)
        if not d.writing:
            ctx.check("effects untouched by other loops", not d.writes)
            return
        gone = bool(Or(t > p.end, p.uses == 0))
        ctx.check("ended effects go, the others stay", [(w[0] is p.n, w[1] is ctx.gone) for w in d.writes] == ([(True, True)] if gone else []))
    d = any_effects(ctx, m, step)
    tr = m.StatusEffectTracker()
    if ctx.choice("where", ("buffs", "debuffs")) == "buffs":
        tr.buffs = d
    else:
        tr.debuffs = {"o": {}, "g": d}
    ctx.run(tr.expire_status_effects, t)
    if d.writers > 1:
        ctx.unsupported("effects changed by several loops")
    ctx.check("the effects are gone through", bool(d.dirty))
    ctx.cover("end")


@contract("C05", "compile_any", F, kind="proof", no_conc=True, split={"case": 3})
def compile_any(ctx):
    """any number of effects: which count, what they add up to, and that each that counts is used once"""
    m = M(ctx)
    stored_plainly(ctx, m)
    where, prio = ctx.choice("case", (("buffs", ()), ("debuffs", ()), ("buffs", ("B", "A", "C"))))
    deny = ("D", "E")
    q = ctx.int("q")

    def applies(p):
        if bool(q < p.start) or bool(Or(p.n == "D", p.n == "E")):
            return False
        return p.e.allow is None or "x" in p.e.allow

    def counts(p):
        if not applies(p):
            return False
        for i, x in enumerate(prio):
            if bool(p.n == x):
                return not any(bool(here[y].total) for y in prio[:i])
        return True

    def clash(p, a):
        if prio:
            return False
        D = m.ForcedCritOrDH.DEFAULT
        return counts(p) and (bool(And(p.e.fc != D, a["fc"] != D)) or bool(And(p.e.fd != D, a["fd"] != D)))

    def step(k, logs):
        if logs:
            ctx.unsupported("other bookkeeping")
        p = d.seq.at(d.seq.cur)
        if not d.writing:
            ctx.check("effects untouched by other loops", not d.writes)
            return
        ctx.check("two forced outcomes refused", not clash(p, total.at(d.seq.cur)))
        n = 1 if counts(p) else 0
        ctx.check("exactly the effects that count are used once", len(d.writes) == n)
        if n and len(d.writes) == 1:
            w = d.writes[0]
            ctx.check("and stay", w[0] is p.n and w[1] is not ctx.gone)
            if w[1] is not ctx.gone:
                ctx.eq("same window, one use less", list(w[1][:3]), [p.start, p.end, p.uses - 1])
                ctx.check("same definition", w[1][3] is p.spec)
    d = any_effects(ctx, m, step, not prio)
    here = {}
    for x in prio:
        here[x] = ctx.fold(d, False, lambda a, p, x=x: a or (applies(p) and bool(p.n == x)), monotone=True)
    D = m.ForcedCritOrDH.DEFAULT
    zero = dict(crit_rate_add=0.0, dh_rate_add=0.0, damage_mult=1.0, main_stat_add=0.0, main_stat_mult=1.0, auto_attack_delay_mult=1.0,
                haste_time_mult=1.0, flat_cast_time_reduction=0, flat_gcd_recast_time_reduction=0, fc=D, fd=D)

    def add(a, p):
        if not counts(p):
            return a
        e = p.e
        if prio:
            return dict(a, crit_rate_add=a["crit_rate_add"] + e.crit)
        new = lambda old, f: f if bool(f != D) else old
        return dict(crit_rate_add=a["crit_rate_add"] + e.crit, dh_rate_add=a["dh_rate_add"] + e.dh, damage_mult=a["damage_mult"] * e.dmg,
                    main_stat_add=a["main_stat_add"] + e.msa, main_stat_mult=a["main_stat_mult"] * e.msm,
                    auto_attack_delay_mult=a["auto_attack_delay_mult"] * (1 - e.auto), haste_time_mult=a["haste_time_mult"] * (1 - e.haste),
                    flat_cast_time_reduction=a["flat_cast_time_reduction"] + e.cast,
                    flat_gcd_recast_time_reduction=a["flat_gcd_recast_time_reduction"] + e.gcd, fc=new(a["fc"], e.fc), fd=new(a["fd"], e.fd))
    if prio:
        zero = dict(crit_rate_add=0.0)
    total = ctx.fold(d, zero, add)
    ctx.map(d, lambda p: p.n, keep=applies)
    ctx.map(d, lambda p: p.n, keep=counts)
    if not prio:
        ctx.map(d, lambda p: p.n, keep=lambda p: counts(p) and bool(p.e.cond))
    tr = m.StatusEffectTracker(prio)
    sk = m.Skill(name="x", status_effect_denylist=deny)
    if where == "buffs":
        tr.buffs = d
        o = ctx.call(tr.compile_buffs, q, sk)
    else:
        tr.debuffs = {"g": d}
        o = ctx.call(tr.compile_debuffs, q, sk, "g")
    if not o.ok:
        if d.seq.cur is None:
            ctx.unsupported("refused otherwise")
        ctx.check("refused only for two forced outcomes", clash(d.seq.at(d.seq.cur), total.at(d.seq.cur)))
        return
    se, cond = o.value
    f = total.total
    for k in zero:
        if k in ("fc", "fd"):
            ctx.check("forced outcome", {"fc": se.guaranteed_crit, "fd": se.guaranteed_dh}[k] == f[k])
        else:
            ctx.eq(k, getattr(se, k), f[k])
    if d.writers > 1:
        ctx.unsupported("effects changed by several loops")
    ctx.check("the effects are gone through", bool(d.dirty))
    ctx.same_seq("the effects that count are reported", se.status_effects, d.seq, lambda p: p.n, counts)
    if prio:
        ctx.check("no condition is flagged", cond == "")
        ctx.cover("end")
        return
    ctx.same_seq("the flagged conditions are reported", cond, d.seq, lambda p: p.n, lambda p: counts(p) and bool(p.e.cond))
    ctx.cover("end")
