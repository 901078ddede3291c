"""C04: simulation totals and the per-hit report are consistent with the hits."""
from common import *

F = ["damage_simulator.py:DamageSimulator.__init__", "damage_simulator.py:DamageSimulator.__compile_damage",
     "damage_simulator.py:DamageSimulator.__get_expected_damage_and_variance_per_damage_instance",
     "damage_simulator.py:DamageSimulator.get_*", "damage_simulator.py:DamageSimulator.__add_damage_snapshots",
     "trackers/damage_tracker.py:DamageTracker.add_damage", "trackers/damage_tracker.py:DamageTracker.finalize",
     "trackers/damage_tracker.py:DamageTracker.get_damage_ranges_and_probabilities",
     "calcs/compute_damage_utils.py:ComputeDamageUtils.compute_damage_mult"]
NAMES = ("No crit, no DH", "Crit, no DH", "No crit, DH", "Crit, DH")


JOBS = (("test_job2", "test", 1.4), ("WHM", "7.1", 1.3), ("PLD", "7.1", 1))


def stats_of(m, job=JOBS[0]):
    return m.Stats(wd=120, weapon_delay=2.6, main_stat=2500, det_stat=1500, dh_stat=1000, crit_stat=2000,
                   speed_stat=800, tenacity=600, job_class=job[0], version=job[1], level=90)


def instance(ctx, m, i0, t, mults=False, trait=-1):
    """i-th instance: every attribute differs from the other instances'"""
    i = i0 % 3
    trait = (None, 1.1, 1)[i] if trait == -1 else trait
    spec = m.DamageSpec(potency=100 + 70 * i0, damage_class=(m.DamageClass.DIRECT, m.DamageClass.PHYSICAL_DOT, m.DamageClass.AUTO)[i],
                        trait_damage_mult_override=trait, single_damage_mult=(1, 2, 1)[i])
    other = m.DamageSpec(potency=17 + i0)
    cond = ("", "cond one", "cond two, x")[i]
    skill = m.Skill(name="skill%d" % i0, damage_spec={"": other, cond: spec} if cond else spec)
    mod = m.SkillModifier(with_condition=cond) if cond else m.SkillModifier()
    bm = ctx.ureal("h%d.bm" % i0, 0, 2, grid=100) if mults else (1.05, 1, 1.2)[i]
    dm = ctx.ureal("h%d.dm" % i0, 0, 2, grid=100) if mults else (1, 1.1, 1.06)[i]
    b = m.StatusEffects(damage_mult=bm, crit_rate_add=(0.1, 0, 0.2)[i], status_effects=("B%d" % i0,))
    d = m.StatusEffects(damage_mult=dm, dh_rate_add=(0, 0.05, 0.1)[i], status_effects=("D%d" % i0,))
    return (t, skill, mod, (b, d), ("id", i0), "T%d" % i0), dict(bm=bm, dm=dm, cond=mod.with_condition, spec=spec, trait=trait)


def roll(x, crit_bonus, trait, mult, crit, dh):
    if crit:
        x = x + floor(x * ex(crit_bonus))
    if dh:
        x = x + floor(div(x, 4))
    return floor(floor(x * ex(trait)) * mult)


def simulate(ctx, m, n, save, samples, mults=False, job=JOBS[0], traits=None):
    st = stats_of(m, job)
    ins, info = [], []
    for i in range(n):
        a, b = instance(ctx, m, i, ctx.int("t%d" % i, -100000, 1000000), mults, -1 if traits is None else traits[i])
        ins.append(a)
        info.append(b)
    given = list(ins)
    with ctx.patch_random():
        sim = ctx.run(m.DamageSimulator, st, ins, samples, save_damage_matrix=save)
        rg = ctx.run(sim.get_damage_ranges)
    ctx.check("the caller's list is untouched", len(ins) == n and all(x is y for x, y in zip(ins, given)))
    return st, sim, rg, ins, info


def rows_of(ctx, sim, rb=None):
    rows = ctx.run(sim.get_per_skill_damage, rb) if rb is not None else ctx.run(sim.get_per_skill_damage)
    return rows


def check_rows(ctx, m, sim, rows, ins, info, n):
    ctx.check("one row per instance", len(rows) == n and sorted(r.event_id for r in rows) == [("id", i) for i in range(n)])
    ids = tuple(r.event_id for r in rows)
    ctx.check("event ids listed in the same order", tuple(ctx.run(sim.get_event_ids)) == ids)
    tm = ctx.run(sim.get_damage_time)
    for a, b in zip(rows, rows[1:]):
        ctx.check("rows in time order", a.application_time <= b.application_time)
    for k, r in enumerate(rows):
        i = r.event_id[1]
        t, sk, mod, ef, _, tgt = ins[i]
        ctx.check("row's name, target, kind from its instance",
                  And(r.skill_name == sk.name, r.target == tgt, r.damage_class == info[i]["spec"].damage_class))
        ctx.eq("row's time", r.application_time, t)
        ctx.eq("listed damage times", tm[k], t)
        ctx.eq("row's potency", r.potency, info[i]["spec"].potency)
        ctx.check("row's conditions", r.skill_modifier_condition == info[i]["cond"])
        ctx.check("row's effects", len(r.status_effects) == 2 and r.status_effects[0].status_effects == ("B%d" % i,)
                  and r.status_effects[1].status_effects == ("D%d" % i,))


@contract("C04", "rows", F, kind="bounded", bound="three damage instances in any time order (ties included); up to ten on the real code")
def rows(ctx):
    m = M(ctx)
    n = ctx.size("n", 3, 3, 10) if ctx.symbolic else ctx.size("n", 0, 3, 10)
    st, sim, rg, ins, info = simulate(ctx, m, n, True, 0 if ctx.symbolic else 1)
    rows = rows_of(ctx, sim)
    check_rows(ctx, m, sim, rows, ins, info, n)
    mean, var = ctx.run(sim.get_expected_damage_per_damage_instance), ctx.run(sim.get_variance_per_damage_instance)
    ctx.check("one range per row", len(rg) == n)
    tm = tv = 0
    for k, r in enumerate(rows):
        ctx.check("ranges in row order", rg[k][0] == r.skill_name and tuple(x[0] for x in rg[k][1:]) == NAMES)
        mu = sum((ex(o[3]) * div(ex(o[1]) + ex(o[2]), 2) for o in rg[k][1:]), 0)
        m2 = sum((ex(o[3]) * (div((ex(o[2]) - ex(o[1])) * (ex(o[2]) - ex(o[1])), 12) + div(ex(o[1]) + ex(o[2]), 2) * div(ex(o[1]) + ex(o[2]), 2)) for o in rg[k][1:]), 0)
        ctx.eq("expected damage is the mixture's mean", r.expected_damage, mu)
        ctx.eq("standard deviation is the mixture's", r.standard_deviation * r.standard_deviation, m2 - mu * mu, tol=1e-6)
        ctx.check("standard deviation not negative", r.standard_deviation >= 0)
        ctx.eq("expectation per instance", mean[k], mu)
        ctx.eq("variance per instance", var[k], m2 - mu * mu, tol=1e-6)
        tm, tv = tm + mu, tv + (m2 - mu * mu)
    ctx.eq("total expectation", ctx.run(sim.get_expected_damage), tm, tol=1e-7)
    ctx.eq("total variance", ctx.run(sim.get_damage_variance), tv, tol=1e-6)
    ctx.cover("end")


@contract("C04", "row_values", F, kind="bounded", split={"job": 3},
          bound="two damage instances, three jobs, buff and debuff multipliers unbounded, any trait override in [0, 3] or none")
def row_values(ctx):
    """every row's ranges come from that instance's own damage, chances, trait and multipliers"""
    m = M(ctx)
    ctx.roots_as_function()
    n = 2
    job = ctx.choice("job", JOBS)
    mults = ctx.flag("mults")
    traits = None
    if not mults:
        traits = [None if ctx.flag("own%d" % i) else ctx.real("trait%d" % i, 0, 3, grid=100) for i in range(n)]
    st, sim, rg, ins, info = simulate(ctx, m, n, False, 0 if ctx.symbolic else 1, mults=mults, job=job, traits=traits)
    rows = rows_of(ctx, sim)
    ctx.check("two rows", len(rows) == n)
    cr, dhr = ctx.run(sim.get_crit_and_dh_rates)
    tr = ctx.run(sim.get_trait_damage_mult)
    for k, r in enumerate(rows):
        i = r.event_id[1]
        _, sk, mod, ef, _, _ = ins[i]
        base = ctx.run(m.ComputeDamageUtils.get_base_damage, sk, mod, st, ef)
        d, c, cb = ctx.run(m.ComputeDamageUtils.compute_crit_rates_and_bonuses, st, sk, mod, ef)
        trait = job[2] if info[i]["trait"] is None else info[i]["trait"]
        mult = ex(info[i]["bm"]) * ex(info[i]["dm"])
        for j, (crit, dh) in enumerate(((0, 0), (1, 0), (0, 1), (1, 1))):
            o = rg[k][1 + j]
            ctx.eq("low end from own instance", o[1], roll(floor(Fraction(95, 100) * ex(base)), cb, trait, mult, crit, dh))
            ctx.eq("high end from own instance", o[2], roll(floor(Fraction(105, 100) * ex(base)), cb, trait, mult, crit, dh))
            ctx.eq("chance from own instance", o[3], (ex(c) if crit else 1 - ex(c)) * (ex(d) if dh else 1 - ex(d)))
        ctx.eq("listed chances", [cr[k], dhr[k], tr[k]], [c, d, trait])
    ctx.cover("end")


@contract("C04", "totals", F, kind="bounded", split={"n": 2}, bound="one damage instance with two samples, two with one")
def totals(ctx):
    m = M(ctx)
    n = ctx.choice("n", (1, 2))
    if not ctx.symbolic:
        n = n + ctx.size("more", 0, 0, 6)
    S = max(3 - n, 1)
    st, sim, rg, ins, info = simulate(ctx, m, n, True, S)
    mat, tot, dps = ctx.run(sim.get_damage_matrix), ctx.run(sim.get_raw_damage), ctx.run(sim.get_dps)
    ctx.check("shapes", tuple(mat.shape) == (n, S) and len(tot) == S and len(dps) == S)
    ts = [x[0] for x in ins]
    span = Max(*ts) - Min(*ts) if n > 1 else 0
    for j in range(S):
        s = sum((mat[i, j] for i in range(n)), 0)
        ctx.eq("a sample's total is the sum over its hits", tot[j], s)
        if span > 0:
            ctx.eq("damage per second between first and last hit", dps[j] * span, s * 1000, tol=1e-6)
        else:
            ctx.check("infinite without a span", dps[j] == INF)
    ctx.cover("end")


class _Rb:
    def __init__(self, tl):
        self.tl = tl

    def get_skill_timing(self):
        return self.tl


@contract("C04", "snapshots", F, kind="bounded", bound="two damage instances and a timeline of their two events")
def snapshots(ctx):
    """snapshot times in the report are those of the row's own event"""
    m = M(ctx)
    tl = m.SnapshotAndApplicationEvents()
    n = 2
    st = stats_of(m)
    order = ctx.choice("order", ((0, 1), (1, 0)))
    ins = [None] * n
    prim, sec = [None] * n, [None] * n
    for i in range(n):
        prim[i], sec[i] = ctx.int("p%d" % i, 0, 100000), ctx.int("s%d" % i, 0, 100000)
        ctx.assume(prim[i] != sec[i])
    for k, i in enumerate(order):
        a, _ = instance(ctx, m, i, sec[i])
        tl.add(prim[i], prim[i], sec[i], a[1], a[2], [True, True], targets=("T%d" % i,))
        ins[k] = (a[0], a[1], a[2], a[3], k, a[5])
    with ctx.patch_random():
        sim = ctx.run(m.DamageSimulator, st, ins, 0 if ctx.symbolic else 1)
    for r in ctx.run(sim.get_per_skill_damage):
        ctx.check("no snapshot time without a timeline", r.snapshot_time is None)
    rows = ctx.run(sim.get_per_skill_damage, _Rb(tl))
    for r in rows:
        i = order[r.event_id]
        ctx.check("row belongs to its event", r.skill_name == "skill%d" % i)
        ctx.eq("snapshot time of the row's event", r.snapshot_time, prim[i])
        ctx.eq("application time of the row's event", r.application_time, sec[i])
    ctx.cover("end")


def moments(outs):
    """mean and variance of the mixture of uniform outcomes"""
    mu = sum((p * div(lo + hi, 2) for _, lo, hi, p in outs), 0)
    m2 = sum((p * (div((hi - lo) * (hi - lo), 12) + div(lo + hi, 2) * div(lo + hi, 2)) for _, lo, hi, p in outs), 0)
    return mu, m2 - mu * mu


FIELDS = dict(base_damage="base", crit_rate="crit", crit_bonus="bonus", dh_rate="dh", trait_damage_mult="trait", damage_mult="mult")


class Plain:
    def __init__(self, **k):
        self.__dict__.update(k)

    def get_damage_spec(self, mod):
        return self.spec if mod is self.mod else None


@contract("C04", "rows_any", F, kind="proof", no_conc=True, report_unreplayed=False)
def rows_any(ctx):
    """any number of damage instances in any order, any number of samples; each instance's damage,
    chances and multipliers are what their contracts (C01, C02) let them be, and so are the
    advertised outcomes and the sampled hits (C03)"""
    m = M(ctx)
    mod = ctx.mod("simulator.damage_simulator")
    ctx.roots_as_function()
    own = ctx.real("own trait", 0)
    known = {}

    def make(at):
        md = Plain(with_condition=("cond", at.i))
        sp = Override(at)
        sk = Plain(name=("name", at.i), spec=sp, mod=md)
        h = dict(i=at.index(), t=at.int("t"), base=at.real("base", 0), crit=at.real("crit", 0, 1), bonus=at.real("bonus", 0), dh=at.real("dh", 0, 1),
                 mult=at.real("mult", 0), trait=If(at.bool("override"), at.real("trait", 0), own))
        h["outs"] = tuple([NAMES[k], at.real("lo%d" % k, 0), at.real("hi%d" % k, 0), at.real("p%d" % k, 0, 1)] for k in range(4))
        ef = (Plain(), Plain())
        h["row"] = row = (h["t"], sk, md, ef, ("id", at.i), ("target", at.i))
        known[id(sk)] = (row, h)
        return Hit(row, h)

    class Override:
        def __init__(self, at):
            self.at, self.potency, self.damage_class = at, at.int("potency", 0), ("class", at.i)

        @property
        def trait_damage_mult_override(self):
            return self.at.real("trait", 0) if self.at.flag("override") else None

    class Hit(tuple):
        def __new__(cls, row, h):
            s = tuple.__new__(cls, row)
            s.h = h
            return s

    def of(sk, md=None, st=None, ef=None):
        row, h = known[id(sk)]
        if (md is not None and md is not row[2]) or (ef is not None and ef is not row[3]) or (st is not None and st is not stats):
            ctx.unsupported("an instance's parts are copied or mixed")
        return h

    class Calcs:
        get_base_damage = staticmethod(lambda skill, skill_modifier, stats, status_effects: of(skill, skill_modifier, stats, status_effects)["base"])
        compute_damage_mult = staticmethod(lambda ef: next(h["mult"] for row, h in known.values() if row[3] is ef))

        @staticmethod
        def compute_crit_rates_and_bonuses(stats, skill, skill_modifier, status_effects):
            h = of(skill, skill_modifier, stats, status_effects)
            return h["dh"], h["crit"], h["bonus"]
    if not hasattr(mod, "ComputeDamageUtils"):
        ctx.unsupported("damage computed elsewhere")
    mod.ComputeDamageUtils = Calcs
    draws = []

    class Tracker(m.DamageTracker):
        def kept(self):
            """the hits as they are handed to the calculations"""
            for a, f in FIELDS.items():
                v = getattr(self, a, None)
                if not hasattr(v, "at") or len(v.shape) != 2:
                    ctx.unsupported("the tracker keeps its hits in another way")
                ctx.eq("the %s the ranges and samples are made from" % f, [v.shape[0], v.shape[1]], [hits.n, 1])
                if bool(hits.n > 0):
                    k = ctx.int("k", 0)
                    ctx.assume(k < hits.n)
                    ctx.eq("the %s the ranges and samples are made from" % f, v.at(k, 0), hits.at(k.z).h[f])

        def get_damage_ranges_and_probabilities(self):
            self.kept()
            v = hits.view(lambda x: x.h["outs"])
            v.order = None
            return v

        def compute_damage(self, n):
            self.kept()
            ctx.eq("as many samples as asked for", n, samples)
            draws.append((ctx.matrix("dmg", hits.n, n), object(), object()))
            return draws[-1]
    if not hasattr(mod, "DamageTracker"):
        ctx.unsupported("hits tracked elsewhere")
    mod.DamageTracker = Tracker
    stats = Plain(processed_stats=Plain(trait_damage_mult=own))
    hits = ctx.seq("hits", make, sorted_by=lambda x: x[0])
    samples = ctx.dim("samples")
    for f in ("base", "crit", "bonus", "dh", "trait", "mult", "t"):
        ctx.map(hits, lambda x, f=f: x.h[f])
    for g in (lambda x: x[1].spec.potency, lambda x: x[2].with_condition, lambda x: (x[3][0], x[3][1]), lambda x: x[1].spec.damage_class, lambda x: x[5]):
        ctx.map(hits, g)
    sim = ctx.run(m.DamageSimulator, stats, hits, samples, save_damage_matrix=True, save_crit_dh_status=True)
    rows = ctx.run(sim.get_per_skill_damage)
    ids, times = ctx.run(sim.get_event_ids), ctx.run(sim.get_damage_time)
    ctx.eq("one row per instance", [ctx.len(rows), ctx.len(ids), ctx.len(times)], [hits.n] * 3)
    i = ctx.int("i", 0)
    ctx.assume(i < hits.n)
    x = hits.at(i.z)
    r = rows[i]
    ctx.check("row's name, target, kind, conditions, id from its instance",
              (r.skill_name, r.target, r.damage_class, r.skill_modifier_condition, r.event_id, ids[i]) ==
              (x[1].name, x[5], x[1].spec.damage_class, x[2].with_condition, x[4], x[4]))
    ctx.check("row's effects", tuple(r.status_effects) == tuple(x[3]))
    ctx.eq("row's time and potency", [r.application_time, times[i], r.potency], [x[0], x[0], x[1].spec.potency])
    rg = ctx.run(sim.get_damage_ranges)
    ctx.eq("ranges for every row", ctx.len(rg), hits.n)
    g, want = rg[i], x.h["outs"]
    ctx.check("ranges in row order", g[0] == x[1].name and len(g) == 5)
    for k in range(4):
        ctx.check("the outcomes of the row's own instance", g[1 + k][0] == NAMES[k])
        ctx.eq("low, high and chance from the row's own instance", list(g[1 + k][1:]), want[k][1:])
    mu, var = moments(want)
    mean, vs = ctx.run(sim.get_expected_damage_per_damage_instance), ctx.run(sim.get_variance_per_damage_instance)
    ctx.eq("expected damage is the mixture's mean", [r.expected_damage, mean[i]], [mu, mu])
    ctx.eq("standard deviation is the mixture's", r.standard_deviation, ctx.root(var))
    ctx.eq("variance per instance", vs[i], ctx.root(var) * ctx.root(var))
    j = ctx.int("j", 0)
    ctx.assume(j < samples)
    dmg = ctx.run(sim.get_damage_matrix)
    ctx.check("the saved samples are the sampled ones", len(draws) == 1 and dmg is draws[0][0])
    ctx.check("the saved outcomes are the sampled ones", ctx.run(sim.get_crit_status) is draws[0][1] and ctx.run(sim.get_dh_status) is draws[0][2])
    ctx.fold(hits, 0, lambda a, y: a + dmg.at(y.h["i"], j))
    tot = ctx.fold(hits, 0, lambda a, y: a + moments(y.h["outs"])[0])
    raw, dps = ctx.run(sim.get_raw_damage), ctx.run(sim.get_dps)
    ctx.eq("one total per sample", [ctx.len(raw), ctx.len(dps)], [samples] * 2)
    ctx.eq("a sample's total is the sum of its hits", raw[j], hits.folds[0].total)
    span = hits.at(hits.n.z - 1)[0] - hits.at(hits.n.z * 0)[0]
    if bool(span > 0):
        ctx.eq("damage per second is the total over the time from first to last hit", dps[j] * span, hits.folds[0].total * 1000)
    else:
        ctx.check("no time: infinite", dps[j] == float("inf"))
    ctx.eq("total expectation", ctx.run(sim.get_expected_damage), tot.total)
    ctx.cover("end")


@contract("C04", "long_fight", F, kind="bounded", no_sym=True, conc_n=3, bound="fights of up to 12000 damage instances on the real code (sampled)")
def long_fight(ctx):
    m = M(ctx)
    n = 12000 - ctx.int("fewer", 0, 8000)
    row, _ = instance(ctx, m, 0, 0)
    ins = [(10 * ((k * 7) % n),) + row[1:4] + (("id", k), "T%d" % k) for k in range(n)]
    sim = ctx.run(m.DamageSimulator, stats_of(m), ins, 1)
    rows = ctx.run(sim.get_per_skill_damage)
    ctx.check("one row per instance", len(rows) == n and len({r.event_id for r in rows}) == n)
    ctx.check("rows in time order", all(a.application_time <= b.application_time for a, b in zip(rows, rows[1:])))
    ctx.check("row's target and time", all(r.target == "T%d" % r.event_id[1] and r.application_time == ins[r.event_id[1]][0] for r in rows))
    ctx.eq("total expectation", ctx.run(sim.get_expected_damage), n * rows[0].expected_damage, tol=1e-6)
    ctx.cover("end")
