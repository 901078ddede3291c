"""C03: every sampled hit stays inside the range advertised for its outcome."""
from common import *

F = ["trackers/damage_tracker.py:DamageTracker.add_damage", "trackers/damage_tracker.py:DamageTracker.finalize",
     "trackers/damage_tracker.py:DamageTracker.__get_damage",
     "trackers/damage_tracker.py:DamageTracker.get_damage_ranges_and_probabilities",
     "trackers/damage_tracker.py:DamageTracker.compute_damage",
     "trackers/damage_tracker.py:DamageTracker.__sample_damage_instances"]


def hit(ctx, i):
    p = "h%d." % i
    return dict(base=ctx.ureal(p + "base", 0, 50000, grid=100), crit_rate=ctx.real(p + "crit_rate", 0, 1),
                crit_bonus=ctx.ureal(p + "crit_bonus", 0, 1), dh_rate=ctx.real(p + "dh_rate", 0, 1),
                trait=ctx.ureal(p + "trait", 0, 2, grid=100), mult=ctx.ureal(p + "mult", 0, 2, grid=100),
                time=ctx.int(p + "time", 0, 1000), potency=ctx.int(p + "potency", 0, 1000))


def fill(m, hits):
    tr = m.DamageTracker()
    for h in hits:
        tr.add_damage(h["base"], h["crit_rate"], h["crit_bonus"], h["dh_rate"], h["trait"], h["mult"], h["time"],
                      h["potency"], m.SkillModifier(), "", "")
    tr.finalize()
    return tr


def outcome_damage(h, base, crit, dh):
    """the damage of one outcome for a given roll of the base damage"""
    x = base
    if crit:
        x = x + floor(x * ex(h["crit_bonus"]))
    if dh:
        x = x + floor(div(x, 4))
    return floor(floor(x * ex(h["trait"])) * ex(h["mult"]))


def truth(v):
    return bool(v)


@contract("C03", "in_range", F, kind="bounded", bound="one hit, one sample (numpy applies the same expression to every element)")
def in_range(ctx):
    m = M(ctx)
    h = hit(ctx, 0)
    tr = ctx.run(fill, m, [h])
    with ctx.patch_random():
        rg = ctx.run(tr.get_damage_ranges_and_probabilities)
        dmg, crit, dh = ctx.run(tr.compute_damage, 1)
    c, d = truth(crit[0, 0]), truth(dh[0, 0])
    names = ("No crit, no DH", "Crit, no DH", "No crit, DH", "Crit, DH")
    ctx.check("four outcomes in order", tuple(x[0] for x in rg[0]) == names)
    low, high = rg[0][(1 if c else 0) + (2 if d else 0)][1:3]
    x = dmg[0, 0]
    ctx.check("sampled damage not below the advertised low", x >= low if ctx.symbolic else x >= low - 1e-6)
    ctx.check("sampled damage not above the advertised high", x <= high if ctx.symbolic else x <= high + 1e-6)
    ctx.check("chance 0 never rolled", And(Implies(c, h["crit_rate"] > 0), Implies(d, h["dh_rate"] > 0)))
    ctx.check("chance 1 always rolled", And(Implies(not c, h["crit_rate"] < 1), Implies(not d, h["dh_rate"] < 1)))
    ctx.cover("end")


@contract("C03", "ranges", F, kind="bounded", bound="two hits")
def ranges(ctx):
    m = M(ctx)
    hs = [hit(ctx, 0), hit(ctx, 1)]
    tr = ctx.run(fill, m, hs)
    with ctx.patch_random():
        rg = ctx.run(tr.get_damage_ranges_and_probabilities)
    ctx.check("one entry per hit", len(rg) == 2)
    for h, r in zip(hs, rg):
        tot = 0
        lo0, hi0 = floor(Fraction(95, 100) * ex(h["base"]) if not sym(h["base"]) else h["base"] * 95 / 100), \
            floor(Fraction(105, 100) * ex(h["base"]) if not sym(h["base"]) else h["base"] * 105 / 100)
        for k, (crit, dh) in enumerate(((0, 0), (1, 0), (0, 1), (1, 1))):
            pc = ex(h["crit_rate"]) if crit else 1 - ex(h["crit_rate"])
            pd = ex(h["dh_rate"]) if dh else 1 - ex(h["dh_rate"])
            ctx.eq("probability is the product", r[k][3], pc * pd)
            ctx.check("probability within 0 and 1", And(r[k][3] >= (0 if ctx.symbolic else -1e-12), r[k][3] <= (1 if ctx.symbolic else 1 + 1e-12)))
            tot = tot + r[k][3]
            ctx.eq("low end of the outcome", r[k][1], outcome_damage(h, lo0, crit, dh))
            ctx.eq("high end of the outcome", r[k][2], outcome_damage(h, hi0, crit, dh))
        ctx.eq("probabilities sum to 1", tot, 1)
    ctx.cover("end")


@contract("C03", "many", F, kind="bounded", split={"cr0": 2, "cr1": 2, "dr0": 2}, bound="two hits with fixed multipliers and chances 0 or 1, two samples: each sample uses its own hit and draws")
def many(ctx):
    m = M(ctx)
    hs = []
    for i in range(2):
        hs.append(dict(base=ctx.int("base%d" % i, 0, 10 ** 6), crit_rate=ctx.choice("cr%d" % i, (0, 1)),
                       crit_bonus=(0.5, 0.625)[i], dh_rate=ctx.choice("dr%d" % i, (0, 1)), trait=(1, 1.5)[i],
                       mult=(2, 1)[i], time=i, potency=100))
    tr = ctx.run(fill, m, hs)
    with ctx.patch_random():
        dmg, crit, dh = ctx.run(tr.compute_damage, 2)
        rg = ctx.run(tr.get_damage_ranges_and_probabilities)
    ctx.check("one row per hit, one column per sample", tuple(dmg.shape) == (2, 2))
    for i in range(2):
        for j in range(2):
            c, d = truth(crit[i, j]), truth(dh[i, j])
            ctx.check("certain outcomes are rolled", And(c == (hs[i]["crit_rate"] == 1), d == (hs[i]["dh_rate"] == 1)))
            low, high = rg[i][(1 if c else 0) + (2 if d else 0)][1:3]
            e = 0 if ctx.symbolic else 1e-6
            ctx.check("within its own hit's range", And(dmg[i, j] >= low - e, dmg[i, j] <= high + e))
    ctx.cover("end")


SIM = ["damage_simulator.py:DamageSimulator.__init__", "damage_simulator.py:DamageSimulator.__compile_damage",
       "damage_simulator.py:DamageSimulator.get_damage_matrix", "damage_simulator.py:DamageSimulator.get_crit_status",
       "damage_simulator.py:DamageSimulator.get_dh_status", "damage_simulator.py:DamageSimulator.get_damage_ranges"]


@contract("C03", "simulated", F + SIM, kind="bounded", split={"c0": 3, "d0": 3, "d1": 2},
          bound="simulations of two hits, critical and direct hits forced, forbidden or left to chance, one sample (three on the real code); all draws and times")
def simulated(ctx):
    m = M(ctx)
    Y = m.ForcedCritOrDH
    kinds = (Y.FORCE_YES, Y.FORCE_NO, Y.DEFAULT)
    f = [(ctx.choice("c0", kinds), ctx.choice("d0", kinds)), (ctx.choice("c1", kinds[1:]), ctx.choice("d1", kinds[:2]))]
    n = 1 if ctx.symbolic else 3
    st = m.Stats(wd=120, weapon_delay=2.6, main_stat=2500, det_stat=1500, dh_stat=1000, crit_stat=2000,
                 speed_stat=800, tenacity=600, job_class="test_job2", version="test", level=90)
    ts = [ctx.int("t0", 0, 9000), ctx.int("t1", 0, 9000)]
    ins = []
    for i in range(2):
        sk = m.Skill(name="s%d" % i, damage_spec=m.DamageSpec(potency=(300, 800)[i], guaranteed_crit=f[i][0], guaranteed_dh=f[i][1]))
        ins.append((ts[i], sk, m.SkillModifier(), (m.StatusEffects(), m.StatusEffects()), i, "T"))
    with ctx.patch_random():
        sim = ctx.run(m.DamageSimulator, st, ins, n, save_damage_matrix=True, save_crit_dh_status=True)
        rg = ctx.run(sim.get_damage_ranges)
    dmg, crit, dh = ctx.run(sim.get_damage_matrix), ctx.run(sim.get_crit_status), ctx.run(sim.get_dh_status)
    ctx.check("one row per hit, one column per sample", tuple(dmg.shape) == tuple(crit.shape) == tuple(dh.shape) == (2, n))
    order = [int(r[0][1]) for r in rg]
    ctx.check("ranges for both hits, in time order", sorted(order) == [0, 1])
    ctx.check("ranges for both hits, in time order", ts[order[0]] <= ts[order[1]])
    for k, i in enumerate(order):
        for j in range(n):
            c, d = truth(crit[k, j]), truth(dh[k, j])
            for got, want in ((c, f[i][0]), (d, f[i][1])):
                ctx.check("forced outcomes are rolled, forbidden ones are not", want is Y.DEFAULT or got == (want is Y.FORCE_YES))
            low, high = rg[k][1 + (1 if c else 0) + (2 if d else 0)][1:3]
            e = 0 if ctx.symbolic else 1e-6
            ctx.check("within the range of its hit and outcome", And(dmg[k, j] >= low - e, dmg[k, j] <= high + e))
    ctx.cover("end")


NAMES = ("No crit, no DH", "Crit, no DH", "No crit, DH", "Crit, DH")
FIELDS = dict(base_damage="base", crit_rate="crit_rate", crit_bonus="crit_bonus", dh_rate="dh_rate", trait_damage_mult="trait", damage_mult="mult")


def outcomes(h):
    """what is advertised for a hit: name, low, high and probability of each outcome"""
    lo, hi = floor(div(h["base"] * 95, 100)), floor(div(h["base"] * 105, 100))
    out = []
    for k, (crit, dh) in enumerate(((0, 0), (1, 0), (0, 1), (1, 1))):
        out.append([NAMES[k], outcome_damage(h, lo, crit, dh), outcome_damage(h, hi, crit, dh),
                    (h["crit_rate"] if crit else 1 - h["crit_rate"]) * (h["dh_rate"] if dh else 1 - h["dh_rate"])])
    return tuple(out)


@contract("C03", "in_range_any", F, kind="proof", no_conc=True, report_unreplayed=False)
def in_range_any(ctx):
    """any number of hits, any number of samples"""
    m = M(ctx)
    hits = ctx.seq("hits", lambda at: dict(base=at.real("base", 0), crit_rate=at.real("crit_rate", 0, 1), crit_bonus=at.real("crit_bonus", 0),
                                           dh_rate=at.real("dh_rate", 0, 1), trait=at.real("trait", 0), mult=at.real("mult", 0)))
    samples = ctx.dim("samples")
    tr = m.DamageTracker()
    tr.finalize()
    for a in FIELDS:
        if tuple(getattr(getattr(tr, a, None), "shape", ())) != (0, 1):
            ctx.unsupported("the tracker keeps its hits in another way")
    for a, f in FIELDS.items():
        setattr(tr, a, ctx.vector(hits, lambda h, f=f: h[f]))
    ctx.map(hits, outcomes)
    rg = ctx.run(tr.get_damage_ranges_and_probabilities)
    dmg, crit, dh = ctx.run(tr.compute_damage, samples)
    ctx.eq("one row per hit, one column per sample", list(dmg.shape) + list(crit.shape) + list(dh.shape), [hits.n, samples] * 3)
    ctx.eq("ranges for every hit", ctx.len(rg), hits.n)
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    ctx.assume(And(i < hits.n, j < samples))
    h, r = hits.at(i.z), rg[i]
    c, d = truth(crit[i, j]), truth(dh[i, j])
    low, high = r[(1 if c else 0) + (2 if d else 0)][1:3]
    x = dmg[i, j]
    want = outcomes(h)
    for k in range(4):
        ctx.check("the advertised outcomes of the hit", r[k][0] == NAMES[k])
        ctx.eq("low, high and probability of its outcomes", r[k][1:], want[k][1:])
    ctx.check("sampled damage not below the advertised low", x >= low)
    ctx.check("sampled damage not above the advertised high", x <= high)
    ctx.check("chance 0 never rolled", And(Implies(c, h["crit_rate"] > 0), Implies(d, h["dh_rate"] > 0)))
    ctx.check("chance 1 always rolled", And(Implies(not c, h["crit_rate"] < 1), Implies(not d, h["dh_rate"] < 1)))
    ctx.cover("end")
