"""C02: hit chances honour forced outcomes and add up active effects."""
from common import *

F = ["calcs/compute_damage_utils.py:ComputeDamageUtils.compute_crit_rates_and_bonuses",
     "calcs/compute_damage_utils.py:ComputeDamageUtils.get_guaranteed_dh_and_crit_bonus_dmg",
     "calcs/compute_damage_utils.py:ComputeDamageUtils.get_guaranteed_dh_bonus_dmg_multiplier",
     "calcs/compute_damage_utils.py:ComputeDamageUtils.get_guaranteed_crit_bonus_dmg_multiplier",
     "calcs/compute_damage_utils.py:ComputeDamageUtils.__get_forced_*",
     "calcs/stat_fns.py:StatFns.get_crit_stats", "calcs/stat_fns.py:StatFns.get_dh_rate",
     "processed_stats.py:ProcessedStats.__init__"]
SETS = (("7.05", 100, 420, 2780), ("6.55", 90, 400, 1900), ("test", 90, 400, 1900))


def setup(ctx):
    m = M(ctx)
    ver, lvl, sub, dv = ctx.choice("version", SETS)
    job = "SAM" if ver != "test" else "test_job"
    Y, N, D = m.ForcedCritOrDH.FORCE_YES, m.ForcedCritOrDH.FORCE_NO, m.ForcedCritOrDH.DEFAULT
    dh = [ctx.enum("force_dh%d" % i, (D, Y, N)) for i in range(4)]
    cr = [ctx.enum("force_crit%d" % i, (D, Y, N)) for i in range(4)]
    crit, dhs = ctx.uint("crit", 0, 9000), ctx.uint("dh", 0, 6000)
    e = []
    add = []
    for i, p in enumerate(("buff", "debuff")):
        a = (ctx.real(p + ".crit", -1, 1), ctx.real(p + ".dh", -1, 1))
        add.append(a)
        e.append(m.StatusEffects(crit_rate_add=a[0], dh_rate_add=a[1], guaranteed_dh=dh[2 + i], guaranteed_crit=cr[2 + i]))
    stats = m.Stats(wd=100, weapon_delay=3, main_stat=1000, det_stat=400, dh_stat=dhs, crit_stat=crit, speed_stat=400,
                    tenacity=400, job_class=job, version=ver, level=lvl)
    spec = m.DamageSpec(potency=100, guaranteed_dh=dh[0], guaranteed_crit=cr[0])
    if ctx.flag("conditional"):
        # the spec of the variant in force is the one that counts
        skill = m.Skill(name="x", damage_spec={"": m.DamageSpec(potency=1), "c": spec})
        mod = m.SkillModifier(guaranteed_dh=dh[1], guaranteed_crit=cr[1], with_condition="c")
    else:
        skill = m.Skill(name="x", damage_spec=spec)
        mod = m.SkillModifier(guaranteed_dh=dh[1], guaranteed_crit=cr[1])
    yes = lambda xs: bool(Or([x == Y for x in xs]))
    no = lambda xs: bool(Or([x == N for x in xs]))
    sheet_crit = div(floor(div(200 * (crit - sub), dv)) + 50, 1000)
    sheet_bonus = div(floor(div(200 * (crit - sub), dv)) + 400, 1000)
    sheet_dh = div(floor(div(550 * (dhs - sub), dv)), 1000)
    return m, stats, skill, mod, tuple(e), add, (yes(dh), no(dh)), (yes(cr), no(cr)), sheet_crit, sheet_bonus, sheet_dh


def rate(force, sheet, adds):
    if force[0]:
        return 1
    if force[1]:
        return 0
    return Min(1, Max(0, sheet + ex(adds[0]) + ex(adds[1])))


@contract("C02", "rates", F, kind="proof", split={"version": 3, "conditional": 2})
def rates(ctx):
    m, stats, skill, mod, e, add, fdh, fcr, sc, sb, sd = setup(ctx)
    o = ctx.call(m.ComputeDamageUtils.compute_crit_rates_and_bonuses, stats, skill, mod, e)
    if (fdh[0] and fdh[1]) or (fcr[0] and fcr[1]):
        ctx.check("contradicting forced outcomes are refused", not o.ok)
        ctx.cover("contradiction")
        return
    ctx.check("no error otherwise", o.ok)
    if not o.ok:
        return
    d, c, bonus = o.value
    ctx.eq("direct hit chance", d, rate(fdh, sd, (add[0][1], add[1][1])))
    ctx.eq("critical chance", c, rate(fcr, sc, (add[0][0], add[1][0])))
    ctx.eq("critical bonus", bonus, sb)
    ctx.cover("end")


@contract("C02", "forced_bonus", F, kind="proof", split={"version": 3, "conditional": 2})
def forced_bonus(ctx):
    m, stats, skill, mod, e, add, fdh, fcr, sc, sb, sd = setup(ctx)
    if (fdh[0] and fdh[1]) or (fcr[0] and fcr[1]):
        return
    d, c = ctx.run(m.ComputeDamageUtils.get_guaranteed_dh_and_crit_bonus_dmg, stats, skill, mod, e)
    ctx.eq("extra damage of a forced direct hit", d, div(ex(add[0][1]) + ex(add[1][1]), 4) if fdh[0] else 0)
    ctx.eq("extra damage of a forced critical hit", c, sb * (ex(add[0][0]) + ex(add[1][0])) if fcr[0] else 0)
    ctx.cover("end")
