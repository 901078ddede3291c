"""C01: pre-roll damage follows the game's formula, with every truncation."""
from common import *

F = ["calcs/compute_damage_utils.py:ComputeDamageUtils.get_base_damage",
     "calcs/compute_damage_utils.py:ComputeDamageUtils.compute_direct_damage",
     "calcs/compute_damage_utils.py:ComputeDamageUtils.compute_magical_dot_damage",
     "calcs/compute_damage_utils.py:ComputeDamageUtils.compute_physical_dot_damage",
     "calcs/compute_damage_utils.py:ComputeDamageUtils.compute_auto_damage",
     "calcs/compute_damage_utils.py:ComputeDamageUtils.compute_pet_damage",
     "calcs/compute_damage_utils.py:ComputeDamageUtils.get_guaranteed_dh_and_crit_bonus_dmg",
     "calcs/stat_fns.py:StatFns.*", "game_data/game_consts.py:GameConsts.get_*",
     "processed_stats.py:ProcessedStats.__init__", "stats.py:Stats.__post_init__",
     "game_data/job_class_fns.py:JobClassFns.is*", "skills/skill.py:Skill.get_damage_spec"]

# the game's level constants
LEVEL = {90: dict(main=390, sub=400, div=1900, ap=195, ap_tank=156, ten=100),
         100: dict(main=440, sub=420, div=2780, ap=237, ap_tank=190, ten=112)}
# job -> (role, job modifier)
JOBS = {"WAR": ("tank", 105), "PLD": ("tank", 100), "DRK": ("tank", 105), "GNB": ("tank", 100),
        "SAM": ("melee", 112), "DRG": ("melee", 115), "RPR": ("melee", 115), "MNK": ("melee", 110),
        "NIN": ("melee", 110), "VPR": ("melee", 110),
        "DNC": ("ranged", 115), "MCH": ("ranged", 115), "BRD": ("ranged", 115),
        "RDM": ("caster", 115), "SMN": ("caster", 115), "BLM": ("caster", 115), "PCT": ("caster", 115),
        "SCH": ("healer", 115), "SGE": ("healer", 115), "WHM": ("healer", 115), "AST": ("healer", 115)}
KINDS = ("DIRECT", "MAGICAL_DOT", "PHYSICAL_DOT", "AUTO", "PET")
SETS = (("7.05", 100), ("6.55", 90))


def formula(ctx, kind, role, job_mod, L, st, b, d, spec, forced_dh, forced_crit):
    P = st["potency"]
    det = floor(div(140 * (st["det"] - L["main"]), L["div"])) + 1000
    det = det + If(forced_dh, floor(div(140 * (st["dh"] - L["sub"]), L["div"])), 0)
    crit_bonus = div(floor(div(200 * (st["crit"] - L["sub"]), L["div"])) + 400, 1000)
    ten = floor(div(L["ten"] * (st["ten"] - L["sub"]), L["div"])) + 1000 if role == "tank" else None
    spd = floor(div(130 * (st["speed"] - L["sub"]), L["div"]) + 1000)
    party = 1 + Fraction(1, 100) * ex(st["roles"]) if not sym(st["roles"]) else 1 + div(st["roles"], 100)

    def main_stat(base):
        return floor(ex(base) * ex(b["msm"]) * ex(d["msm"])) + (ex(b["msa"]) + ex(d["msa"]))

    def ap(ms, tank):
        return floor(div((L["ap_tank"] if tank else L["ap"]) * (ms - L["main"]), L["main"])) + 100
    if kind == "AUTO" and role in ("healer", "caster"):
        ms = ex(st["str"]) * party
    elif kind == "PET":
        jm = job_mod if spec["pet_mod"] is None else spec["pet_mod"]
        diff = floor(div(L["main"] * job_mod, 100)) - floor(div(L["main"] * jm, 100))
        ms = main_stat(st["main"] - diff) * ex(spec["pet_scalar"])
        job_mod = jm
    else:
        ms = floor(main_stat(st["main"]) * party)
    AP = ap(ms, role == "tank" and kind != "PET")
    WD = floor(div(L["main"] * job_mod, 1000) + ex(st["wd"]))

    def tenacity(x):
        return div(floor(div(x * ten, 10)), 100) if role == "tank" else x
    if kind == "DIRECT" and role in ("healer", "caster"):
        x = div(floor(div(AP * det, 1000)), 100)
        x = floor(x * floor(div(WD * P, 100)))
    elif kind in ("DIRECT", "PET"):
        x = div(floor(div(div(floor(div(P * AP, 100)), 100) * det, 10)), 100)
        x = floor(tenacity(x) * WD)
    elif kind == "AUTO":
        x = div(floor(div(div(floor(div(P * AP, 100)), 100) * det, 10)), 100)
        x = tenacity(x)
        x = div(floor(x * (spd if role in ("tank", "melee", "ranged") else 1000)), 10)
        x = floor(div(floor(x * floor(WD * div(ex(st["delay"]), 3))), 100))
    elif kind == "MAGICAL_DOT":
        x = floor(div(floor(P * WD), 100))
        x = floor(floor(x * AP) * spd)
        x = floor(div(floor(x * det), 1000))
        if role == "tank":
            x = floor(div(x * ten, 1000))
        x = floor(div(floor(div(x, 1000)), 100))
    else:
        x = div(floor(div(P * AP * det, 100)), 1000)
        if role == "tank":
            x = floor(div(x * ten, 1000))
        x = floor(div(floor(x * spd), 1000))
        x = floor(div(floor(x * WD), 100))
    bdh = If(forced_dh, Fraction(1, 4) * (ex(b["dhr"]) + ex(d["dhr"])) if not (sym(b["dhr"]) or sym(d["dhr"])) else (b["dhr"] + d["dhr"]) / 4, 0)
    bcr = If(forced_crit, crit_bonus * (ex(b["cr"]) + ex(d["cr"])), 0)
    x = x + floor(x * bdh) + floor(x * bcr)
    return x * ex(spec["mult"])


def effects(ctx, m, p, fdh, fcr):
    v = dict(msm=ctx.ureal(p + "mult", 0, 2), msa=ctx.int(p + "add", -500, 500),
             cr=ctx.ureal(p + "crit", 0, 1), dhr=ctx.ureal(p + "dhr", 0, 1))
    return v, m.StatusEffects(main_stat_mult=v["msm"], main_stat_add=v["msa"], crit_rate_add=v["cr"],
                              dh_rate_add=v["dhr"], guaranteed_dh=fdh, guaranteed_crit=fcr)


def scenario(ctx, kind, jobs):
    m = M(ctx)
    ver, lvl = ctx.choice("version", SETS)
    job = ctx.choice("job", jobs)
    role, jm = JOBS[job]
    Y, N, D = m.ForcedCritOrDH.FORCE_YES, m.ForcedCritOrDH.FORCE_NO, m.ForcedCritOrDH.DEFAULT
    dh = [ctx.enum("force_dh%d" % i, (D, Y, N)) for i in range(4)]
    cr = [ctx.enum("force_crit%d" % i, (D, Y, N)) for i in range(4)]
    st = dict(potency=ctx.uint("potency", 1, 3000), det=ctx.uint("det", 0, 6000), dh=ctx.uint("dh", 0, 6000),
              crit=ctx.uint("crit", 0, 6000), ten=ctx.uint("ten", 0, 6000), speed=ctx.uint("speed", 0, 6000),
              roles=ctx.uint("roles", 0, 5), main=ctx.uint("main", 0, 9000), wd=ctx.uint("wd", 0, 300),
              str=ctx.uint("str", 0, 3000), delay=ctx.ureal("delay", 1, 4, grid=100))
    b, eb = effects(ctx, m, "buff.", dh[2], cr[2])
    d, ed = effects(ctx, m, "debuff.", dh[3], cr[3])
    spec = dict(mult=ctx.ureal("single_mult", 0, 3, grid=100), pet_mod=None, pet_scalar=1)
    extra = {}
    if kind == "PET":
        spec["pet_scalar"] = ctx.ureal("pet_scalar", 0, 2, grid=100)
        if ctx.flag("pet_override"):
            spec["pet_mod"] = ctx.uint("pet_mod", 1, 150)
        extra = dict(pet_scalar=spec["pet_scalar"], pet_job_mod_override=spec["pet_mod"])
    stats = m.Stats(wd=st["wd"], weapon_delay=st["delay"], main_stat=st["main"], det_stat=st["det"],
                    dh_stat=st["dh"], crit_stat=st["crit"], speed_stat=st["speed"],
                    tenacity=st["ten"], job_class=job, version=ver, num_roles_in_party=st["roles"],
                    healer_or_caster_strength=st["str"], level=lvl)
    skill = m.Skill(name="x", damage_spec=m.DamageSpec(
        potency=st["potency"], damage_class=getattr(m.DamageClass, kind), guaranteed_dh=dh[0], guaranteed_crit=cr[0],
        single_damage_mult=spec["mult"], **extra))
    mod = m.SkillModifier(guaranteed_dh=dh[1], guaranteed_crit=cr[1])
    fdh = Or([x == Y for x in dh])
    fcr = Or([x == Y for x in cr])
    fdh, fcr = bool(fdh), bool(fcr)  # splits the proof by case
    want = formula(ctx, kind, role, jm, LEVEL[lvl], st, b, d, spec, fdh, fcr)
    got = ctx.run(m.ComputeDamageUtils.get_base_damage, skill, mod, stats, (eb, ed))
    ctx.eq("pre-roll damage (%s, %s)" % (kind, role), got, Max(want, 1), tol=1e-7)
    ctx.cover("end")


ALL = tuple(sorted(JOBS))
for _k in KINDS:
    def _f(ctx, k=_k):
        scenario(ctx, k, ALL)
    contract("C01", "formula_" + _k.lower(), F, kind="proof", split={"version": 2}, conc_n=3000, conc_s=6)(_f)


@contract("C01", "edges", F, kind="proof", split={"version": 2})
def edges(ctx):
    """zero potency, no damage, and the refusal of healer/caster autos without strength"""
    m = M(ctx)
    ver, lvl = ctx.choice("version", SETS)
    job = ctx.choice("job", ALL)
    role, jm = JOBS[job]
    kind = ctx.choice("kind", KINDS)
    stats = m.Stats(wd=ctx.uint("wd", 0, 300), weapon_delay=3, main_stat=ctx.uint("main", 0, 9000),
                    det_stat=ctx.uint("det", 0, 6000), dh_stat=ctx.uint("dh", 0, 6000), crit_stat=ctx.uint("crit", 0, 6000),
                    speed_stat=ctx.uint("speed", 0, 6000), tenacity=ctx.uint("ten", 0, 6000), job_class=job,
                    version=ver, level=lvl)
    case = ctx.choice("case", ("none", "zero", "any"))
    ef = (m.StatusEffects(), m.StatusEffects())
    if case == "none":
        got = ctx.run(m.ComputeDamageUtils.get_base_damage, m.Skill(name="x"), m.SkillModifier(), stats, ef)
        ctx.check("no damage definition, no damage", got is None)
        return
    P = 0 if case == "zero" else ctx.int("potency", 1)
    skill = m.Skill(name="x", damage_spec=m.DamageSpec(potency=P, damage_class=getattr(m.DamageClass, kind)))
    o = ctx.call(m.ComputeDamageUtils.get_base_damage, skill, m.SkillModifier(), stats, ef)
    if case == "zero":
        ctx.check("zero potency does exactly 0", And(o.ok, eq(o.value, 0)))
    elif kind == "AUTO" and role in ("healer", "caster"):
        ctx.check("auto without strength refused", o.exc == "RuntimeError")
    else:
        ctx.check("at least 1", And(o.ok, o.value is not None and o.value >= 1))
    ctx.cover("end")
