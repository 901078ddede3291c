"""C24: area falloff and effect flags of an action cover all its parts."""
from common import *

F = ["skills/skill.py:Skill.__process_aoe_dropoff", "skills/skill.py:Skill.__post_init__",
     "skills/skill.py:Skill.__set_status_effect_stats", "skills/skill.py:Skill.__set_party_status_effect_stats",
     "skills/skill.py:Skill.get_damage_spec"]
TABLES = (("",), ("", "p"), ("p", "q", ""), ("p, q", "", "q"))


@contract("C24", "falloff", F, kind="bounded", split={"table": 4}, bound="4 variant tables with at most 3 variants; any potencies and falloff, all 9 secondary targets")
def falloff(ctx):
    m = M(ctx)
    table = ctx.choice("table", TABLES)
    off = ctx.real("falloff", 0, 1, grid=100)
    cls = [m.DamageClass.DIRECT, m.DamageClass.MAGICAL_DOT, m.DamageClass.PET]
    pots = [ctx.uint("pot%d" % i, 0, 2000) for i in range(len(table))]
    mk = lambda i: m.DamageSpec(potency=pots[i], damage_class=cls[i], guaranteed_crit=m.ForcedCritOrDH.FORCE_YES if i == 1 else m.ForcedCritOrDH.DEFAULT,
                                guaranteed_dh=m.ForcedCritOrDH.FORCE_NO if i == 0 else m.ForcedCritOrDH.DEFAULT,
                                trait_damage_mult_override=(None, 1, 1.1)[i], pet_scalar=0.5 + i, pet_job_mod_override=(None, 100, 50)[i],
                                use_min_potency=(3, None, 4)[i], single_damage_mult=1 + i)
    sk = ctx.run(m.Skill, name="x", has_aoe=True, aoe_dropoff=off, damage_spec={k: mk(i) for i, k in enumerate(table)})
    for i, k in enumerate(table):
        p = ctx.run(sk.get_damage_spec, m.SkillModifier(with_condition=k))
        ctx.eq("primary potency unchanged", p.potency, pots[i])
        same(ctx, p, mk(i))
        for t in range(2, 11):
            cond = (k + ", " if k else "") + "Target %d" % t
            s = ctx.run(sk.get_damage_spec, m.SkillModifier(with_condition=cond))
            ctx.eq("secondary potency reduced by the falloff", s.potency, (1 - ex(off)) * pots[i])
            same(ctx, s, mk(i))
    ctx.cover("end")


def same(ctx, a, b):
    for f in ("damage_class", "guaranteed_crit", "guaranteed_dh", "trait_damage_mult_override", "pet_scalar", "pet_job_mod_override",
              "use_min_potency", "single_damage_mult"):
        ctx.check("everything else equal", getattr(a, f) == getattr(b, f))


@contract("C24", "no_falloff", F, kind="bounded", bound="one table")
def no_falloff(ctx):
    m = M(ctx)
    p, q = ctx.uint("p", 0, 1000), ctx.uint("q", 0, 1000)
    sk = ctx.run(m.Skill, name="x", has_aoe=True, damage_spec={"": m.DamageSpec(potency=p), "c": m.DamageSpec(potency=q)})
    for t in range(2, 11):
        ctx.eq("same for every target without falloff", ctx.run(sk.get_damage_spec, m.SkillModifier(with_condition="Target %d" % t)).potency, p)
        ctx.eq("same for every target without falloff", ctx.run(sk.get_damage_spec, m.SkillModifier(with_condition="c, Target %d" % t)).potency, q)
    ctx.cover("end")


# effect definition -> (has, has party)
KINDS = ("none", "own", "party", "dict own", "dict party", "dict own then party")


def effect(m, kind, **k):
    own, party = m.StatusEffectSpec(**k), m.StatusEffectSpec(is_party_effect=True, **k)
    return {"none": None, "own": own, "party": party, "dict own": {"": None, "c": own}, "dict party": {"c": party, "": None},
            "dict own then party": {"": own, "c": party}}[kind]


@contract("C24", "flags", F, kind="bounded", split={"field": 2, "shape": 4, "main": 6},
          bound="main action and at most two follow-ups (plain or in variants), six kinds of effect definition each, buffs and debuffs")
def flags(ctx):
    m = M(ctx)
    field = ctx.choice("field", ("buff", "debuff"))
    shape = ctx.choice("shape", ("tuple", "tuple2", "dict", "dict2"))
    main = ctx.choice("main", KINDS)
    f1, f2 = ctx.choice("f1", KINDS), ctx.choice("f2", KINDS)
    what = ctx.choice("what", ({}, dict(duration=1000), dict(duration=1000, damage_mult=1.1), dict(add_to_skill_modifier_condition=True, duration=7), dict(clear_all_status_effects=True)))
    fu = [m.FollowUp(skill=m.Skill(name="f%d" % i, **{field + "_spec": effect(m, k, **what)}), delay_after_parent_application=0) for i, k in enumerate((f1, f2))]
    follow = {"tuple": (fu[0],), "tuple2": tuple(fu), "dict": {"": tuple(fu)}, "dict2": {"": (fu[0],), "c": (fu[1],)}}[shape]
    kinds = [main, f1] + ([f2] if shape != "tuple" else [])
    other = "debuff" if field == "buff" else "buff"
    sk = ctx.run(m.Skill, name="x", follow_up_skills=follow, **{field + "_spec": effect(m, main, **what)})
    ctx.check("flag: has " + field, getattr(sk, "has_" + field) == any(k != "none" for k in kinds))
    ctx.check("flag: has party " + field, getattr(sk, "has_party_" + field) == any("party" in k for k in kinds))
    ctx.check("flag: no " + other, not getattr(sk, "has_" + other) and not getattr(sk, "has_party_" + other))
    ctx.cover("end")


@contract("C24", "flags_any", F, kind="proof", no_conc=True, split={"field": 2, "main": 6, "dict": 2})
def flags_any(ctx):
    """any number of follow-ups (plain, or in the first of two variants), each with or without an effect of its own"""
    m = M(ctx)
    variants = ctx.choice("dict", (False, True))
    field = ctx.choice("field", ("buff", "debuff"))
    main = ctx.choice("main", KINDS)

    class El:
        pass

    def make(at):
        e = El()
        e.kind = at.choice("kind", KINDS)
        e.fu = m.FollowUp(skill=m.Skill(name="f", **{field + "_spec": effect(m, e.kind)}), delay_after_parent_application=0)
        return e
    seq = ctx.seq("follow-ups", make, on_step=lambda k, logs: logs and ctx.unsupported("a list is filled"))
    has = ctx.fold(seq, main != "none", lambda a, e: Or(a, e.kind != "none"), monotone=True)
    party = ctx.fold(seq, "party" in main, lambda a, e: Or(a, "party" in e.kind), monotone=True)
    ctx.fold(seq, False, lambda a, e: a)
    other = "debuff" if field == "buff" else "buff"
    fus = seq.view(lambda e: e.fu).posing(tuple)
    last = "none"
    if variants:
        last = ctx.choice("last", ("none", "own", "dict party"))
        fus = {"": fus, "c": (m.FollowUp(skill=m.Skill(name="f", **{field + "_spec": effect(m, last)}), delay_after_parent_application=0),)}
    sk = ctx.run(m.Skill, name="x", follow_up_skills=fus, **{field + "_spec": effect(m, main)})
    ctx.eq("flag: has " + field, getattr(sk, "has_" + field), main != "none" or Or(has.total, last != "none"))
    ctx.eq("flag: has party " + field, getattr(sk, "has_party_" + field), "party" in main or Or(party.total, "party" in last))
    ctx.check("flag: no " + other, not getattr(sk, "has_" + other) and not getattr(sk, "has_party_" + other))
    ctx.cover("end")
