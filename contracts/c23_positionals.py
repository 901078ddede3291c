"""C23: a logged bonus percentage identifies the combo/positional variant."""
from common import *

F = ["utils.py:Utils.get_positional_condition", "utils.py:Utils.get_best_key", "skills/skill_modifier.py:SkillModifier.add_to_condition",
     "skills/skill_modifier.py:SkillModifier.remove_from_condition"]
NP, NC = "No Positional", "No Combo"
TABLES = (
    ((), (NP,), (NC,), (NC, NP)),
    ((), (NP,)),
    ((NC, NP), (NP,), (), (NC,), ("X",), ("X", NP)),
    ((), ("X", NP), (NC,)),
    ((), (NC,)),
)


def best(table, have):
    k = None
    for i, s in enumerate(table):
        if set(s) <= set(have) and (k is None or len(s) >= len(table[k])):
            k = i
    return k


def trunc(x):
    return floor(x) if bool(x >= 0) else -floor(-x)


def aim(ctx, table, pots, bonus):
    """cross-check only: often pick a percentage some variant explains"""
    if ctx.symbolic or bonus is None or not ctx.flag("aim"):
        return bonus
    a, b = ctx.choice("aim.a", (0, 1, 2, 3, 4, 5)), ctx.choice("aim.b", (0, 1, 2, 3, 4, 5))
    a, b = pots[a % len(table)], pots[b % len(table)]
    return int(100 * (a - b) / a)


def run(ctx, table, pots, use_min, given, ignored, bonus, via):
    m = M(ctx)
    specs = {", ".join(s): m.DamageSpec(potency=pots[i], use_min_potency=use_min[i]) for i, s in enumerate(table)}
    if via == "own":
        sk = m.Skill(name="x", damage_spec=specs, ignored_conditions_for_bonus_potency=ignored)
    else:
        # the variants are those of the first follow-up that does damage
        plain = m.FollowUp(skill=m.Skill(name="b"), delay_after_parent_application=0)
        late = m.FollowUp(skill=m.Skill(name="z", damage_spec=m.DamageSpec(potency=1)), delay_after_parent_application=0)
        fu = {k: (plain, m.FollowUp(skill=m.Skill(name="f", damage_spec=v), delay_after_parent_application=0), late)
              for k, v in specs.items()}
        sk = m.Skill(name="x", follow_up_skills=fu, ignored_conditions_for_bonus_potency=ignored)
    mod = m.SkillModifier(with_condition=", ".join(given), bonus_percent=bonus)
    o = ctx.call(m.Utils.get_positional_condition, sk, mod)
    ctx.check("the caller's modifier is not modified", set(mod.with_condition) == set(given) and mod.bonus_percent is bonus)
    if o.ok:
        got = set(given) | {c.strip() for c in o.value.split(",") if c.strip()}
    given = set(given)
    if not any(NP in s for s in table) or bonus is None:
        ctx.check("conditions kept", o.ok and got == given)
        return
    if bool(bonus == 0):
        ctx.check("zero percent means a missed positional", o.ok and got == given | {NP})
        return
    have = given - set(ignored)
    low = pots[best(table, have | {NP, NC})]
    for extra in (set(), {NP}, {NC}, {NP, NC}):
        k = best(table, have | extra)
        base = use_min[k] if use_min[k] is not None and bool(use_min[k] != 0) else low
        if bool(trunc(div(100 * (pots[k] - base), pots[k])) == bonus):
            ctx.check("first variant that explains the percentage", o.ok and got == given | extra)
            ctx.cover("match")
            return
    ctx.check("unexplained percentage is an error", o.exc == "ValueError")
    ctx.cover("end")


@contract("C23", "infer", F, kind="bounded", split={"table": 5, "via": 2},
          bound="5 variant tables over 3 conditions, own or follow-up damage, 4 given condition sets; any potencies and percentages")
def infer(ctx):
    table = ctx.choice("table", TABLES)
    pots = [ctx.uint("pot%d" % i, 1, 600) for i in range(len(table))]
    bonus = aim(ctx, table, pots, ctx.int("bonus", 0, 100) if ctx.flag("logged") else None)
    run(ctx, table, pots, [None] * len(table), ctx.choice("given", ((), ("X",), (NC,), ("Y", NP))), (), bonus, ctx.choice("via", ("own", "follow-up")))


@contract("C23", "overrides", F, kind="bounded", split={"table": 4}, bound="4 tables, own minimum potency on two variants, ignored conditions; any potencies and percentages")
def overrides(ctx):
    table = ctx.choice("table", TABLES[:4])
    pots = [ctx.uint("pot%d" % i, 1, 600) for i in range(len(table))]
    um = [ctx.uint("min%d" % i, 1, 600) if i < 2 else None for i in range(len(table))]
    run(ctx, table, pots, um, ctx.choice("given", ((), ("X",), ("X", "Y"))), ctx.choice("ignored", ((), ("X",), ("Y", "Z"))),
        aim(ctx, table, pots, ctx.int("bonus", 1, 100)), "own")


@contract("C23", "plain", F, kind="bounded", bound="actions without variants")
def plain(ctx):
    m = M(ctx)
    given = ctx.choice("given", ((), ("X",), (NP, "X")))
    sk = ctx.choice("skill", (m.Skill(name="x"), m.Skill(name="x", damage_spec=m.DamageSpec(potency=10)), m.Skill(
        name="x", follow_up_skills=(m.FollowUp(skill=m.Skill(name="f", damage_spec=m.DamageSpec(potency=1)), delay_after_parent_application=0),)),
        m.Skill(name="x", follow_up_skills={"": (m.FollowUp(skill=m.Skill(name="f"), delay_after_parent_application=0),), NP: ()})))
    mod = m.SkillModifier(with_condition=", ".join(given), bonus_percent=ctx.int("bonus", 0, 100))
    r = ctx.run(m.Utils.get_positional_condition, sk, mod)
    ctx.check("conditions kept", set(given) | {c.strip() for c in r.split(",") if c.strip()} == set(given))
    ctx.check("the caller's modifier is not modified", set(mod.with_condition) == set(given))
    ctx.cover("end")


@contract("C23", "infer_any", F, kind="proof", no_conc=True, split={"given": 5, "own minimum": 2})
def infer_any(ctx):
    """any table of variants: which variant applies under given conditions is an arbitrary function of them (C10)"""
    m = M(ctx)
    given = set(ctx.choice("given", ((), ("X",), (NC,), ("Y", NP), ("X", NP, NC))))
    ignored = ctx.choice("ignored", ((), ("X",), ("Y", "Z")))
    own = ctx.choice("own minimum", (False, True))
    bonus = ctx.int("bonus", -1000, 100)
    table, pots, mins = {"No Positional, W": m.DamageSpec(potency=1)}, {}, {}
    keys = {}

    def variant(conds):
        """the variant that applies under these conditions"""
        c = frozenset(conds)
        if c not in keys:
            ctx.unsupported("a variant under other conditions")
        return keys[c]
    have = given - set(ignored)
    for i, extra in enumerate(({}, {NP}, {NC}, {NP, NC})):
        c = frozenset(have | set(extra))
        if c in keys:
            continue
        keys[c] = frozenset(["v%d" % i])
        pots[c] = ctx.int("pot%d" % i, 1)
        mins[c] = ctx.uint("min%d" % i, 1) if own else None
        table["v%d" % i] = m.DamageSpec(potency=pots[c], use_min_potency=mins[c])
    sk = m.Skill(name="x", damage_spec=table, ignored_conditions_for_bonus_potency=ignored)

    def best_key(ks, conds):
        ctx.check("looked up among the action's variants", set(ks) == set(sk.damage_spec))
        return variant(conds)
    m.Utils.get_best_key = staticmethod(best_key)
    mod = m.SkillModifier(with_condition=", ".join(sorted(given)), bonus_percent=bonus)
    o = ctx.call(m.Utils.get_positional_condition, sk, mod)
    got = given | {c.strip() for c in o.value.split(",") if c.strip()} if o.ok else None
    if bool(bonus == 0):
        ctx.check("zero percent means a missed positional", got == given | {NP})
        return
    low = pots[frozenset(have | {NP, NC})]
    for extra in (set(), {NP}, {NC}, {NP, NC}):
        c = frozenset(have | extra)
        base = mins[c] if own else low
        if bool(trunc(div(100 * (pots[c] - base), pots[c])) == bonus):
            ctx.check("first variant that explains the percentage", got == given | extra)
            return
    ctx.check("unexplained percentage is an error", o.exc == "ValueError")
    ctx.cover("end")
