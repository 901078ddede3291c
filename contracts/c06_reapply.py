"""C06: re-applying an effect extends, caps and replaces it correctly."""
from effects import *

T = "trackers/status_effect_tracker.py:StatusEffectTracker."
F = [T + x for x in ("add_to_status_effects", "__add_to_status_effects", "__expire_named_effect", "__get_debuffs")] + [
    "specs/status_effect_spec.py:StatusEffectSpec.__post_init__", "skills/skill.py:Skill.get_buff_spec", "skills/skill.py:Skill.get_debuff_spec"]


def some_effect(ctx, p, caps=True, **k):
    return Eff(duration=ctx.int_or_inf(p + "dur", 0), max_duration=ctx.int_or_inf(p + "maxdur", 0) if caps else None,
               uses=ctx.int_or_inf(p + "uses", 1), max_uses=ctx.int_or_inf(p + "maxuses", 1) if caps else None,
               crit=k.pop("crit", 0), **k)


def look(ctx, m, tr, md, q, n, targets=("t1", "t2")):
    """compares everything observable at q, n times (which shows the uses left)"""
    for _ in range(n):
        ctx.run(tr.expire_status_effects, q)
        md.expire(q)
        compare(ctx, m, ctx.call(tr.compile_buffs, q, m.Skill(name="x")), md.compile(md.buffs, q, "x"), "buffs")
        for g in targets:
            compare(ctx, m, ctx.call(tr.compile_debuffs, q, m.Skill(name="x"), g), md.compile(md.debuffs.get(g, {}), q, "x"),
                    "debuffs")


def put(ctx, m, tr, md, t, name, buff=None, debuff=None, targets=("t1",)):
    ctx.run(tr.add_to_status_effects, t, skill_with(m, name, buff, debuff), m.SkillModifier(), targets)
    md.apply(t, name, buff, debuff, targets)


@contract("C06", "twice", F, kind="bounded", split={"extends": 2, "buff": 2, "was": 2, "expire": 2},
          bound="one effect applied, then applied again (optionally after expiry), observed once; all times, durations, uses and caps unbounded")
def twice(ctx):
    m = M(ctx)
    tr, md = m.StatusEffectTracker(), Model()
    isbuff = ctx.flag("buff")
    t = ctx.int("t1")
    if ctx.flag("was"):
        e = some_effect(ctx, "e1.", caps=False, crit=0.25)
        put(ctx, m, tr, md, t, "A", *((e, None) if isbuff else (None, e)))
    t2 = ctx.int("t2", lo=t)
    if ctx.flag("expire"):
        ctx.run(tr.expire_status_effects, t2)
        md.expire(t2)
    e = some_effect(ctx, "e2.", crit=0.5, extends=ctx.flag("extends"), extend_only=ctx.flag("extend_only"))
    put(ctx, m, tr, md, t2, "A", *((e, None) if isbuff else (None, e)))
    look(ctx, m, tr, md, ctx.int("q"), 2)
    ctx.cover("end")


@contract("C06", "others", F, kind="bounded", split={"new": 4, "expires": 4, "kind": 3},
          bound="two buffs and two debuffs on two targets running, one (re)application that may expire up to two names or clear; times and durations unbounded")
def others(ctx):
    m = M(ctx)
    tr, md = m.StatusEffectTracker(), Model()
    t = 0
    dur = {n: ctx.int("dur." + n, 0) for n in "ABD"}
    put(ctx, m, tr, md, 0, "A", Eff(duration=dur["A"], crit=0.5))
    put(ctx, m, tr, md, 0, "B", Eff(duration=dur["B"], crit=0.25, uses=2))
    put(ctx, m, tr, md, 0, "D", None, Eff(duration=dur["D"], crit=0.125), ("t1", "t2"))
    put(ctx, m, tr, md, 0, "E", None, Eff(duration=INF, crit=0.0625), ("t2",))
    t2 = ctx.int("t2", 0)
    exp = ctx.choice("expires", ((), ("B",), ("D", "A"), ("E", "Z")))
    new = ctx.choice("new", "ABDN")
    kind = ctx.choice("kind", ("buff", "clear", "debuff"))
    e = Eff(duration=ctx.int("dur.new", 0), max_duration=INF, crit=0.03125, expires=exp, clear=kind == "clear")
    put(ctx, m, tr, md, t2, new, e if kind != "debuff" else None, e if kind == "debuff" else None,
        ctx.choice("where", (("t1",), ("t2", "t1"))) if kind == "debuff" else ("t1",))
    look(ctx, m, tr, md, ctx.int("q", 0), 1, ("t1", "t2", "t3"))
    ctx.cover("end")


def entry(m, r):
    """(start, end, uses, definition) of a stored effect, or stop the contract if stored differently"""
    return r if isinstance(r, tuple) and len(r) == 4 and isinstance(r[3], m.StatusEffectSpec) else None


@contract("C06", "any_state", F, kind="proof", split={"buff": 2, "extends": 2}, report_unreplayed=True)
def any_state(ctx):
    """one application in an arbitrary state: any number of other effects and targets with any contents"""
    m = M(ctx)
    tr = m.StatusEffectTracker()
    isbuff = ctx.flag("buff")
    if not (isinstance(getattr(tr, "buffs", None), dict) and isinstance(getattr(tr, "debuffs", None), dict)):
        return  # stored differently: decided by the bounded contracts
    old = {}
    made = []

    def effects_map(tag):
        def fresh(name):
            p = "%s.%s." % (tag, name)
            if not ctx.flag(p + "running"):
                return None
            e = Eff(duration=1, crit=0.25)
            old[(tag, name)] = [ctx.int(p + "start"), ctx.int_or_inf(p + "end"), ctx.int_or_inf(p + "uses"), e]
            return tuple(old[(tag, name)][:3]) + (e.build(m),)
        a = AnyMap(ctx, fresh)
        made.append((tag, a))
        return a
    tr.buffs = effects_map("buffs")

    def fresh_target(g):
        return effects_map("on " + g) if ctx.flag("known " + g) else None
    tr.debuffs = AnyMap(ctx, fresh_target)
    t = ctx.int("t")
    e = some_effect(ctx, "e.", crit=0.5, extends=ctx.flag("extends"), extend_only=ctx.flag("extend_only"))
    spec = skill_with(m, "A", *((e, None) if isbuff else (None, e)))
    ctx.run(tr.add_to_status_effects, t, spec, m.SkillModifier(), ("g",))
    tag = "buffs" if isbuff else "on g"
    maps = dict(made)
    if isbuff:
        st = tr.buffs
    else:
        st = tr.debuffs["g"]
    if ("A" in st) and entry(m, st["A"]) is None:
        return
    d = {"A": list(old[(tag, "A")])} if (tag, "A") in old else {}
    Model.put(d, t, "A", e)
    if "A" not in d:
        ctx.check("an extend-only effect that is not running changes nothing", "A" not in st)
    else:
        ctx.check("the effect is running afterwards", "A" in st)
        if "A" not in st:
            return
        got = st["A"]
        ctx.eq("start", got[0], d["A"][0])
        ctx.eq("end", got[1], d["A"][1])
        ctx.eq("uses", got[2], d["A"][2])
        ctx.check("definition taken over", got[3].crit_rate_add == d["A"][3].crit)
    # frame: nothing else was written
    for tg, mp in made:
        for k in mp.touched():
            if (tg, k) != (tag, "A"):
                was, now = old.get((tg, k)), mp.now[k]
                ctx.check("other effects untouched", (was is None) == (now is None) and (
                    now is None or And(eq(list(now[:3]), was[:3]), now[3].crit_rate_add == was[3].crit)))
    if isbuff:
        for g in tr.debuffs.touched():
            now = tr.debuffs.now[g]
            ctx.check("no debuff appears", now is None or isinstance(now, AnyMap) or len(now) == 0)
    else:
        ctx.check("buffs untouched", tr.buffs is maps["buffs"] and not any(
            (tr.buffs.now[k] is None) != (tr.buffs.orig[k] is None) for k in tr.buffs.touched()))
        for g in tr.debuffs.touched():
            if g != "g":
                now = tr.debuffs.now[g]
                ctx.check("other targets untouched", now is None or isinstance(now, AnyMap) or len(now) == 0)
    ctx.cover("end")
