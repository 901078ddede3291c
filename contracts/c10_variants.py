"""C10: the most specific matching variant of an action is used."""
from common import *
import itertools

F = ["utils.py:Utils.get_best_key", "utils.py:Utils.canonicalize_condition", "skills/skill.py:Skill.__canonicalize_dict",
     "skills/skill.py:Skill.get_damage_spec", "skills/skill.py:Skill.get_timing_spec", "skills/skill.py:Skill.get_buff_spec",
     "skills/skill.py:Skill.get_debuff_spec", "skills/skill.py:Skill.get_combo_spec", "skills/skill.py:Skill.get_job_resource_spec",
     "skills/skill.py:Skill.get_channeling_spec", "skills/skill.py:Skill.get_follow_up_skills",
     "skills/skill_modifier.py:SkillModifier.*"]
CONDS = ("p", "q two", "r")
SETS = subsets(CONDS, 3)
CONDS4 = CONDS + ("s-4",)
SETS4 = subsets(CONDS4, 4)


def best(table, have):
    """index of the variant to use: most conditions, all of them holding, the later one among equals"""
    k = None
    for i, s in enumerate(table):
        if set(s) <= set(have) and (k is None or len(s) >= len(table[k])):
            k = i
    return k


ASPECTS = {
    "damage": ("damage_spec", "get_damage_spec", lambda m, i: m.DamageSpec(potency=100 + i)),
    "timing": ("timing_spec", "get_timing_spec", lambda m, i: m.TimingSpec(base_cast_time=10 + i)),
    "buff": ("buff_spec", "get_buff_spec", lambda m, i: m.StatusEffectSpec(duration=1 + i)),
    "debuff": ("debuff_spec", "get_debuff_spec", lambda m, i: m.StatusEffectSpec(duration=1 + i)),
    "combo": ("combo_spec", "get_combo_spec", lambda m, i: (m.ComboSpec(combo_actions=("c%d" % i,)),)),
    "gauge": ("job_resource_spec", "get_job_resource_spec", lambda m, i: (m.JobResourceSpec(name="g", change=i),)),
    "channel": ("channeling_spec", "get_channeling_spec", lambda m, i: m.ChannelingSpec(duration=1 + i)),
    "follow-up": ("follow_up_skills", "get_follow_up_skills",
                  lambda m, i: (m.FollowUp(skill=m.Skill(name="f%d" % i), delay_after_parent_application=i),)),
}


def text(s, style):
    if style == 0:
        return ", ".join(s)
    if style == 1:
        return ",".join(reversed(s))
    if style == 2:
        return "  ,".join(" " + x for x in s)
    return "".join(x + ("," if i % 2 == (style % 2) else ", ") for i, x in enumerate(s))[:-1].rstrip(",")


@contract("C10", "lookup", F, kind="bounded", split={"aspect": 8}, conc_n=3000,
          bound="all variant tables with at most 3 variants over 3 conditions in every declaration order, chains over 4 conditions, "
                "all condition sets, five spellings; up to 6 variants over 4 conditions on the real code")
def lookup(ctx):
    m = M(ctx)
    field, getter, make = ASPECTS[ctx.choice("aspect", sorted(ASPECTS))]
    specs = [make(m, i) for i in range(6)]
    style = 0
    if ctx.exhaustive:
        tables = [t for k in (1, 2, 3) for t in itertools.permutations(SETS, k)]
        haves = SETS
        # chains of four conditions, in both directions
        tables += [tuple(ch) for p in itertools.permutations(CONDS4) for ch in
                   [[p[:i] for i in range(5)], [p[:i] for i in range(4, -1, -1)], [p[:2], p, (), p[:3]]]]
    else:
        n = ctx.size("n", 1, 3, 6)
        tables = [[ctx.choice("v%d" % i, SETS4) for i in range(n)]]
        if len(set(tables[0])) < n:
            return
        haves = SETS4
    for table in tables:
        style = (style + 1) % 5
        sk = m.Skill(name="x", **{field: {text(s, style): specs[i] for i, s in enumerate(table)}})
        for have in (haves if len(table) < 4 else SETS4):
            k = best(table, have)
            if k is None:
                continue
            mod = m.SkillModifier(with_condition=text(have, (style + 1) % 5))
            o = ctx.call(getattr(sk, getter), mod)
            ctx.check("most specific matching variant", o.ok and o.value is specs[k],
                      None if ctx.symbolic else "table %r, conditions %r, expected variant %d, got %r" % (table, have, k, o.value))
    ctx.cover("end")


@contract("C10", "plain", F, kind="bounded", split={"aspect": 8}, bound="every aspect without variants, all condition sets over 3 conditions")
def plain(ctx):
    m = M(ctx)
    field, getter, make = ASPECTS[ctx.choice("aspect", sorted(ASPECTS))]
    sp = make(m, 0)
    mod = m.SkillModifier(with_condition=", ".join(ctx.choice("have", SETS)))
    ctx.check("the one definition", ctx.run(getattr(m.Skill(name="x", **{field: sp}), getter), mod) is sp)
    v = ctx.run(getattr(m.Skill(name="x"), getter), mod)
    ctx.check("none defined, none used", v is None or len(v) == 0)
    ctx.cover("end")


@contract("C10", "modifier", F, kind="bounded", split={"op1": 7},
          bound="all starting sets over 3 conditions, two operations, copies made before and after")
def modifier(ctx):
    m = M(ctx)
    start = ctx.choice("start", SETS)
    a = m.SkillModifier(with_condition=text(start, 1))
    twin = m.SkillModifier(with_condition=text(start, 2))
    fresh = m.SkillModifier()
    b = copy.deepcopy(a)
    cur = set(start)
    ctx.check("starting set", set(a.with_condition) == cur and set(twin.with_condition) == cur)
    OPS = [("add", "p"), ("add", "q two, r"), ("add", ""), ("add", " s "), ("remove", "p"), ("remove", "zz"), ("add", "r,  p")]
    for k in (1, 2):
        op, c = ctx.choice("op%d" % k, OPS)
        r = ctx.run(a.add_to_condition if op == "add" else a.remove_from_condition, c)
        cs = {x.strip() for x in c.split(",")} if c else set()
        cur = cur | cs if op == "add" else cur - cs
        ctx.check("set after the change", set(a.with_condition) == cur)
        ctx.check("the same modifier is returned", r is a)
        ctx.check("other modifiers keep their sets", set(b.with_condition) == set(start) and set(twin.with_condition) == set(start)
                  and len(fresh.with_condition) == 0 and len(m.SkillModifier().with_condition) == 0)
        ctx.check("what was passed first is remembered", set(a.original_with_condition) == set(start))
    ctx.cover("end")


class KeySet:
    """a variant's set of conditions: how many, and whether all of them hold, is arbitrary"""
    sym_isa = frozenset
    _vc_spec_ = True

    def __init__(self, ctx, n, sub, have):
        self.ctx, self.n, self.sub, self.have = ctx, n, sub, have

    def sym_len(self):
        return self.n

    def issubset(self, s):
        if s is not self.have:
            self.ctx.unsupported("compared with something else")
        return self.sub

    __le__ = issubset

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        self.ctx.unsupported("operation %s on the conditions" % n)

    __iter__ = __len__ = __eq__ = __contains__ = __and__ = __sub__ = __lt__ = lambda self, *a: self.ctx.unsupported("operation on the conditions")
    __hash__ = lambda self: 3


class Variants:
    """an aspect's table of variants, of any size"""
    sym_isa = dict
    _vc_spec_ = True

    def __init__(self, ctx, keys):
        self.ctx, self._keys, self.asked = ctx, keys, []

    def sym_len(self):
        return self._keys.n

    def keys(self):
        return self._keys

    def __getitem__(self, k):
        self.asked.append(k)
        return self

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        self.ctx.unsupported("operation %s on the variants" % n)

    __iter__ = __len__ = __eq__ = __contains__ = lambda self, *a: self.ctx.unsupported("operation on the variants")
    __hash__ = None


@contract("C10", "lookup_any", F, kind="proof", no_conc=True, split={"aspect": 9})
def lookup_any(ctx):
    """any number of variants of any aspect: the one with most conditions among those that hold, the later of equals"""
    m = M(ctx)
    aspect = ctx.choice("aspect", (None,) + tuple(sorted(ASPECTS)))
    W = ctx.int("conditions that hold", 0)

    class Have:
        sym_isa = set
        _vc_spec_ = True
        sym_len = lambda self: W
        issuperset = lambda self, k: k.issubset(self)
        __iter__ = __len__ = __eq__ = __contains__ = lambda self, *a: ctx.unsupported("operation on the conditions")
        __hash__ = lambda self: 3
    have = Have()

    def make(at):
        n, sub = at.int("conditions", 0), at.bool("hold")
        ctx.assume(Implies(sub, n <= W))
        return KeySet(ctx, n, sub, have)
    from vc.engine import SymNum
    keys = ctx.seq("variants", lambda at: (SymNum(at.i), make(at)), nonempty=True)

    def step(a, x):
        i, k = x
        # the variants' sets are different: at most one is the set of all conditions that hold
        ctx.assume(Not(And(a["max"] == W, k.sub, k.n == W)))
        if bool(And(k.sub, k.n >= a["max"])):
            return {"idx": i, "max": k.n}
        return a
    f = ctx.fold(keys, {"idx": None, "max": -1}, step, ints=True,
                 inv=lambda a: a["max"] == -1 if a["idx"] is None else And(a["max"] >= 0, a["max"] <= W, a["idx"] >= 0, a["idx"] < keys.n))
    el = lambda a: keys.at(a["idx"].z)[1]
    f.derive(lambda a: [] if a["idx"] is None else [el(a)])
    f.derive(lambda a: None if a["idx"] is None else el(a))
    view = keys.view(lambda x: x[1])
    best = f.total
    if aspect is None:
        r = ctx.run(m.Utils.get_best_key, view, have)
        got = [r]
    else:
        sk = m.Skill(name="x")
        t = Variants(ctx, view)
        object.__setattr__(sk, ASPECTS[aspect][0], t)
        mod = m.SkillModifier()
        object.__setattr__(mod, "with_condition", have)
        ctx.check("one of the variants", ctx.run(getattr(sk, ASPECTS[aspect][1]), mod) is t)
        got = t.asked
    ctx.check("one variant", len(got) == 1)
    if best["idx"] is None:
        ctx.check("none matches", got[0] == frozenset([m.SimConsts.DEFAULT_CONDITION]))
    else:
        ctx.check("the variant with most conditions that hold", got[0] is el(best))
    ctx.cover("end")
