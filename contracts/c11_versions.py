"""C11: version-dependent data resolves to the newest entry not after it."""
from common import *
import itertools

F = ["utils.py:Utils.get_greatest_val_less_than_query", "utils.py:Utils.get_greatest_dict_key_val_less_than_query",
     "game_data/specific_skills.py:SpecificSkills.*", "game_data/job_class_fns.py:JobClassFns.compute_trait_*"]
VERS = ("6.0", "6.55", "7.0", "7.01", "7.05", "7.1")
QUERIES = ("5.9", "6.0", "6.3", "6.55", "6.9", "7.0", "7.005", "7.01", "7.05", "7.08", "7.1", "7.11", "8.0")


@contract("C11", "greatest", F, kind="bounded", split={"n": 5}, bound="at most 4 listed versions with arbitrary values in any order")
def greatest(ctx):
    m = M(ctx)
    n = ctx.choice("n", (0, 1, 2, 3, 4))
    vals = [ctx.int("v%d" % i) for i in range(n)]
    q = ctx.int("q")
    o = ctx.call(m.Utils.get_greatest_val_less_than_query, vals, q)
    some = Or([v <= q for v in vals])
    if bool(some):
        ctx.check("found", o.ok)
        if o.ok:
            ctx.check("a listed version not greater than the requested one", And(o.value <= q, Or([o.value == v for v in vals])))
            for v in vals:
                ctx.check("no listed version in between", Not(And(v <= q, v > o.value)))
    else:
        ctx.check("none reported", o.exc == "ValueError")
    ctx.cover("end")


def expected(table, q):
    ok = [v for v in table if v <= q]
    return table[max(ok)] if ok else None


@contract("C11", "tables", F, kind="bounded", conc_n=300, bound="all tables of at most 3 of 6 versions in every order, 13 requested versions, two levels")
def tables(ctx):
    m = M(ctx)
    SpecificSkills = ctx.get("simulator.game_data.specific_skills:SpecificSkills")
    if ctx.exhaustive:
        tabs = [t for k in (1, 2, 3) for t in itertools.permutations(VERS, k)]
    else:
        n = ctx.choice("n", (1, 2, 3))
        tabs = [tuple(ctx.choice("k%d" % i, VERS) for i in range(n))]
    s = SpecificSkills()
    for i, t in enumerate(tabs):
        d = {v: 100 * (j + 1) + i for j, v in enumerate(t)}
        d2 = {v: -1 - j for j, v in enumerate(t)}
        s.add_skill_data("sk%d" % i, {90: {"potency": d, "potency_no_combo": d2, "potency_no_pos": d2},
                                      100: {"potency": d2, "potency_no_pos": d, "potency_no_combo": d}})
    for q in QUERIES:
        s.set_version(q)
        for lvl in (90, 100):
            s.set_level(lvl)
            for i, t in enumerate(tabs):
                d = {v: 100 * (j + 1) + i for j, v in enumerate(t)}
                d2 = {v: -1 - j for j, v in enumerate(t)}
                want = expected(d if lvl == 90 else d2, q)
                ctx.check("value for the version", ctx.run(m.Utils.get_greatest_dict_key_val_less_than_query, d, q) == expected(d, q))
                ctx.check("skill data for level and version", ctx.run(s.get_skill_data, "sk%d" % i, "potency") == want)
                for f, w in ((s.get_potency, want), (s.get_potency_no_combo, expected(d2 if lvl == 90 else d, q)),
                             (s.get_potency_no_positional, expected(d2 if lvl == 90 else d, q))):
                    o = ctx.call(f, "sk%d" % i)
                    ctx.check("required potency or an error", (not o.ok) if w is None else (o.ok and o.value == w))
    ctx.check("unknown data refused", not ctx.call(s.get_skill_data, "zz", "potency").ok
              and not ctx.call(s.get_skill_data, "sk0", "zz").ok)
    ctx.cover("end")


TRAIT = {**{j: 1.3 for j in ("SCH", "SGE", "WHM", "AST", "RDM", "SMN", "BLM", "PCT")}, **{j: 1.2 for j in ("DNC", "BRD", "MCH")}}
JOBS = ("SCH", "SGE", "WHM", "AST", "RDM", "SMN", "BLM", "PCT", "DNC", "BRD", "MCH", "WAR", "PLD", "DRK", "GNB", "SAM", "DRG",
        "RPR", "MNK", "NIN", "VPR", "???")


@contract("C11", "traits", F, kind="bounded", conc_n=10, bound="all jobs (and an unlisted one), both levels, 13 versions, every kind of trait")
def traits(ctx):
    J = ctx.get("simulator.game_data.job_class_fns:JobClassFns")
    lvl = ctx.choice("level", (90, 100))
    for q in QUERIES:
        for j in JOBS:
            ctx.eq("trait multiplier", ctx.run(J.compute_trait_damage_mult, j, q, lvl), TRAIT.get(j, 1))
            red = 0
            if q >= "6.55" and j == "MNK":
                red = 0.2
            if q >= "7.0" and lvl == 100 and j == "NIN":
                red = 0.15
            ctx.eq("haste trait", ctx.run(J.compute_trait_haste_time_reduction, j, q, lvl), red)
            ctx.eq("auto-attack trait", ctx.run(J.compute_trait_auto_attack_delay_reduction, j, q, lvl), red)
    ctx.cover("end")


class Table:
    """a version table of any size: looking a version up is recorded"""
    sym_isa = dict
    _vc_spec_ = True

    def __init__(self, ctx, keys):
        self.ctx, self._keys, self.asked = ctx, keys, []

    def keys(self):
        return self._keys

    def __getitem__(self, k):
        self.asked.append(k)
        return "the entry"

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        self.ctx.unsupported("operation %s on the table" % n)

    __iter__ = __len__ = __eq__ = __contains__ = lambda self, *a: self.ctx.unsupported("operation on the table")
    __hash__ = None


@contract("C11", "greatest_any", F, kind="proof", no_conc=True, split={"what": 2})
def greatest_any(ctx):
    """the newest of any number of listed versions not after the requested one"""
    m = M(ctx)
    q = ctx.int("q")
    vals = ctx.seq("versions", lambda at: at.int("version"))

    def step(a, v):
        if bool(v <= q):
            return {"n": a["n"] + 1, "best": v if a["best"] is None else Max(a["best"], v)}
        return a
    f = ctx.fold(vals, {"n": 0, "best": None}, step, ints=True,
                 inv=lambda a: a["n"] == 0 if a["best"] is None else And(a["n"] > 0, a["best"] <= q)).total
    if ctx.choice("what", ("version", "entry")) == "version":
        o = ctx.call(m.Utils.get_greatest_val_less_than_query, vals, q)
        if f["best"] is None:
            ctx.check("none reported", o.exc == "ValueError")
        else:
            ctx.check("found", o.ok)
            if o.ok:
                ctx.check("the greatest listed version not after the requested one", o.value == f["best"])
    else:
        d = Table(ctx, vals)
        v = ctx.run(m.Utils.get_greatest_dict_key_val_less_than_query, d, q)
        if f["best"] is None:
            ctx.check("no entry", v is None)
        else:
            ctx.check("that version's entry", v == "the entry" and len(d.asked) == 1 and d.asked[0] == f["best"])
    ctx.cover("end")
