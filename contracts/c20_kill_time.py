"""C20: kill times are the first moment cumulative damage reaches the HP."""
from common import *
import numpy as np

F = ["kill_time_estimator.py:KillTimeEstimator.estimate_kill_time", "kill_time_estimator.py:KillTimeEstimator.get_lb_damage",
     "kill_time_estimator.py:KillTimeEstimator.process_damage_for_lb_usage", "kill_time_estimator.py:KillTimeEstimator.add_rotation",
     "damage_simulator.py:DamageSimulator.get_damage_matrix", "damage_simulator.py:DamageSimulator.get_damage_time"]


class Rot:
    """a rotation: the interface the estimator uses"""

    def __init__(self, stats, lib, tl):
        self.stats, self._skill_library, self.tl = stats, lib, tl

    def get_stats(self):
        return self.stats

    def get_skill_timing(self):
        return self.tl


def rotation(m, hits):
    """hits: list of (time, skill, modifier)"""
    lib = m.SkillLibrary("test")
    lib.set_current_job_class("test_job")
    st = m.Stats(wd=126, weapon_delay=3.44, main_stat=2945, det_stat=1620, crit_stat=2377, dh_stat=1048, speed_stat=708,
                 job_class="test_job", version="test")
    tl = m.SnapshotAndApplicationEvents()
    for k, (t, sk, mod) in enumerate(hits):
        # same-time events are told apart by name only; keep the priorities different
        tl.add(t, t, None, sk, mod, [True, True])
    return Rot(st, lib, tl)


def lb(m, name, kind, amount):
    sk = m.Skill(name=name, damage_spec=m.DamageSpec(potency=100, guaranteed_crit=m.ForcedCritOrDH.FORCE_NO,
                                                             guaranteed_dh=m.ForcedCritOrDH.FORCE_NO), is_GCD=False)
    mod = m.SkillModifier(with_condition="%s %d" % (kind, amount)) if kind else m.SkillModifier()
    return sk, mod


def check_kills(ctx, kt, cum, ts, hp, n):
    ctx.check("one entry per sample", len(kt) == n)
    want = []
    for j in range(n):
        k = None
        for i in range(len(ts)):
            if bool(cum[i, j] >= hp):
                k = i
                break
        want.append(None if k is None else ts[k])
    alive = [w for w in want if w is not None]
    for a, w in zip(kt, alive + [None] * (n - len(alive))):
        if w is None:
            ctx.check("missing kill times at the end", a is None)
        else:
            ctx.check("a kill time", a is not None)
            if a is not None:
                ctx.eq("kill time is the first crossing, in seconds", a * 1000, w)


@contract("C20", "crossing", F, kind="bounded", split={"split": 3},
          bound="three hits of known damage over one or two rotations at any different times, any boss HP, one sample")
def crossing(ctx):
    m = M(ctx)
    ts = [ctx.int("t%d" % i, 0, 1000000) for i in range(3)]
    ctx.assume(And(ts[0] != ts[1], ts[0] != ts[2], ts[1] != ts[2]))
    dmg = (1000, 300, 5)
    hits = [(ts[i],) + lb(m, "%d LB" % i, m.SimConsts.LB_EXACT_DAMAGE, dmg[i]) for i in range(3)]
    cut = ctx.choice("split", (0, 1, 2))
    hp = ctx.int("hp", 1, 2000)
    est = m.KillTimeEstimator(hp)
    groups = [hits[:cut], hits[cut:]] if cut else [hits]
    for g in groups:
        ctx.run(est.add_rotation, rotation(m, g))
    with ctx.patch_random():
        kt, cum, allt = ctx.run(est.estimate_kill_time, num_samples=1, verbose=False)
    order = sorted_by(ts)
    acc = 0
    ctx.check("merged times", len(allt) == 3)
    for k, i in enumerate(order):
        acc += dmg[i]
        ctx.eq("merged times in order", allt[k], ts[i])
        ctx.eq("cumulative damage in time order", cum[k, 0], acc)
    check_kills(ctx, kt, cum, [ts[i] for i in order], hp, 1)
    ctx.cover("end")


def sorted_by(ts):
    order = []
    for i in range(len(ts)):
        k = len(order)
        while k > 0 and bool(ts[i] < ts[order[k - 1]]):
            k -= 1
        order.insert(k, i)
    return order


@contract("C20", "samples", F, kind="bounded", bound="two hits, one of them a limit break with a stated mean, two samples, any draws and HP")
def samples(ctx):
    m = M(ctx)
    t0 = ctx.int("t0", 0, 1000000)
    t1 = t0 + ctx.int("dt1", 1, 1000000)
    a = (t0,) + lb(m, "a LB", m.SimConsts.LB_MEAN_DAMAGE, 2000)
    b = (t1,) + lb(m, "b LB 2", m.SimConsts.LB_EXACT_DAMAGE, 700)
    first = ctx.flag("swap")
    if first:
        a, b = (t0,) + b[1:], (t1,) + a[1:]
    hp = ctx.int("hp", 1, 4000)
    est = m.KillTimeEstimator(hp)
    ctx.run(est.add_rotation, rotation(m, [a, b]))
    with ctx.patch_random():
        kt, cum, allt = ctx.run(est.estimate_kill_time, num_samples=2, verbose=False)
    for j in range(2):
        d = (cum[0, j], cum[1, j] - cum[0, j])
        mean, exact = (d[1], d[0]) if first else d
        ctx.eq("stated damage exactly", exact, 700)
        ctx.check("stated mean within 5%", And(mean >= 1900, mean <= 2100))
    check_kills(ctx, kt, cum, [t0, t1], hp, 2)
    ctx.cover("end")


@contract("C20", "rolled", F, kind="bounded", conc_n=1000, bound="two ordinary hits and a limit break, one sample: only the limit break's damage is replaced")
def rolled(ctx):
    m = M(ctx)
    ts = [ctx.int("t0", 0, 1000000)]
    for i in (1, 2):
        ts.append(ts[-1] + ctx.int("dt%d" % i, 1, 1000000))
    pos = ctx.choice("pos", (0, 1, 2))
    mk = lambda i: m.Skill(name="hit%d" % i, damage_spec=m.DamageSpec(potency=300 * (i + 1), guaranteed_crit=m.ForcedCritOrDH.FORCE_NO,
                                                                      guaranteed_dh=m.ForcedCritOrDH.FORCE_NO))
    hits, exp = [], []
    r0 = rotation(m, [])
    for i in range(3):
        if i == pos:
            hits.append((ts[i],) + lb(m, "x LB", m.SimConsts.LB_EXACT_DAMAGE, 50))
            exp.append(None)
        else:
            sk = mk(i)
            hits.append((ts[i], sk, m.SkillModifier()))
            exp.append(ctx.run(m.ComputeDamageUtils.get_base_damage, sk, m.SkillModifier(), r0.stats, (m.StatusEffects(), m.StatusEffects())))
    hp = ctx.int("hp", 1, 10 ** 6)
    est = m.KillTimeEstimator(hp)
    ctx.run(est.add_rotation, rotation(m, hits))
    with ctx.patch_random():
        kt, cum, allt = ctx.run(est.estimate_kill_time, num_samples=1, verbose=False)
    prev = 0
    for i in range(3):
        d = cum[i, 0] - prev
        prev = cum[i, 0]
        if exp[i] is None:
            ctx.eq("stated damage in place of the roll", d, 50)
        else:
            ctx.check("rolled damage of the hit itself", And(d >= floor(Fraction(95, 100) * ex(exp[i])), d <= ceil(Fraction(105, 100) * ex(exp[i]))))
    check_kills(ctx, kt, cum, ts, hp, 1)
    ctx.cover("end")


@contract("C20", "stated", F, kind="bounded", bound="conditions: exact, mean, neither")
def stated(ctx):
    m = M(ctx)
    kind = ctx.choice("kind", (m.SimConsts.LB_EXACT_DAMAGE, m.SimConsts.LB_MEAN_DAMAGE, None, "Something:"))
    amount = ctx.choice("amount", (1, 20, 999, 123456))
    est = m.KillTimeEstimator(10)
    cond = "%s %d" % (kind, amount) if kind else ""
    with ctx.patch_random():
        o = ctx.call(m.KillTimeEstimator.get_lb_damage, cond, 2)
    if kind not in (m.SimConsts.LB_EXACT_DAMAGE, m.SimConsts.LB_MEAN_DAMAGE):
        ctx.check("refused without a stated damage", not o.ok)
        ctx.run(est.add_rotation, rotation(m, [(0,) + lb(m, "LB", kind, amount)]))
        ctx.check("refused without a stated damage", not ctx.call(est.estimate_kill_time, num_samples=1, verbose=False).ok)
        return
    ctx.check("no error", o.ok)
    if not ctx.symbolic and kind == m.SimConsts.LB_MEAN_DAMAGE and amount > 500:
        ctx.check("mean", abs(np.mean(ctx.run(m.KillTimeEstimator.get_lb_damage, cond, 2000)) - amount) < amount / 100)
    for j in range(2):
        v = np.broadcast_to(np.asarray(o.value), (1, 2))[0, j]
        if kind == m.SimConsts.LB_EXACT_DAMAGE:
            ctx.eq("exact", v, amount)
        else:
            ctx.check("mean within 5%", And(v >= floor(Fraction(95, 100) * amount, True), v <= Fraction(105, 100) * amount if not ctx.symbolic else v * 100 <= 105 * amount))
    ctx.cover("end")


class Thing:
    def __init__(self, **k):
        self.__dict__.update(k)


@contract("C20", "crossing_any", F, kind="bounded", no_conc=True, report_unreplayed=False,
          bound="one rotation of any number of hits at different times in any order, two samples")
def crossing_any(ctx):
    """the simulator's matrix and times are what its contract (C04) lets them be"""
    import z3
    from vc.engine import SymBool, zn, toreal
    m = M(ctx)
    mod = ctx.mod("kill_time_estimator.kill_time_estimator")
    if not (hasattr(mod, "DamageBuilder") and hasattr(mod, "DamageSimulator")):
        ctx.unsupported("simulated elsewhere")
    hits = ctx.seq("hits", lambda at: Thing(t=at.int("t", 0), d=(at.real("d0", 0), at.real("d1", 0))), nonempty=True, sorted_by=lambda h: h.t)
    order = ctx.permuted(hits)
    T = z3.Function("hits.t", z3.IntSort(), z3.IntSort())
    sums = [ctx.fold(hits, 0, lambda acc, h, j=j: acc + h.d[j]) for j in range(2)]
    asked = []

    class Sim:
        def __init__(self, stats, instances, num_samples, *a, **k):
            asked.append((stats, instances, num_samples, k.get("save_damage_matrix", a[1] if len(a) > 1 else False)))
            self.x = order.matrix(num_samples, lambda h, j: h.d[int(str(j))])

        def get_damage_matrix(self):
            return self.x

        def get_damage_time(self):
            return order.vector(lambda h: h.t)

        def get_per_skill_damage(self):
            v = hits.view(lambda h: Thing(skill_name="hit", skill_modifier_condition=()))
            v.order = None
            return v

    class Build:
        def __init__(self, stats, lib):
            self.lib = lib

        def get_damage_instances(self, tl, *a):
            return ("instances", self.lib, tl)
    mod.DamageSimulator, mod.DamageBuilder = Sim, Build
    hp = ctx.real("hp", 0)
    est = m.KillTimeEstimator(hp)
    ctx.run(est.add_rotation, Rot("stats", "lib", "timeline"))
    kt, cum, allt = ctx.run(est.estimate_kill_time, num_samples=2, verbose=False)
    ctx.check("the rotation's own damage, saved", asked == [("stats", ("instances", "lib", "timeline"), 2, True)])
    ctx.eq("merged times and damage", [ctx.len(allt)] + list(cum.shape), [hits.n, hits.n, 2])
    q = ctx.int("q", 0)
    ctx.assume(q < hits.n)
    named = ctx.instances(q)
    for a in [q.z] + named:
        for b in [q.z] + named:
            ctx.axiom(z3.Implies(a < b, T(a) < T(b)))      # at different times, indexed in their order
    at = hits.at(q.z)
    so_far = [f.at(q.z + 1) for f in sums]
    for f in sums:
        f.unfold(q.z)
    ctx.eq("merged times in order", allt[q], at.t)
    ctx.eq("cumulative damage in time order", [cum[q, 0], cum[q, 1]], so_far)
    ctx.check("one entry per sample", len(kt) == 2)
    dead = [j for j in range(2) if kt[j] is not None]
    ctx.check("missing kill times at the end", dead in ([], [0], [0, 1]))
    # the entry of sample j: its own if it died; one that died is listed for it
    for k in range(2):
        if kt[k] is None:
            continue
        ctx.cover("killed")
        when = kt[k] * 1000
        ok = [And(Implies(at.t < when, so_far[j] < hp), Implies(at.t == when, so_far[j] >= hp)) for j in range(2)]
        if len(dead) == 2:
            ctx.check("kill time is the first crossing, in seconds", ok[k])
        else:
            ctx.check("kill time is the first crossing, in seconds", Or(*ok))
        ctx.check("kill time is the time of a hit", Or(*[SymBool(z3.ToReal(T(f)) == toreal(zn(when))) for f in named]))
    for k in range(2):
        if len(dead) == 0:
            ctx.check("missing only if the HP is never reached", so_far[k] < hp)
    if len(dead) == 1:
        ctx.check("missing only if the HP is never reached", Or(so_far[0] < hp, so_far[1] < hp))
    ctx.cover("end")
