"""Specification of status effects: what a user sees as active at a time (shared by C05, C06)."""
from common import *


class Eff:
    """an effect definition as the specification sees it"""

    def __init__(self, **k):
        self.__dict__.update(dict(duration=0, max_duration=None, uses=INF, max_uses=None, crit=0, dh=0, dmg=1, msa=0, msm=1,
                                  auto=0, haste=0, cast=0, gcd=0, extends=True, expires=(), allow=None, fcrit=None,
                                  fdh=None, cond=False, extend_only=False, clear=False))
        self.__dict__.update(k)
        if self.max_duration is None:
            self.max_duration = self.duration
        if self.max_uses is None:
            self.max_uses = self.uses

    def build(self, m):
        Y, N, D = m.ForcedCritOrDH.FORCE_YES, m.ForcedCritOrDH.FORCE_NO, m.ForcedCritOrDH.DEFAULT
        f = lambda v: {None: D, True: Y, False: N}[v] if v in (None, True, False) else v
        return m.StatusEffectSpec(
            duration=self.duration, max_duration=self.max_duration, num_uses=self.uses, max_num_uses=self.max_uses,
            crit_rate_add=self.crit, dh_rate_add=self.dh, damage_mult=self.dmg, main_stat_add=self.msa,
            main_stat_mult=self.msm, auto_attack_delay_reduction=self.auto, haste_time_reduction=self.haste,
            flat_cast_time_reduction=self.cast, flat_gcd_recast_time_reduction=self.gcd,
            extends_existing_duration=self.extends, expires_status_effects=self.expires, skill_allowlist=self.allow,
            guaranteed_crit=f(self.fcrit), guaranteed_dh=f(self.fdh), add_to_skill_modifier_condition=self.cond,
            extend_only=self.extend_only, clear_all_status_effects=self.clear)


class Model:
    """name -> [start, end, uses, Eff], per target for debuffs"""

    def __init__(self, priority=()):
        self.buffs, self.debuffs, self.priority = {}, {}, priority

    def expire(self, t):
        for d in [self.buffs] + list(self.debuffs.values()):
            for n in list(d):
                _, end, uses, _ = d[n]
                if bool(Or(t > end, uses == 0)):
                    del d[n]

    @staticmethod
    def put(d, t, name, e):
        if name not in d:
            if not bool(e.extend_only):
                d[name] = [t, t + e.duration, e.uses, e]
            return
        start, end, uses, _ = d[name]
        left = Max(end - t, 0)
        if bool(e.extends):
            left = Min(e.max_duration, left + e.duration)
        d[name] = [start, t + left, Min(uses + e.uses, e.max_uses), e]

    def apply(self, t, name, buff, debuff, targets):
        if buff is not None:
            if bool(buff.clear):
                self.buffs = {}
            self.put(self.buffs, t, name, buff)
            for x in buff.expires:
                if x in self.buffs:
                    self.buffs[x][1] = t
        if debuff is not None:
            for g in targets:
                d = self.debuffs.setdefault(g, {})
                self.put(d, t, name, debuff)
                for x in debuff.expires:
                    if x in d:
                        d[x][1] = t
                    if x in self.buffs:
                        self.buffs[x][1] = t

    def active(self, d, q, skill, deny):
        ok = [n for n, (s, e, u, f) in d.items()
              if not bool(q < s) and n not in deny and (f.allow is None or skill in f.allow)]
        top = [p for p in self.priority if p in ok]
        if top:
            k = self.priority.index(top[0])
            ok = [n for n in ok if n not in self.priority[k + 1:]]
        return ok

    def compile(self, d, q, skill="", deny=()):
        """-> names that count, fields, or None when refused"""
        ok = self.active(d, q, skill, deny)
        f = dict(crit_rate_add=0, dh_rate_add=0, damage_mult=1, main_stat_add=0, main_stat_mult=1,
                 auto_attack_delay_mult=1, haste_time_mult=1, flat_cast_time_reduction=0,
                 flat_gcd_recast_time_reduction=0)
        forced = {"guaranteed_crit": [], "guaranteed_dh": []}
        for n in ok:
            e = d[n][3]
            f["crit_rate_add"] = f["crit_rate_add"] + ex(e.crit)
            f["dh_rate_add"] = f["dh_rate_add"] + ex(e.dh)
            f["damage_mult"] = f["damage_mult"] * ex(e.dmg)
            f["main_stat_add"] = f["main_stat_add"] + ex(e.msa)
            f["main_stat_mult"] = f["main_stat_mult"] * ex(e.msm)
            f["auto_attack_delay_mult"] = f["auto_attack_delay_mult"] * (1 - ex(e.auto))
            f["haste_time_mult"] = f["haste_time_mult"] * (1 - ex(e.haste))
            f["flat_cast_time_reduction"] = f["flat_cast_time_reduction"] + ex(e.cast)
            f["flat_gcd_recast_time_reduction"] = f["flat_gcd_recast_time_reduction"] + ex(e.gcd)
            if e.fcrit is not None:
                forced["guaranteed_crit"].append(e.fcrit)
            if e.fdh is not None:
                forced["guaranteed_dh"].append(e.fdh)
        if any(len(v) > 1 for v in forced.values()):
            return None
        for n in ok:
            d[n][2] = d[n][2] - 1
        return ok, f, forced, {n for n in ok if bool(d[n][3].cond)}


def skill_with(m, name, buff=None, debuff=None):
    return m.Skill(name=name, buff_spec=None if buff is None else buff.build(m),
                   debuff_spec=None if debuff is None else debuff.build(m))


def compare(ctx, m, got, want, what):
    """got: Outcome of compile_buffs/compile_debuffs"""
    if want is None:
        ctx.check(what + ": two forced outcomes refused", not got.ok)
        return False
    ctx.check(what + ": no error", got.ok)
    if not got.ok:
        ctx.stop()
    ok, f, forced, conds = want
    se, cond = got.value
    ctx.check(what + ": exactly the active applicable effects count", sorted(se.status_effects) == sorted(ok))
    for k, v in f.items():
        ctx.eq(what + ": " + k, getattr(se, k), v)
    Y, N, D = m.ForcedCritOrDH.FORCE_YES, m.ForcedCritOrDH.FORCE_NO, m.ForcedCritOrDH.DEFAULT
    for k, v in forced.items():
        ctx.check(what + ": forced outcome", getattr(se, k) == (D if not v else (Y if v[0] else N)))
    ctx.check(what + ": flagged conditions", {c.strip() for c in cond.split(",") if c.strip()} == conds)
    return True
