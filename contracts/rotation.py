"""helpers for contracts that go through the public timeline builders"""
from common import *

JOB = "test_job"
RB = "timeline_builders/rotation_builder.py:RotationBuilder."


def stats(m, job=JOB, speed=400, delay=3.0, version="test", level=90):
    return m.Stats(wd=120, weapon_delay=delay, main_stat=2500, det_stat=1500, crit_stat=1800, dh_stat=1200,
                   speed_stat=speed, tenacity=600, job_class=job, version=version, level=level)


def library(m, skills, job=JOB, priority=None, resources=None, breakers=None, others=None, version="test", level=90):
    lib = m.SkillLibrary(version=version, level=level)
    for j, sks in (others or {}).items():
        lib.set_current_job_class(j)
        for s in sks:
            lib.add_skill(s)
    lib.set_current_job_class(job)
    for s in skills:
        lib.add_skill(s)
    if priority is not None:
        lib.set_status_effect_priority(priority)
    for n, r in (resources or {}).items():
        lib.add_resource(n, r)
    for n, r in (breakers or {}).items():
        lib.add_combo_breaker(n, r)
    return lib


def timing(m, **k):
    d = dict(base_cast_time=0, gcd_base_recast_time=2500, animation_lock=0, application_delay=0,
             affected_by_speed_stat=False, affected_by_haste_buffs=False)
    d.update(k)
    return m.TimingSpec(**d)


class Ev:
    """an event as the user sees it"""

    def __init__(self, e):
        self.prio, self.name = e.priority, e.skill.name
        self.snap, self.sec = e.event_times.primary, e.event_times.secondary
        self.app = self.snap if self.sec is None else self.sec
        self.flags = [f for f in e.snapshot_status]
        self.targets = tuple(e.targets)
        self.mod, self.skill, self.eid = e.skill_modifier, e.skill, e.event_id
        self.cond = set(e.skill_modifier.with_condition)


def events(ctx, tl):
    return [Ev(e) for e in ctx.run(tl.get_q)]


def same_event(ctx, what, a, b, targets=None):
    ctx.eq(what + ": snapshot and application time", [a.snap, a.app], [b.snap, b.app])
    ctx.check(what + ": action", a.name == b.name)
    ctx.check(what + ": conditions and modifier", And(a.cond == b.cond, a.mod.guaranteed_crit == b.mod.guaranteed_crit,
              a.mod.guaranteed_dh == b.mod.guaranteed_dh, a.mod.force_combo == b.mod.force_combo,
              a.mod.bonus_percent == b.mod.bonus_percent))
    ctx.check(what + ": snapshot flags", a.flags == b.flags)
    ctx.check(what + ": targets", a.targets == (b.targets if targets is None else targets))
