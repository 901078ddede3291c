import contextlib, copy, io, math, os, sys
import numpy as np
A = "ama_xiv_combat_sim."
from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils
from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
from ama_xiv_combat_sim.simulator.calcs.forced_crit_or_dh import ForcedCritOrDH
from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
from ama_xiv_combat_sim.simulator.game_data.game_consts import GameConsts
from ama_xiv_combat_sim.simulator.sim_consts import SimConsts
from ama_xiv_combat_sim.simulator.skills.skill import Skill
from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary
from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier
from ama_xiv_combat_sim.simulator.specs.channeling_spec import ChannelingSpec
from ama_xiv_combat_sim.simulator.specs.combo_spec import ComboSpec
from ama_xiv_combat_sim.simulator.specs.damage_spec import DamageSpec
from ama_xiv_combat_sim.simulator.specs.follow_up import FollowUp
from ama_xiv_combat_sim.simulator.specs.job_resource_settings import JobResourceSettings
from ama_xiv_combat_sim.simulator.specs.job_resource_spec import JobResourceSpec
from ama_xiv_combat_sim.simulator.specs.status_effect_spec import StatusEffectSpec
from ama_xiv_combat_sim.simulator.specs.timing_spec import TimingSpec
from ama_xiv_combat_sim.simulator.stats import Stats
from ama_xiv_combat_sim.simulator.timeline_builders.damage_builder import DamageBuilder
from ama_xiv_combat_sim.simulator.timeline_builders.rotation_builder import RotationBuilder
from ama_xiv_combat_sim.simulator.timeline_builders.snapshot_and_application_events import SnapshotAndApplicationEvents
from ama_xiv_combat_sim.simulator.trackers.channeling_tracker import ChannelingTracker
from ama_xiv_combat_sim.simulator.trackers.combo_tracker import ComboTracker
from ama_xiv_combat_sim.simulator.trackers.damage_tracker import DamageTracker
from ama_xiv_combat_sim.simulator.trackers.job_resource_tracker import JobResourceTracker
from ama_xiv_combat_sim.simulator.trackers.status_effect_tracker import StatusEffectTracker
from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects
from ama_xiv_combat_sim.simulator.utils import Utils

JOB = "test_job"


def stats(job=JOB, version="test", level=90, **k):
    d = dict(wd=120, weapon_delay=3.0, main_stat=2500, det_stat=1500, crit_stat=1800, dh_stat=1200, speed_stat=400,
             tenacity=600, job_class=job, version=version, level=level)
    d.update(k)
    return Stats(**d)


def lib(*skills, job=JOB, version="test", level=90):
    l = SkillLibrary(version=version, level=level)
    l.set_current_job_class(job)
    for s in skills:
        l.add_skill(s)
    return l


def tm(**k):
    d = dict(base_cast_time=0, gcd_base_recast_time=2500, animation_lock=0, application_delay=0,
             affected_by_speed_stat=False, affected_by_haste_buffs=False)
    d.update(k)
    return TimingSpec(**d)


def evs(rb):
    """(name, snapshot, application, targets) in order of the timeline"""
    out = []
    for e in rb.get_skill_timing().get_q():
        s = e.event_times.secondary
        out.append((e.skill.name, e.event_times.primary, e.event_times.primary if s is None else s, tuple(e.targets)))
    return out


def apps(rb, name):
    return sorted(x[2] for x in evs(rb) if x[0] == name)


NONE = (StatusEffects(), StatusEffects())


def raises(f, *exc):
    try:
        f()
    except (exc or Exception):
        return True
    return False
