"""shared helpers of the contracts"""
import copy
import math
from fractions import Fraction

from vc.harness import contract
from vc.spec import And, Or, Not, Implies, Iff, If, Max, Min, floor, ceil, div, eq, ex, sym

INF = math.inf
S = "simulator."


class M:
    """lazy access to the code under verification (instrumented or real)"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __getattr__(self, n):
        where = {
            "Skill": "simulator.skills.skill", "SkillModifier": "simulator.skills.skill_modifier",
            "SkillLibrary": "simulator.skills.skill_library",
            "ComboSpec": "simulator.specs.combo_spec", "DamageSpec": "simulator.specs.damage_spec",
            "TimingSpec": "simulator.specs.timing_spec", "StatusEffectSpec": "simulator.specs.status_effect_spec",
            "FollowUp": "simulator.specs.follow_up", "JobResourceSpec": "simulator.specs.job_resource_spec",
            "JobResourceSettings": "simulator.specs.job_resource_settings",
            "ChannelingSpec": "simulator.specs.channeling_spec",
            "ComboTracker": "simulator.trackers.combo_tracker",
            "ChannelingTracker": "simulator.trackers.channeling_tracker",
            "JobResourceTracker": "simulator.trackers.job_resource_tracker",
            "StatusEffectTracker": "simulator.trackers.status_effect_tracker",
            "StatusEffects": "simulator.trackers.status_effects",
            "DamageTracker": "simulator.trackers.damage_tracker",
            "ForcedCritOrDH": "simulator.calcs.forced_crit_or_dh", "DamageClass": "simulator.calcs.damage_class",
            "StatFns": "simulator.calcs.stat_fns", "ComputeDamageUtils": "simulator.calcs.compute_damage_utils",
            "GameConsts": "simulator.game_data.game_consts", "SimConsts": "simulator.sim_consts",
            "Stats": "simulator.stats", "ProcessedStats": "simulator.processed_stats", "Utils": "simulator.utils",
            "RotationBuilder": "simulator.timeline_builders.rotation_builder",
            "DamageBuilder": "simulator.timeline_builders.damage_builder",
            "SnapshotAndApplicationEvents": "simulator.timeline_builders.snapshot_and_application_events",
            "DamageSimulator": "simulator.damage_simulator",
            "KillTimeEstimator": "kill_time_estimator.kill_time_estimator",
            "RotationAnalysisUtils": "rotation_analysis.rotation_analysis_utils",
        }
        m = self.ctx.mod(where[n])
        return getattr(m, n)


def subsets(xs, kmax):
    """all tuples of distinct elements up to length kmax, in order"""
    import itertools
    out = []
    for k in range(kmax + 1):
        out += list(itertools.combinations(xs, k))
    return out


class AnyMap(dict):
    """A mapping with arbitrary contents: whether a key is present, and its value, is decided
    (for all possibilities) at its first use.  Only keyed access is possible, so whatever the
    code under contract does not name stays as it was: self.changed lists what it wrote."""

    def __init__(self, ctx, fresh):
        super().__init__()
        self.ctx, self.fresh, self.orig, self.now = ctx, fresh, {}, {}

    def _get(self, k):
        if k not in self.orig:
            self.orig[k] = self.now[k] = self.fresh(k)
        return self.now[k]

    def __contains__(self, k):
        return self._get(k) is not None

    def __getitem__(self, k):
        v = self._get(k)
        if v is None:
            raise KeyError(k)
        return v

    def get(self, k, default=None):
        v = self._get(k)
        return default if v is None else v

    def __setitem__(self, k, v):
        self._get(k)
        self.now[k] = v

    def __delitem__(self, k):
        self[k]
        self.now[k] = None

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self[k]

    def pop(self, k, *d):
        v = self._get(k)
        if v is None:
            if d:
                return d[0]
            raise KeyError(k)
        self.now[k] = None
        return v

    def __deepcopy__(self, memo):
        return self

    def _no(self, *a, **k):
        self.ctx.unsupported("whole-map operation on an arbitrary map")

    def keys(self):
        return _KeysOf(self)

    __iter__ = __len__ = __eq__ = items = values = update = clear = popitem = copy = __or__ = __ior__ = _no
    __hash__ = None

    def touched(self):
        return set(self.orig)


class _KeysOf:
    def __init__(self, m):
        self.m = m

    def __contains__(self, k):
        return k in self.m

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        self.m._no()

    __iter__ = __len__ = __eq__ = lambda self, *a: self.m._no()
    __hash__ = None


def record(ctx, obj, seq, new, add, marked=True):
    """obj has been told every element of seq.  For a sequence of arbitrary length: the step of the
    induction is checked (add appends one item to the lists it changes, whatever they hold and
    depending on the element only; without marks this is assumed, as for a heap), then those lists are replaced by the items of the elements."""
    if not ctx.symbolic:
        for x in seq:
            add(obj, x)
        return
    probe, before = new(), None
    lists = _lists(probe)
    snap = {p: len(l) for p, l in lists.items()}
    if any(snap.values()):
        ctx.unsupported("state not empty at first")
    marks = [object(), object()] if marked else []
    for l in lists.values():
        l[:] = list(marks)
    shape = _shape(probe)
    memo = {}

    def items(e):
        if id(e) not in memo:
            o = new()
            for l in _lists(o).values():
                l[:] = list(marks)
            add(o, e)
            if _shape(o) != shape:
                ctx.unsupported("recording changes more than lists")
            memo[id(e)] = (e, {p: l[len(marks):] for p, l in _lists(o).items()})
            for p, l in _lists(o).items():
                if l[:len(marks)] != marks:
                    ctx.unsupported("recording does not append")
        return memo[id(e)][1]

    for path in lists:
        def item(e, path=path):
            x = items(e)[path]
            if len(x) != 1:
                ctx.unsupported("recording adds other than one item")
            return x[0]
        _put(obj, path, seq.view(item))


def _lists(o, path=()):
    out = {}
    d = o if isinstance(o, dict) else vars(o)
    for k, v in d.items():
        if isinstance(v, list):
            out[path + (k,)] = v
        elif isinstance(v, dict) and len(path) < 2:
            out.update(_lists(v, path + (k,)))
    return out


def _shape(o, path=()):
    """everything but the lists' contents"""
    out = []
    d = o if isinstance(o, dict) else vars(o)
    for k, v in d.items():
        out.append((path + (k,), v if isinstance(v, (int, float, str, bool, type(None))) else type(v).__name__))
        if (isinstance(v, dict) or hasattr(v, "__dict__")) and not callable(v) and len(path) < 4:
            out += _shape(v, path + (k,))
    return out


def _put(o, path, v):
    for k in path[:-1]:
        o = o[k] if isinstance(o, dict) else vars(o)[k]
    if isinstance(o, dict):
        o[path[-1]] = v
    else:
        setattr(o, path[-1], v)
