"""C07: combo bonuses are granted exactly when the combo is intact."""
from common import *

F = ["trackers/combo_tracker.py:ComboTracker.compile_and_update_combo",
     "trackers/combo_tracker.py:ComboTracker.__combo_succeded",
     "trackers/combo_tracker.py:ComboTracker.__update_combo", "skills/skill.py:Skill.get_combo_spec"]
EXP = 30000
BREAKERS = ({}, {1: (0,)}, {0: (1,), 2: (0, 1)}, {0: (0,)})


class Model:
    """abstract view: group -> (valid, time, name)"""

    def __init__(self, breakers):
        self.s, self.b = {}, breakers

    def step(self, t, name, specs, force):
        ok = True
        for sp in specs:
            if sp["brk"]:
                self.s = {}
                continue
            g = sp["group"]
            v, t0, n0 = self.s.get(g, (False, 0, None))
            c = Or(sp["auto"], force, len(sp["acts"]) == 0,
                   And(v, n0 in sp["acts"], t0 + EXP >= t))
            ok = And(ok, c)
            self.s[g] = (c, t, name)
            for gb, br in self.b.items():
                if g in br:
                    self.s[gb] = (False, 0, None)
        return ok


def action(ctx, m, i, groups, nspecs_max, acts_opts, brk=True):
    n = ctx.choice("a%d.nspecs" % i, list(range(0 if brk else 1, nspecs_max + 1)))
    specs = []
    for j in range(n):
        p = "a%d.s%d." % (i, j)
        if brk and ctx.flag(p + "breakall"):
            specs.append(dict(brk=True, group=0, auto=False, acts=()))
        else:
            specs.append(dict(brk=False, group=ctx.choice(p + "group", groups),
                              auto=ctx.bool(p + "auto"), acts=ctx.choice(p + "acts", acts_opts)))
    return specs


def build(m, name, specs):
    return m.Skill(name=name, combo_spec=tuple(
        m.ComboSpec(combo_actions=s["acts"], combo_group=s["group"], combo_auto_succeed=s["auto"],
                    break_all_combos_only=s["brk"]) for s in specs))


def result_is(m, r, ok):
    S_, Fl = m.SimConsts.COMBO_SUCCESS, m.SimConsts.COMBO_FAIL
    if r == S_:
        return ok
    if r == Fl:
        return Not(ok)
    return False


NAMES = ("A", "B", "X")


def probe(ctx, m, tr, model, t, groups):
    """observe every group through the public interface"""
    for g in groups:
        v, t0, n0 = model.s.get(g, (False, 0, None))
        tests = []
        if v is not False:
            tests.append(((n0,), And(v, t0 + EXP >= t)))
        tests.append((tuple(n for n in NAMES if n != n0 or v is False), False))
        for acts, want in tests:
            tr2 = copy.deepcopy(tr)
            sk = m.Skill(name="probe", combo_spec=(m.ComboSpec(combo_actions=acts, combo_group=g),))
            r = ctx.run(tr2.compile_and_update_combo, t, sk, m.SkillModifier())
            ctx.check("state of every group afterwards", result_is(m, r, want))


def prestate(ctx, m, tr, model, opts):
    """pre-state established through the interface (any last action per group, any times)"""
    t = ctx.int("pre.t")
    for g in ctx.choice("preorder", ((0, 1), (1, 0))) if model.b else (0, 1):
        who = ctx.choice("pre%d" % g, opts)
        if who:
            t = ctx.int("pre%d.t" % g, lo=t)
            specs = [dict(brk=False, group=g, auto=True, acts=("zz",))]
            ctx.run(tr.compile_and_update_combo, t, build(m, who, specs), m.SkillModifier())
            model.step(t, who, specs, False)
    return t


def one_action(ctx, nmax, acts_opts, pre_opts, names, breakers):
    m = M(ctx)
    br = ctx.choice("breakers", breakers)
    tr = m.ComboTracker(dict(br))
    model = Model(br)
    t = ctx.int("t", lo=prestate(ctx, m, tr, model, pre_opts))
    specs = action(ctx, m, 0, (0, 1), nmax, acts_opts)
    force = ctx.bool("force")
    mod = m.SkillModifier(force_combo=force)
    name = ctx.choice("name", names)
    ok = model.step(t, name, specs, force)
    r = ctx.run(tr.compile_and_update_combo, t, build(m, name, specs), mod)
    ctx.check("combo kept exactly when intact", result_is(m, r, ok))
    t2 = ctx.int("t2", lo=t)
    probe(ctx, m, tr, model, t2, (0, 1, 2))
    ctx.cover("end")


@contract("C07", "step1", F, kind="bounded", split={"breakers": 4},
          bound="any pre-state over 3 groups, one action with at most 1 combo spec, at most 2 predecessors, 4 breaker tables; times and flags unbounded")
def step1(ctx):
    one_action(ctx, 1, ((), ("A",), ("B", "A")), (None, "A", "B"), ("A", "X"), BREAKERS)


@contract("C07", "step2", F, kind="bounded", split={"breakers": 2, "a0.nspecs": 3},
          bound="any pre-state over 2 groups, one action with at most 2 combo specs, 1 predecessor each, 2 breaker tables; times and flags unbounded")
def step2(ctx):
    one_action(ctx, 2, (("A",), ()), (None, "A"), ("A",), BREAKERS[:2])


@contract("C07", "history", F, kind="bounded",
          bound="histories of 3 actions from the initial state, 1 combo spec each, 2 groups; times and flags unbounded")
def history(ctx):
    m = M(ctx)
    tr = m.ComboTracker({1: (0,)})
    model = Model({1: (0,)})
    t = 0
    for i in range(3):
        t = ctx.int("t%d" % i, lo=t)
        specs = action(ctx, m, i, (0, 1), 1, (("A",), ("B",)), brk=False)
        force = ctx.bool("force%d" % i) if i == 0 else False
        name = ctx.choice("name%d" % i, ("A", "B"))
        ok = model.step(t, name, specs, force)
        r = ctx.run(tr.compile_and_update_combo, t, build(m, name, specs), m.SkillModifier(force_combo=force))
        ctx.check("combo kept exactly when intact", result_is(m, r, ok))
    ctx.cover("end")


class Last:
    """what is remembered per group, for any number of groups: the action's own group is arbitrary, nothing
    else is looked at; writes are recorded"""
    sym_isa = dict
    _vc_spec_ = True

    def __init__(self, ctx, group, entry):
        self.ctx, self.group, self.orig, self.now, self.writes, self.closed = ctx, group, entry, entry, [], False

    def keys(self):
        return self

    def _own(self, g):
        if g is not self.group or self.closed:
            self.ctx.unsupported("another group is looked at")
        return self.now

    def __contains__(self, g):
        return self._own(g) is not None

    def __getitem__(self, g):
        v = self._own(g)
        if v is None:
            raise KeyError(g)
        return v

    def get(self, g, d=None):
        v = self._own(g)
        return d if v is None else v

    def setdefault(self, g, v=None):
        if self._own(g) is None:
            self[g] = v
        return self.now

    def __setitem__(self, g, v):
        if g is self.group and not self.closed:
            self.now = v
        self.writes.append((g, v))

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        self.ctx.unsupported("operation %s on the groups" % n)

    def _no(self, *a, **k):
        self.ctx.unsupported("operation on all groups")

    __iter__ = __len__ = __eq__ = __delitem__ = _no
    __hash__ = None


class Names:
    """a list of action names: whether it holds a name is arbitrary"""
    _vc_spec_ = True

    def __init__(self, ctx, empty, has):
        self.ctx, self.empty, self.has = ctx, empty, has

    def sym_len(self):
        return 0 if self.empty else self.ctx.int("number of predecessors", 1)

    def __bool__(self):
        return not self.empty

    def sym_contains(self, x):
        return False if x is None or self.empty else self.has

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        self.ctx.unsupported("operation %s on the predecessors" % n)

    __iter__ = __len__ = __eq__ = __contains__ = __getitem__ = lambda self, *a: self.ctx.unsupported("operation on the predecessors")
    __hash__ = lambda self: 3


@contract("C07", "step_any", F, kind="proof", no_conc=True, split={"was": 3})
def step_any(ctx):
    """one combo action in any state of any number of groups, under any breaker table, with any predecessors"""
    m = M(ctx)
    tr = m.ComboTracker()
    A = dict(brk=False, group=3, auto=True, acts=("q",))
    ctx.run(tr.compile_and_update_combo, 5, build(m, "n", [A]), m.SkillModifier())
    if getattr(tr, "last_combo_skill_used", None) != {3: (5, "n")} or isinstance(tr.last_combo_skill_used[3], list):
        ctx.unsupported("combos remembered otherwise")
    ctx.run(tr.compile_and_update_combo, 6, build(m, "n", [dict(A, auto=False)]), m.SkillModifier())
    if tr.last_combo_skill_used != {3: (-INF, None)}:
        ctx.unsupported("combos remembered otherwise")
    lost = lambda v: v is None or (isinstance(v, tuple) and len(v) == 2 and (v[1] is None or v[0] == -INF))
    group = ctx.int("group")
    was = ctx.choice("was", (None, "broken", "kept"))
    t0 = ctx.int("t0")
    entry = None if was is None else (-INF, None) if was == "broken" else (t0, "last")

    def settled():
        v = last.now
        if bool(ok):
            ctx.check("this action is remembered", v is not None and len(v) == 2 and And(v[0] == t, v[1] == "n"))
        else:
            ctx.check("the combo is broken", lost(v))

    def step(k, logs):
        if logs:
            ctx.unsupported("other bookkeeping")
        g, hits = d.seq.at(d.seq.cur)
        settled()
        w = [(x, v) for x, v in last.writes if x is not group]
        ctx.check("a group is broken exactly by its breakers", [(x is g, lost(v)) for x, v in w] == ([(True, True)] if bool(hits.has) else []))

    def over(loc):
        last.closed = True
        mark[:] = last.writes

    class Breakers(Names):
        def sym_contains(self, x):
            return self.has if x is group else self.other

    def make(at):
        b = Breakers(ctx, False, at.bool("breaks"))
        b.other = at.bool("breaks another")
        return (at.int("group"), b)
    mark = []
    d = ctx.dict_of("breakers", make, on_step=step, on_exit=over)
    last = Last(ctx, group, entry)
    tr = m.ComboTracker(d)
    tr.last_combo_skill_used = last
    acts = Names(ctx, ctx.flag("no predecessors"), ctx.bool("follows one of them"))
    sp = m.ComboSpec(combo_actions=acts, combo_group=group, combo_auto_succeed=ctx.bool("auto"))
    force = ctx.bool("force")
    t = ctx.int("t")
    ok = Or(sp.combo_auto_succeed, force, acts.empty, And(was == "kept", acts.has, t0 + EXP >= t))
    sk = m.Skill(name="n", combo_spec=(sp,))
    r = ctx.run(tr.compile_and_update_combo, t, sk, m.SkillModifier(force_combo=force))
    ctx.check("combo kept exactly when intact", result_is(m, r, ok))
    ctx.check("the breakers are gone through", last.closed)
    ctx.check("only the action's group is written besides", all(g is group for g, v in last.writes) and last.writes == list(mark))
    settled()
    ctx.cover("end")
