"""C09: channel windows are exactly the uninterrupted channelling periods."""
from common import *

T = "trackers/channeling_tracker.py:ChannelingTracker."
F = [T + x for x in ("__init__", "process_channeling", "finalize", "get_channeling_windows", "__start_channeling",
                     "__end_channeling", "__is_channeling", "__reset_channeling")] + ["skills/skill.py:Skill.get_channeling_spec"]


def model(seq):
    """seq of (t, kind, name, duration, allow, uses) -> windows in order"""
    out = []
    for i, (t, ch, name, dur, allow, uses) in enumerate(seq):
        if not ch:
            continue
        end, left = t + dur, uses
        for (t2, ch2, name2, _, _, _) in seq[i + 1:]:
            if name2.startswith("Wait"):
                continue
            if not ch2 and name2 in allow:
                left = left - 1
                if bool(left > 0):
                    continue
            end = Min(end, t2)
            break
        out.append((t, end))
    return out


def run_seq(ctx, n, chans, slim=False, names=None):
    m = M(ctx)
    tr = m.ChannelingTracker()
    seq = []
    t = None
    for i in range(n):
        p = "a%d." % i
        t = ctx.int(p + "t") if t is None else ctx.int(p + "t", lo=t)
        kind = ctx.choice(p + "kind", chans)
        if kind == "chan":
            d = ctx.int(p + "dur", 0) if slim else ctx.int_or_inf(p + "dur", 0)
            allow = ("A",) if slim else ctx.choice(p + "allow", ((), ("A",), ("B", "A")))
            uses = ctx.int(p + "uses", 1) if slim else (ctx.int_or_inf(p + "uses", 1) if allow else INF)
            sp = m.ChannelingSpec(duration=d, skill_allowlist=allow, num_uses=uses)
            cn = "C%d" % i if names is None else ctx.choice(p + "name", names)
            seq.append((t, True, cn, d, allow, uses))
            sk = m.Skill(name=cn, channeling_spec=sp)
        else:
            seq.append((t, False, kind, None, None, None))
            sk = m.Skill(name=kind)
        ctx.run(tr.process_channeling, t, sk, m.SkillModifier())
    ctx.run(tr.finalize)
    w = ctx.run(tr.get_channeling_windows)
    want = model(seq)
    ctx.check("one window per channelled action", len(w) == len(want))
    if len(w) != len(want):
        return
    # in order: channels start in time order; equal starts are told apart by nothing but their ends
    ties = [i for i in range(len(want) - 1) if bool(want[i][0] == want[i + 1][0])]
    if not ties:
        for a, b in zip(w, want):
            ctx.eq("window", [a[0], a[1]], [b[0], b[1]])
    else:
        for f in (0, 1):
            ctx.eq("window bounds (as a whole)", sum_inf([x[f] for x in w]), sum_inf([x[f] for x in want]))
    for a, b in zip(w, w[1:]):
        ctx.check("in order, no overlap", And(a[0] <= b[0], a[1] <= b[0]))
    ctx.cover("end")


def sum_inf(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


@contract("C09", "three", F, kind="bounded", split={"a0.kind": 4, "a1.kind": 4},
          bound="all sequences of 3 actions (channelled, two plain names, waiting); times, durations and counts unbounded")
def three(ctx):
    run_seq(ctx, 3, ("chan", "A", "B", "Wait 1s"))


@contract("C09", "four", F, kind="bounded", split={"a0.kind": 1, "a1.kind": 3, "a2.kind": 3},
          bound="all sequences of 4 actions starting with a channel; times, durations and counts unbounded")
def four(ctx):
    run_seq(ctx, 4, ("chan", "A", "B"), slim=True)


@contract("C09", "named", F, kind="bounded", split={"a0.kind": 1, "a0.name": 2, "a1.kind": 3, "a1.name": 2},
          bound="3 actions, a channelled one may itself be on an allow list; times, durations and counts unbounded")
def named(ctx):
    run_seq(ctx, 3, ("chan", "A", "B"), slim=True, names=("C", "A"))


@contract("C09", "long", F, kind="bounded", no_sym=True, bound="sequences of up to 12 actions on the real code (sampled)")
def long(ctx):
    run_seq(ctx, ctx.size("n", 4, 4, 12), ("chan", "A", "A", "B", "Wait 1s"), names=("C", "A", "D"))


class Windows:
    """the windows already recorded, any number of them: they may only be added to and put in order"""
    sym_isa = list
    _vc_spec_ = True

    def __init__(self, ctx):
        self.ctx, self.added = ctx, []

    def append(self, w):
        self.added.append(w)

    def sort(self):
        pass

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        self.ctx.unsupported("operation %s on the recorded windows" % n)

    __iter__ = __len__ = __eq__ = __contains__ = __getitem__ = lambda self, *a: self.ctx.unsupported("operation on the recorded windows")
    __hash__ = lambda self: 3


class Allowed:
    """an allow list: whether it holds the action's name is arbitrary"""
    sym_isa = tuple
    _vc_spec_ = True

    def __init__(self, ctx, has):
        self.ctx, self.has = ctx, has

    def sym_contains(self, x):
        return self.has if x == "A" else self.ctx.unsupported("another name is looked up")

    __iter__ = __len__ = __eq__ = __contains__ = __getitem__ = lambda self, *a: self.ctx.unsupported("operation on the allow list")
    __hash__ = lambda self: 3


@contract("C09", "step_any", F, kind="proof", no_conc=True, split={"busy": 2, "kind": 4})
def step_any(ctx):
    """one action (or the end) from any state: after any number of windows, with or without a channel under
    way of any length, start, allow list and number of uses left"""
    m = M(ctx)

    def fresh():
        return m.ChannelingTracker()

    def attr(tr, ok):
        a = [k for k, v in vars(tr).items() if ok(v)]
        if len(a) != 1:
            ctx.unsupported("channels remembered otherwise")
        return a[0]

    def started(t, sp, name="C"):
        tr = fresh()
        wname = attr(tr, lambda v: isinstance(v, list))
        ctx.run(tr.process_channeling, t, m.Skill(name=name, channeling_spec=sp), m.SkillModifier())
        if getattr(tr, wname) != []:
            ctx.unsupported("channels remembered otherwise")
        return tr, wname

    def same(label, tr, want, wname, strict=True):
        a, b = vars(tr), vars(want)
        plain = (int, float, str, tuple, m.ChannelingSpec, type(None))
        for k in sorted(set(a) | set(b)):
            if k == wname:
                continue
            if k in a and k in b and a[k] is b[k]:
                ctx.check(label, True)
                continue
            if k in a and k in b and not (isinstance(a[k], plain) and isinstance(b[k], plain)) and not (a[k] is None or b[k] is None):
                ctx.check(label, a[k] == b[k])
            elif k in a and k in b and isinstance(a[k], plain) and a[k] == b[k]:
                ctx.check(label, True)
            elif strict:
                ctx.check(label, False)
            else:
                ctx.unsupported("left-overs of the channel before")

    busy = ctx.choice("busy", (False, True))
    kind = ctx.choice("kind", ("chan", "plain", "wait", "end"))
    d = ctx.int("dur", 0)
    has = ctx.bool("allowed")
    t0, t = ctx.int("t0"), ctx.int("t")
    probe = m.ChannelingSpec(duration=1009, skill_allowlist=("q",), num_uses=2003)
    p, wname = started(7, probe)
    cname = attr(p, lambda v: isinstance(v, int) and not isinstance(v, bool) and v == 2003)
    if busy:
        ctx.assume(t0 <= t)
        sp = m.ChannelingSpec(duration=d, skill_allowlist=Allowed(ctx, has), num_uses=ctx.int("uses", 1))
        tr, _ = started(t0, sp)
        left = ctx.int("left", 1)
        setattr(tr, cname, left)
    else:
        tr = fresh()
    w = Windows(ctx)
    setattr(tr, wname, w)
    was = fresh()
    vars(was).update(vars(tr))
    if kind == "end":
        ctx.run(tr.finalize)
        ctx.check("one window for a channel under way", len(w.added) == (1 if busy else 0))
        for x in w.added:
            ctx.check("it runs its length", len(x) == 2 and And(x[0] == t0, x[1] == t0 + d))
        ctx.cover("end")
        return
    sp2 = m.ChannelingSpec(duration=ctx.int("dur2", 0), skill_allowlist=("A",), num_uses=ctx.int("uses2", 1)) if kind == "chan" else None
    sk = m.Skill(name="Wait 1s" if kind == "wait" else "A", channeling_spec=sp2)
    ctx.run(tr.process_channeling, t, sk, m.SkillModifier())
    if kind == "wait":
        same("waiting changes nothing", tr, was, wname)
        ctx.check("no window", not w.added)
    elif kind == "plain" and not busy:
        same("nothing under way", tr, was, wname)
        ctx.check("no window", not w.added)
    elif kind == "plain" and bool(And(has, left > 1)):
        setattr(was, cname, left - 1)
        same("one use less", tr, was, wname)
        ctx.check("no window", not w.added)
    else:
        ctx.check("one window for a channel under way", len(w.added) == (1 if busy else 0))
        for x in w.added:
            ctx.check("until interrupted or over", len(x) == 2 and And(x[0] == t0, x[1] == Min(t0 + d, t)))
        if kind == "chan":
            ctx.check("all uses left", getattr(tr, cname) == sp2.num_uses)
        same("a new channel" if kind == "chan" else "no channel any more", tr, started(t, sp2, "A")[0] if kind == "chan" else fresh(), wname, strict=False)
    ctx.cover("end")
