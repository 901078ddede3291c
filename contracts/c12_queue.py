"""C12: the event timeline returns every event once, in priority order."""
from common import *
from common import _lists

Q = "timeline_builders/snapshot_and_application_events.py:SnapshotAndApplicationEvents."
F = [Q + x for x in ("add", "get_next", "get_q", "is_empty", "clear", "get_first_damage_time", "get_last_event_time",
                     "__create_event", "Event.__lt__", "EventTimes.__lt__")]


class Rec:
    pass


def add(ctx, m, tl, i, nid, full, prio=None, names=("aa", "b")):
    """inserts the i-th event; returns its expected record"""
    r = Rec()
    p = "e%d." % i
    r.prio = ctx.int(p + "prio") if prio is None else prio
    r.pri = ctx.int(p + "primary")
    sec = ctx.choice(p + "kind", ("later", "same", "none") if full else ("later", "same"))
    r.sec = None if sec == "none" else (r.pri if sec == "same" else ctx.int(p + "secondary"))
    r.name = ctx.choice(p + "name", names)
    r.dmg = ctx.flag(p + "damaging") if full else True
    r.skill = m.Skill(name=r.name, damage_spec=m.DamageSpec(potency=100 + i) if r.dmg else None)
    r.mod = m.SkillModifier(with_condition="c%d" % i)
    r.snap = [i % 2 == 0, i % 2 == 1]
    r.flags = (i % 2 == 0, i % 3 == 0, i % 2 == 1)
    r.targets = ("t%d" % i, "z")
    own = full and ctx.flag(p + "own_id")
    r.eid = 1000 + i if own else nid
    kw = dict(job_resources_added=r.flags[0], job_conditional_processed=r.flags[1],
              combo_conditional_processed=r.flags[2], targets=r.targets)
    if own:
        kw["event_id"] = r.eid
    ctx.run(tl.add, r.prio, r.pri, r.sec, r.skill, r.mod, list(r.snap), **kw)
    coincide = False if r.sec is None else (r.pri == r.sec)
    if r.sec is not None and bool(coincide):
        r.sec, r.snap = None, [True, True]
    return r, nid + (0 if own else 1)


def matches(ctx, e, r):
    ctx.eq("priority as inserted", e.priority, r.prio)
    ctx.eq("times as inserted", [e.event_times.primary, e.event_times.secondary], [r.pri, r.sec])
    ctx.check("data as inserted", And(e.skill.name == r.name, e.skill_modifier.with_condition == r.mod.with_condition,
              list(e.snapshot_status) == r.snap, tuple(e.targets) == r.targets,
              (e.job_resources_added, e.job_conditional_processed, e.combo_conditional_processed) == r.flags))


def less(a, b):
    return Or(a.prio < b.prio, And(a.prio == b.prio, a.name < b.name))


def pop(ctx, tl, live):
    e = ctx.run(tl.get_next)
    hit = [r for r in live if r.eid == e.event_id]
    ctx.check("returned event was inserted and not returned before", len(hit) == 1)
    if not hit:
        ctx.stop()
    r = hit[0]
    for o in live:
        if o is not r:
            ctx.check("no remaining event is smaller", Not(less(o, r)))
    matches(ctx, e, r)
    live.remove(r)


def observe(ctx, tl, live):
    """inspections agree with the content and change nothing"""
    q = ctx.run(tl.get_q)
    ctx.check("listing has every event once", sorted(e.event_id for e in q) == sorted(r.eid for r in live))
    by = {r.eid: r for r in live}
    for a, b in zip(q, q[1:]):
        ctx.check("listing in order", Not(less(by[b.event_id], by[a.event_id])))
    ctx.check("empty exactly when nothing is left", ctx.run(tl.is_empty) == (len(live) == 0))
    app = lambda r: r.pri if r.sec is None else r.sec
    for f, rs in ((tl.get_first_damage_time, [r for r in live if r.dmg]), (tl.get_last_event_time, live)):
        v = ctx.run(f)
        first = f == tl.get_first_damage_time
        if not rs:
            ctx.check("no time without events", v is None)
        else:
            ctx.check("some time", v is not None)
            w = app(rs[0])
            for r in rs[1:]:
                w = Min(w, app(r)) if first else Max(w, app(r))
            ctx.eq("first damage time" if first else "last event time", v, w)
    str(tl)


@contract("C12", "long", F, kind="bounded", no_sym=True,
          bound="histories of up to 14 insertions interleaved with removals and inspections on the real code (sampled)")
def long(ctx):
    m = M(ctx)
    tl = m.SnapshotAndApplicationEvents()
    live, nid = [], 0
    for i in range(ctx.size("n", 4, 4, 14)):
        r, nid = add(ctx, m, tl, i, nid, True, prio=ctx.int("p%d" % i, -20, 20), names=("aa", "b", "B", "a", "c d", ""))
        live.append(r)
        if ctx.flag("look%d" % i):
            observe(ctx, tl, live)
        for j in range(ctx.size("pops%d" % i, 0, 1, 2)):
            if live:
                pop(ctx, tl, live)
    while live:
        pop(ctx, tl, live)
    ctx.check("nothing left over", ctx.run(tl.is_empty))
    ctx.cover("end")


@contract("C12", "history", F, kind="bounded", split={"n": 3, "e0.kind": 2, "e0.name": 2},
          bound="at most 3 insertions interleaved with removals, then all removed; any priorities and times, two names")
def history(ctx):
    m = M(ctx)
    tl = m.SnapshotAndApplicationEvents()
    live, nid = [], 0
    n = ctx.choice("n", (1, 2, 3))
    for i in range(n):
        r, nid = add(ctx, m, tl, i, nid, False)
        ctx.check("consecutive ids", r.eid == i)
        live.append(r)
        if i < n - 1 and ctx.flag("pop%d" % i):
            pop(ctx, tl, live)
    while live:
        pop(ctx, tl, live)
    ctx.check("nothing left over", ctx.run(tl.is_empty))
    ctx.check("removal from an empty timeline refused", not ctx.call(tl.get_next).ok)
    ctx.cover("end")


@contract("C12", "priorities", F, kind="bounded", split={"pop2": 2, "pop3": 2},
          bound="5 immediate events with any pairwise different priorities, removals interleaved")
def priorities(ctx):
    """deeper heaps: insertion and removal order for every relative order of 5 priorities"""
    m = M(ctx)
    tl = m.SnapshotAndApplicationEvents()
    live, nid = [], 0
    sk = m.Skill(name="s")
    mod = m.SkillModifier()
    for i in range(5):
        r = Rec()
        r.prio, r.name, r.eid = ctx.int("p%d" % i), "s", i
        for o in live:
            ctx.assume(r.prio != o.prio)
        ctx.run(tl.add, r.prio, i, None, sk, mod, [True, True])
        live.append(r)
        if i in (2, 3) and ctx.flag("pop%d" % i):
            pop_prio(ctx, tl, live)
    while live:
        pop_prio(ctx, tl, live)
    ctx.cover("end")


def pop_prio(ctx, tl, live):
    e = ctx.run(tl.get_next)
    hit = [r for r in live if r.eid == e.event_id]
    ctx.check("returned event was inserted and not returned before", len(hit) == 1)
    if not hit:
        ctx.stop()
    for o in live:
        ctx.check("no remaining event is smaller", hit[0].prio <= o.prio)
    ctx.eq("event keeps its data", [e.priority, e.event_times.primary], [hit[0].prio, hit[0].eid])
    live.remove(hit[0])


@contract("C12", "inspection", F, kind="bounded", split={"e0.kind": 3, "e1.kind": 3, "e0.damaging": 2},
          bound="2 events of any data; inspections before and after each removal")
def inspection(ctx):
    m = M(ctx)
    tl = m.SnapshotAndApplicationEvents()
    live, nid = [], 0
    observe(ctx, tl, live)
    for i in range(2):
        r, nid = add(ctx, m, tl, i, nid, True, names=(("a",), ("b", "a"))[i])
        live.append(r)
    observe(ctx, tl, live)
    pop(ctx, tl, live)
    observe(ctx, tl, live)
    if ctx.flag("clear"):
        ctx.run(tl.clear)
        ctx.check("cleared", ctx.run(tl.is_empty))
        r, nid = add(ctx, m, tl, 2, 0, False)
        live = [r]
    pop(ctx, tl, live)
    observe(ctx, tl, live)
    ctx.cover("end")


def event(at, m, p=""):
    r = Rec()
    r.prio, r.pri = at.int(p + "prio"), at.int(p + "primary")
    kind = at.choice(p + "kind", ("later", "same", "none"))
    r.sec = None if kind == "none" else (r.pri if kind == "same" else at.int(p + "secondary"))
    r.dmg = at.flag(p + "damaging")
    r.skill = m.Skill(name="s", damage_spec=m.DamageSpec(potency=100) if r.dmg else None)
    r.app = r.pri if r.sec is None else r.sec
    return r


@contract("C12", "times_any", F, kind="proof")
def times_any(ctx):
    """first-damage and last-event time of any number of events"""
    m = M(ctx)
    evs = ctx.seq("events", lambda at: event(at, m))
    new = lambda: m.SnapshotAndApplicationEvents()
    tl = new()
    mod = m.SkillModifier()
    # the heap holds the added events in some order (heapq, assumed); the order is irrelevant below
    record(ctx, tl, evs, new, lambda tl, r: ctx.run(tl.add, r.prio, r.pri, r.sec, r.skill, mod, [True, True], 7), marked=False)
    first = ctx.fold(evs, None, lambda a, r: a if not r.dmg else r.app if a is None else Min(a, r.app), ints=True)
    last = ctx.fold(evs, None, lambda a, r: r.app if a is None else Max(a, r.app), ints=True)
    for what, f, w in (("first damage time", tl.get_first_damage_time, first), ("last event time", tl.get_last_event_time, last)):
        v, w = ctx.run(f), w.total
        ctx.check(what + ": present", (v is None) == (w is None))
        if v is not None and w is not None:
            ctx.eq(what, v, w)
    ctx.cover("end")


@contract("C12", "order", F, kind="proof", split={"a": 4})
def order(ctx):
    """the order the heap sees is (priority, name), for all pairs of events"""
    m = M(ctx)
    names = ("aa", "b", "", "B c")
    a, b = [m.SnapshotAndApplicationEvents.Event(ctx.int(x + ".prio"), m.SnapshotAndApplicationEvents.EventTimes(ctx.int(x + ".t"), None if ctx.flag(x + ".now") else ctx.int(x + ".s")),
            m.Skill(name=ctx.choice(x, names)), m.SkillModifier(), [True, True], ("t",), ctx.int(x + ".id"), False, False, False) for x in ("a", "b")]
    lt, gt = ctx.run(lambda: bool(a < b)), ctx.run(lambda: bool(b < a))
    smaller = lambda x, y: Or(x.priority < y.priority, And(x.priority == y.priority, x.skill.name < y.skill.name))
    ctx.check("smaller when its priority is, or its name at equal priority", And(Implies(smaller(a, b), lt), Implies(smaller(b, a), gt)))
    ctx.check("never the other way round", Not(Or(And(smaller(a, b), gt), And(smaller(b, a), lt), And(lt, gt))))
    ctx.cover("end")


@contract("C12", "step", F, kind="proof", no_conc=True)
def step(ctx):
    """from any content: add puts in one event with the stated data, get_next takes one out
    through the heap (contract of heapq assumed: heappop returns a smallest element)"""
    m = M(ctx)
    mod = ctx.mod("simulator.timeline_builders.snapshot_and_application_events")
    if not hasattr(mod, "heapq"):
        ctx.unsupported("another priority queue")
    log = []

    class Heap:
        _vc_spec_ = True

        def heapify(self, l):
            if l:
                ctx.unsupported("heapify")

        def heappush(self, l, x):
            log.append(("push", l, x))

        def heappop(self, l):
            log.append(("pop", l))
            return "smallest"

        def __getattr__(self, n):
            ctx.unsupported("heapq." + n)
    real, mod.heapq = mod.heapq, Heap()
    try:
        tl = m.SnapshotAndApplicationEvents()
        heap = [v for v in _lists(tl).values()]
        if len(heap) != 1:
            ctx.unsupported("other state")
        heap[0].append("any content")
        n = ctx.choice("earlier", (0, 1, 2))
        for i in range(n):
            ctx.run(tl.add, 0, 0, None, m.Skill(name="o"), m.SkillModifier(), [True, True])
        log.clear()
        r = event(ctx, m)
        sk, mo, own = m.Skill(name="s"), m.SkillModifier(), ctx.flag("own_id")
        flags = [False, True]
        fl = [ctx.flag("f%d" % i) for i in range(3)]
        kw = dict(event_id=ctx.int("id")) if own else {}
        ctx.run(tl.add, r.prio, r.pri, r.sec, sk, mo, flags, job_resources_added=fl[0], job_conditional_processed=fl[1],
                combo_conditional_processed=fl[2], targets=("x", "y"), **kw)
        ctx.check("one event goes into the heap", len(log) == 1 and log[0][0] == "push" and log[0][1] is heap[0])
        if len(log) != 1:
            return
        e = log[0][2]
        now = r.sec is None or bool(r.sec == r.pri)
        ctx.eq("priority and snapshot time", [e.priority, e.event_times.primary], [r.prio, r.pri])
        ctx.check("immediate exactly when the times coincide", (e.event_times.secondary is None) == now)
        if not now:
            ctx.eq("application time", e.event_times.secondary, r.sec)
        both = r.sec is not None and now
        ctx.check("an immediate event snapshots everything", list(e.snapshot_status) == ([True, True] if both else flags))
        ctx.eq("id", e.event_id, kw["event_id"] if own else n)
        ctx.check("action, modifier, targets and marks", And(e.skill is sk, e.skill_modifier is mo, tuple(e.targets) == ("x", "y"),
                  [e.job_resources_added, e.job_conditional_processed, e.combo_conditional_processed] == fl))
        ctx.check("content kept", heap[0] == ["any content"])
        log.clear()
        v = ctx.run(tl.get_next)
        ctx.check("a smallest event comes out", v == "smallest" and len(log) == 1 and log[0] == ("pop", heap[0]))
    finally:
        mod.heapq = real
    ctx.cover("end")
