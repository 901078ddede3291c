"""C22: the skill library returns exactly what was registered for a job."""
from common import *

T = "skills/skill_library.py:SkillLibrary."
F = [T + x for x in ("set_current_job_class", "add_skill", "add_resource", "add_combo_breaker", "set_status_effect_priority", "get_skill",
                     "has_skill", "has_job_class", "get_jobs", "get_all_resource_settings", "get_all_combo_breakers",
                     "get_status_effect_priority", "add_all_skills_from", "get_version", "get_level")]
JOBS = ("J1", "J2")
NAMES = ("a", "b")


class Lib:
    def __init__(self):
        self.jobs, self.cur = {}, None

    def job(self, j):
        self.jobs.setdefault(j, dict(skills={}, res={}, brk={}, prio=()))
        self.cur = self.jobs[j]


def verify(ctx, m, lib, md):
    ctx.check("known jobs", set(ctx.run(lib.get_jobs)) == set(md.jobs))
    for j in JOBS + ("J3",):
        ctx.check("job known exactly when registered", ctx.run(lib.has_job_class, j) == (j in md.jobs))
        if j not in md.jobs:
            ctx.check("unknown job's action refused", not ctx.call(lib.get_skill, "a", j).ok)
            continue
        d = md.jobs[j]
        for n in NAMES + ("c",):
            o = ctx.call(lib.get_skill, n, j)
            ctx.check("action of the job", (o.ok and o.value is d["skills"][n]) if n in d["skills"] else o.exc == "KeyError")
            ctx.check("has the action", ctx.run(lib.has_skill, n, j) == (n in d["skills"]))
        ctx.check("gauges of the job", ctx.run(lib.get_all_resource_settings, j) == d["res"])
        ctx.check("combo breakers of the job", ctx.run(lib.get_all_combo_breakers, j) == d["brk"])
        ctx.check("effect priority of the job", ctx.run(lib.get_status_effect_priority, j) == d["prio"])


def step(ctx, m, lib, md, i):
    op = ctx.choice("op%d" % i, ("job J1", "job J2", "skill a", "skill b", "res", "brk", "prio", "tamper"))
    if op.startswith("job"):
        ctx.run(lib.set_current_job_class, op[4:])
        md.job(op[4:])
        return
    if md.cur is None:
        return
    if op.startswith("skill"):
        sk = m.Skill(name=op[6:], is_GCD=(i % 2 == 0))
        o = ctx.call(lib.add_skill, sk)
        if op[6:] in md.cur["skills"]:
            ctx.check("duplicate refused", not o.ok)
        else:
            ctx.check("accepted", o.ok)
            md.cur["skills"][op[6:]] = sk
    elif op == "res":
        r = m.JobResourceSettings(max_value=i + 1, skill_allowlist=("a",))
        ctx.run(lib.add_resource, "g", r)
        md.cur["res"]["g"] = r
    elif op == "brk":
        ctx.run(lib.add_combo_breaker, 0, (i, 7))
        md.cur["brk"][0] = (i, 7)
    elif op == "prio":
        ctx.run(lib.set_status_effect_priority, ("p%d" % i, "q"))
        md.cur["prio"] = ("p%d" % i, "q")
    else:
        for j in md.jobs:
            ctx.run(lib.get_all_resource_settings, j)["evil"] = 1
            ctx.run(lib.get_all_combo_breakers, j)["evil"] = 1
            ctx.run(lib.get_all_resource_settings, j).clear()


@contract("C22", "history", F, kind="bounded", split={"op1": 8, "op2": 8},
          bound="all sequences of 4 registrations after choosing a job: two jobs, two names, gauges, breakers, priorities, tampering with handed-out tables; up to 12 on the real code")
def history(ctx):
    m = M(ctx)
    lib, md = m.SkillLibrary("7.05", level=100), Lib()
    ctx.run(lib.set_current_job_class, "J1")
    md.job("J1")
    for i in range(1, ctx.size("n", 4, 4, 12) + 1):
        step(ctx, m, lib, md, i)
    verify(ctx, m, lib, md)
    ctx.check("version and level as given", lib.get_version() == "7.05" and lib.get_level() == 100)
    ctx.cover("end")


class Bundle:
    def __init__(self, **k):
        self.k = k

    def get_job_class(self):
        return self.k["job"]

    def get_status_effect_priority(self):
        return self.k["prio"]

    def get_combo_breakers(self):
        return self.k["brk"]

    def get_skills(self):
        return self.k["skills"]

    def get_resources(self):
        return self.k["res"]


@contract("C22", "bundles", F, kind="bounded", bound="two job bundles registered in either order, or a second one for a job after another's, each with or without priorities, breakers, gauges and actions")
def bundles(ctx):
    m = M(ctx)
    lib, md = m.SkillLibrary("test"), Lib()
    for k, j in enumerate(ctx.choice("order", (("J1", "J2"), ("J2", "J1"), ("J1", "J2", "J1")))):
        if k == 2:
            sk = [m.Skill(name="z"), m.Skill(name="c")]
            rs = m.JobResourceSettings(max_value=3)
            md.job(j)
            ctx.run(lib.add_all_skills_from, Bundle(job=j, prio=None, brk=((5, (6,)),), skills=sk, res=(("i", rs),)))
            md.cur["skills"].update({s.name: s for s in sk})
            md.cur["brk"][5] = (6,)
            md.cur["res"]["i"] = rs
            break
        sk = [m.Skill(name=n, is_GCD=(j == "J1")) for n in ctx.choice(j + ".skills", ((), ("a",), ("b", "a")))]
        prio = ctx.choice(j + ".prio", (None, ("x" + j, "y")))
        brk = ctx.choice(j + ".brk", (None, ((0, (1,)), (2, (0, 3 if j == "J1" else 4)))))
        res = ctx.choice(j + ".res", ((), (("g", m.JobResourceSettings(max_value=len(j) + int(j[1]))), ("h", m.JobResourceSettings()))))
        ctx.run(lib.add_all_skills_from, Bundle(job=j, prio=prio, brk=brk, skills=sk, res=res))
        md.job(j)
        md.cur["skills"] = {s.name: s for s in sk}
        md.cur["prio"] = prio or ()
        md.cur["brk"] = dict(brk or ())
        md.cur["res"] = dict(res)
    verify(ctx, m, lib, md)
    ctx.cover("end")


class Tbl(AnyMap):
    """a job's table: handed out as a copy"""
    _vc_spec_ = True

    def __deepcopy__(self, memo):
        c = Tbl(self.ctx, self.fresh)
        c.of, c.orig, c.now = self, dict(self.orig), dict(self.now)
        return c


@contract("C22", "step_any", F, kind="proof", no_conc=True, split={"op": 8})
def step_any(ctx):
    """one registration in a library of any content, and what is asked about afterwards: the job written
    to, another job, any names"""
    m = M(ctx)
    p = m.SkillLibrary("x")
    ctx.run(p.set_current_job_class, "p")
    maps = [k for k, v in vars(p).items() if isinstance(v, dict) and set(v) == {"p"}]
    cur = [k for k, v in vars(p).items() if isinstance(v, str) and v == "p"]

    def which(f, *a, want=None):
        before = {k: copy.copy(vars(p)[k]["p"]) for k in maps}
        ctx.run(f, *a)
        ch = [k for k in maps if vars(p)[k]["p"] != before[k]]
        if len(ch) != 1 or vars(p)[ch[0]]["p"] != want or len(maps) != 4 or len(cur) != 1:
            ctx.unsupported("library organised otherwise")
        return ch[0]
    sk = m.Skill(name="s")
    rs = m.JobResourceSettings(max_value=3)
    at = dict(skills=which(p.add_skill, sk, want={"s": sk}), res=which(p.add_resource, "g", rs, want={"g": rs}),
              brk=which(p.add_combo_breaker, 4, (1, 2), want={4: (1, 2)}), prio=which(p.set_status_effect_priority, ("u", "v"), want=("u", "v")))
    if len(set(at.values())) != 4:
        ctx.unsupported("library organised otherwise")

    known, orig = {}, {}

    def is_known(j):
        if j not in known:
            known[j] = ctx.flag("knows " + j)
        return known[j]

    def tables(what):
        def fresh(j):
            if not is_known(j):
                return None
            if what == "prio":
                return ("prio of " + j, "w")
            memo = {}

            def entry(n):
                if n not in memo:
                    memo[n] = (what, j, n) if ctx.flag("%s of %s has %s" % (what, j, n)) else None
                return memo[n]
            return Tbl(ctx, entry)
        return AnyMap(ctx, fresh)
    lib = m.SkillLibrary("7.05", level=90)
    md = {w: tables(w) for w in at}
    for w, k in at.items():
        setattr(lib, k, md[w])
    known["J"] = True
    setattr(lib, cur[0], "J")
    op = ctx.choice("op", ("job J", "job K", "skill", "res", "brk", "prio", "nothing", "tamper"))
    a = m.Skill(name="a")
    r = m.JobResourceSettings(max_value=7)
    had = None
    want = {}                       # (what, job, name) -> value, where it differs from before
    newjob = set()
    now = "J"
    if op.startswith("job"):
        now = op[4:]
        was = is_known(now)
        if not was:
            newjob.add(now)
        ctx.run(lib.set_current_job_class, now)
        ctx.check("current job", getattr(lib, cur[0]) == now)
    elif op == "skill":
        had = ctx.run(lib.has_skill, "a", "J")
        o = ctx.call(lib.add_skill, a)
        ctx.check("refused exactly as a duplicate", o.ok == (not had))
        if not had:
            want["skills", "J", "a"] = a
    elif op == "res":
        ctx.run(lib.add_resource, "g", r)
        want["res", "J", "g"] = r
    elif op == "brk":
        ctx.run(lib.add_combo_breaker, 0, (5, 7))
        want["brk", "J", 0] = (5, 7)
    elif op == "prio":
        ctx.run(lib.set_status_effect_priority, ("x", "y"))
    elif op == "tamper":
        ctx.run(lib.get_all_resource_settings, "J")["evil"] = 1
        ctx.run(lib.get_all_combo_breakers, "J")["evil"] = 1
    ctx.check("current job", getattr(lib, cur[0]) == now)
    j = ctx.choice("asked job", ("J", "K"))
    n = ctx.choice("asked name", ("a", "b"))
    knows = is_known(j) or j in newjob
    ctx.check("job known exactly when registered", ctx.run(lib.has_job_class, j) == knows)
    if not knows:
        ctx.check("unknown job's action refused", ctx.call(lib.get_skill, n, j).exc == "KeyError")
        ctx.cover("end")
        return

    def entry(what, name):
        """what is registered now, from the arbitrary state before and this operation"""
        if (what, j, name) in want:
            return want[what, j, name]
        if j in newjob:
            return None
        t = md[what].orig[j]
        t._get(name)
        return t.orig[name]
    o = ctx.call(lib.get_skill, n, j)
    e = entry("skills", n)
    ctx.check("action of the job", o.exc == "KeyError" if e is None else o.ok and o.value is e)
    ctx.check("has the action", ctx.run(lib.has_skill, n, j) == (e is not None))
    for what, get, names in (("res", lib.get_all_resource_settings, ("g", "h", "evil")), ("brk", lib.get_all_combo_breakers, (0, 3, "evil"))):
        t = ctx.run(get, j)
        for x in names:
            ctx.check("%s of the job" % what, t.get(x) == entry(what, x))
        own = md[what].now[j]
        ctx.check("handed out as a copy", t is not own)
    ctx.check("effect priority of the job", ctx.run(lib.get_status_effect_priority, j) ==
              (("x", "y") if op == "prio" and j == "J" else () if j in newjob else ("prio of " + j, "w")))
    ctx.check("version and level as given", lib.get_version() == "7.05" and lib.get_level() == 90)
    ctx.cover("end")


@contract("C22", "bundle_any", F, kind="proof", no_conc=True)
def bundle_any(ctx):
    """a job's bundle of any number of breakers, actions and gauges: each is registered once, in order, for that
    job, through the operations under contract in step_any"""
    m = M(ctx)
    lib = m.SkillLibrary("x")
    calls, done = [], []
    for n in ("set_current_job_class", "set_status_effect_priority", "add_combo_breaker", "add_skill", "add_resource"):
        if not callable(getattr(lib, n, None)):
            ctx.unsupported("registered otherwise")
        setattr(lib, n, lambda *a, n=n: calls.append((n,) + a))

    def seq(what, make, args):
        def step(k, logs):
            if logs:
                ctx.unsupported("other bookkeeping")
            x = s.at(s.cur)
            mine = [c for c in calls if c[0] == what]
            ctx.check("registered once: " + what, len(mine) == 1 and len(mine[0]) == 1 + len(args(x)) and all(a is b for a, b in zip(mine[0][1:], args(x))))
            ctx.check("for the bundle's job", calls[0] == ("set_current_job_class", "J") and all(c[0] != "set_current_job_class" for c in calls[1:]))
        s = ctx.seq(what, make, on_step=step, on_exit=lambda loc: done.append(what))
        return s
    brk = None if ctx.flag("no breakers") else seq("add_combo_breaker", lambda at: (at.int("group"), (at.int("breaker"),)), lambda x: x)
    sks = seq("add_skill", lambda at: m.Skill(name="a"), lambda x: (x,))
    res = seq("add_resource", lambda at: ("g", m.JobResourceSettings(max_value=at.int("cap"))), lambda x: x)
    prio = None if ctx.flag("no priority") else ("u", "v")
    ctx.run(lib.add_all_skills_from, Bundle(job="J", prio=prio, brk=brk, skills=sks, res=res))
    ctx.check("all gone through", sorted(done) == sorted(["add_skill", "add_resource"] + (["add_combo_breaker"] if brk is not None else [])))
    ctx.check("nothing else registered", calls == [("set_current_job_class", "J")] + ([] if prio is None else [("set_status_effect_priority", prio)]))
    ctx.cover("end")


G = ["game_data/generic_job_class.py:GenericJobClass." + x for x in ("get_skills", "get_resources", "is_a_skill", "is_a_resource", "get_job_class",
                                                                     "get_status_effect_priority", "get_combo_breakers")]


@contract("C22", "collected", F + G, kind="bounded", split={"a": 5, "b": 5},
          bound="job definitions of three actions methods (giving none, one or several actions) and two gauge methods, one inherited, with other methods beside them")
def collected(ctx):
    """a job defined by methods: everything they define is registered, and nothing else"""
    m = M(ctx)
    ctx.mod("simulator.skills.create_skill_library")  # (importing the job definitions first is a circular import)
    GJ = ctx.mod("simulator.game_data.generic_job_class").GenericJobClass
    kinds = ("none", "one", "list", "tuple", "empty")
    want = {}

    def skills(n, k):
        ss = [m.Skill(name=n + str(i)) for i in range({"none": 0, "one": 1, "list": 2, "tuple": 3, "empty": 0}[k])]
        want.update({s.name: s for s in ss})
        return None if k == "none" else ss[0] if k == "one" else tuple(ss) if k == "tuple" else ss
    va, vb, vc = skills("a", ctx.choice("a", kinds)), skills("b", ctx.choice("b", kinds)), skills("c", ctx.choice("c", kinds[1:3]))
    g1 = ("g1", m.JobResourceSettings(max_value=4)) if ctx.flag("g1") else None
    g2 = ("g2", m.JobResourceSettings(max_value=7))
    prio, brk = ctx.choice("prio", (None, ("p", "q"))), ctx.choice("brk", (None, ((0, (1,)),)))

    class Data:
        def set_version(self, v):
            self.version = v

        def set_level(self, v):
            self.level = v

    class Base(GJ):
        @GJ.is_a_skill
        def a_method(self):
            return va

        @GJ.is_a_resource
        def gauge(self):
            return g1

    class Job(Base):
        def __init__(self, version, level):
            super().__init__(version=version, level=level, skill_data=Data())
            self._job_class = "J1"

        @GJ.is_a_skill
        def zz(self):
            return vb

        @GJ.is_a_skill
        def _hidden(self):
            return vc

        def helper(self):
            return m.Skill(name="b")

        @GJ.is_a_resource
        def zz_gauge(self):
            return g2

        def get_status_effect_priority(self):
            return prio

        def get_combo_breakers(self):
            return brk
    lib = m.SkillLibrary("7.05", level=100)
    job = ctx.run(Job, "7.05", 100)
    ctx.check("data set to the version and level", (job._skill_data.version, job._skill_data.level) == ("7.05", 100))
    ctx.run(lib.add_all_skills_from, job)
    for n in ("a0", "a1", "a2", "b", "b0", "b1", "b2", "c0", "c1"):
        ctx.check("exactly the defined actions", ctx.run(lib.has_skill, n, "J1") == (n in want))
        if n in want:
            ctx.check("the action as defined", ctx.run(lib.get_skill, n, "J1") is want[n])
    ctx.check("gauges as defined", ctx.run(lib.get_all_resource_settings, "J1") == dict(x for x in (g1, g2) if x))
    ctx.check("priority as defined", ctx.run(lib.get_status_effect_priority, "J1") == (prio or ()))
    ctx.check("breakers as defined", ctx.run(lib.get_all_combo_breakers, "J1") == dict(brk or ()))
    ctx.cover("end")


SHIPPED = ["skills/create_skill_library.py:create_skill_library"] + [
    "skills/add_%s_skills_to_skill_library.py:add_%s_skills_to_skill_library" % (x, x) for x in ("caster", "healer", "melee", "ranged", "tank")]
ROLES = {"tank": ("PLD", "WAR", "DRK", "GNB"), "healer": ("WHM", "SCH", "AST", "SGE"), "melee": ("MNK", "DRG", "NIN", "SAM", "RPR", "VPR"),
         "ranged": ("BRD", "MCH", "DNC"), "caster": ("BLM", "SMN", "RDM", "PCT")}


@contract("C22", "shipped", F + G + SHIPPED, kind="bounded", no_conc=True, split={"version": 5},
          bound="the shipped library of five game versions at both levels (exhaustive over jobs and actions)")
def shipped(ctx):
    """the shipped library holds what the shipped job definitions define, job by job"""
    mod = ctx.mod("simulator.skills.create_skill_library")
    GJ = ctx.mod("simulator.game_data.generic_job_class").GenericJobClass
    version = ctx.choice("version", ("6.55", "7.0", "7.01", "7.05", "7.1"))
    level = ctx.choice("level", (90, 100))
    if version == "6.55" and level == 100:
        ctx.stop()
    lib = ctx.run(mod.create_skill_library, version, level)
    jobs = [j for js in ROLES.values() for j in js if version >= "7.0" or j not in ("VPR", "PCT")]
    ctx.check("every job of the version, no other", sorted(lib.get_jobs()) == sorted(jobs))
    seen = set()
    for cls in GJ.__subclasses__():
        if ".game_data.class_skills." not in cls.__module__:
            continue
        job = cls(version=version, level=level)
        j = job.get_job_class()
        if j not in jobs:
            continue
        seen.add(j)
        try:
            sks = job.get_skills()
        except ValueError:
            ctx.unsupported("definitions that are not complete for this version and level")
        for s in sks:
            ctx.check("shipped action: " + j + "/" + s.name, lib.has_skill(s.name, j) and lib.get_skill(s.name, j) == s)
        ctx.check("shipped gauges: " + j, lib.get_all_resource_settings(j) == dict(job.get_resources()))
        ctx.check("shipped priority: " + j, lib.get_status_effect_priority(j) == (job.get_status_effect_priority() or ()))
        ctx.check("shipped breakers: " + j, lib.get_all_combo_breakers(j) == dict(job.get_combo_breakers() or ()))
    ctx.check("a definition for every job", seen == set(jobs))
    ctx.cover("end")
