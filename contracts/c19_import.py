"""C19: timed actions and CSV rows enter the rotation exactly as written."""
from rotation import *

CU = "rotation_import_utils/csv_utils.py:CSVUtils."
F = [RB + "add", RB + "get_default_skill_modifier", RB + "__process_and_check_targets", RB + "__process_q_timed",
     RB + "get_button_press_timing"]
FC = F + [CU + "read_rotation_from_csv", CU + "populate_rotation_from_csv"]
FE = F + [RB + "print_button_press_timings_as_csv"]


def action(m, name="s", **k):
    return m.Skill(name=name, is_GCD=False, timing_spec=timing(m), **k)


@contract("C19", "milliseconds", F, fp=True)
def milliseconds(ctx):
    """a time in seconds, as the double nearest to a whole number of milliseconds, is pressed at that millisecond
    (binary floating point included in the proof)"""
    m = M(ctx)
    b = m.RotationBuilder(stats(m), library(m, [action(m)]), fight_start_time=0)
    ms = ctx.int("ms", -10 ** 9, 10 ** 9)
    ctx.run(b.add, ms / 1000, "s")
    ctx.run(b.get_skill_timing)
    p = ctx.run(b.get_button_press_timing)
    ctx.check("one press", len(p) == 1)
    ctx.eq("pressed at the stated millisecond", p[0][0], ms)


@contract("C19", "nearest", F)
def nearest(ctx):
    """any other time goes to the nearest millisecond"""
    m = M(ctx)
    b = m.RotationBuilder(stats(m), library(m, [action(m)]), fight_start_time=0)
    t = ctx.real("t", -10000, 10000, grid=10 ** 6)
    ctx.run(b.add, t, "s")
    ctx.run(b.get_skill_timing)
    p = ctx.run(b.get_button_press_timing)
    d = p[0][0] - 1000 * ex(t)
    ctx.check("nearest millisecond", And(d <= Fraction(501, 1000), d >= Fraction(-501, 1000)))
    ctx.eq("a whole number of milliseconds", p[0][0], floor(p[0][0], exact=True))


JOB2 = "test_job2"


def libs(m):
    own = [action(m, "x", damage_spec=m.DamageSpec(potency=1)), action(m, "y", off_class_default_condition="Off")]
    other = [action(m, "y", damage_spec=m.DamageSpec(potency=2), off_class_default_condition="Off"),
             action(m, "x", off_class_default_condition="Away")]
    return library(m, own, others={JOB2: other})


class Row:
    def __init__(self, ctx, i, cols):
        p = "r%d." % i
        self.ms = ctx.int(p + "ms", -100000, 2000000)
        self.skill = ctx.choice(p + "skill", ("x", "y"))
        self.job = ctx.choice(p + "job", ("", JOB2, JOB))
        self.cond = ctx.choice(p + "cond", ("", "Hit", "One, Two"))
        self.targets = ctx.choice(p + "targets", ("", "A", "B, C")) if "targets" in cols else ""

    def expect(self):
        job = self.job or JOB
        if self.cond:
            cond = {c.strip() for c in self.cond.split(",")}
        else:
            cond = set() if job == JOB else {{"x": "Away", "y": "Off"}[self.skill]}
        tg = tuple(t.strip() for t in self.targets.split(",")) if self.targets else ("Main",)
        return self.ms, self.skill, ("" if job == JOB else job), cond, tg, (job, self.skill) in ((JOB, "x"), (JOB2, "y"))


def verify(ctx, b, rows):
    evs = events(ctx, ctx.run(b.get_skill_timing))
    p = ctx.run(b.get_button_press_timing)
    ctx.check("every row becomes exactly one action", len(evs) == len(rows) and len(p) == len(rows))
    if len(evs) != len(rows) or len(p) != len(rows):
        return
    want = sorted([r.expect() for r in rows], key=lambda w: w[0])
    if any(bool(a[0] == c[0]) for a, c in zip(want, want[1:])):
        ctx.stop()     # order of actions at one instant is not claimed
    evs = sorted(evs, key=lambda e: e.snap)
    for e, q, w in zip(evs, p, want):
        ctx.eq("pressed at its time", [q[0], e.snap], [w[0], w[0]])
        ctx.check("its skill, of its job", q[1] == w[1] and e.name == w[1] and (e.skill.damage_spec is not None) == w[5])
        ctx.check("its job", q[2] == w[2])
        ctx.check("its conditions", e.cond == w[3] and {c.strip() for c in q[3].split(",") if c.strip()} == w[3])
        ctx.check("its targets", e.targets == w[4])


@contract("C19", "typed", F, kind="bounded", split={"r0.skill": 2, "r0.job": 3}, bound="one typed-in action; all blank/non-blank combinations, all times")
def typed(ctx):
    m = M(ctx)
    r = Row(ctx, 0, ("targets",))
    b = m.RotationBuilder(stats(m), libs(m), fight_start_time=0, default_target="Main")
    ctx.run(b.add, r.ms / 1000, r.skill, skill_modifier=m.SkillModifier(with_condition=r.cond) if r.cond else None,
            job_class=r.job or None, targets=r.targets or None)
    verify(ctx, b, [r])


@contract("C19", "in_sequence", F + [RB + "add_next"], kind="bounded", split={"r0.skill": 2, "r0.job": 3},
          bound="one action added in sequence 0 to 3 times, after another; all blank/non-blank combinations")
def in_sequence(ctx):
    m = M(ctx)
    r = Row(ctx, 0, ("targets",))
    n = ctx.choice("times", (1, 2, 3, 0))
    b = m.RotationBuilder(stats(m), libs(m), fight_start_time=0, default_target="Main")
    k = dict(num_times=n) if n != 1 else {}
    ctx.run(b.add_next, "x", skill_modifier=m.SkillModifier(with_condition="first"))
    ctx.run(b.add_next, r.skill, skill_modifier=m.SkillModifier(with_condition=r.cond) if r.cond else None,
            job_class=r.job or None, targets=r.targets or None, **k)
    evs = [e for e in events(ctx, ctx.run(b.get_skill_timing)) if e.cond != {"first"}]
    p = [q for q in ctx.run(b.get_button_press_timing) if q[3] != "first"]
    _, name, job, cond, tg, dmg = r.expect()
    ctx.check("the stated number of actions", len(evs) == n and len(p) == n)
    for e, q in zip(evs, p):
        ctx.check("its skill, of its job", q[1] == name and e.name == name and (e.skill.damage_spec is not None) == dmg)
        ctx.check("its job", q[2] == job)
        ctx.check("its conditions", e.cond == cond and {c.strip() for c in q[3].split(",") if c.strip()} == cond)
        ctx.check("its targets", e.targets == tg)
    ctx.cover("end")


COLS = (("time", "skill_name", "job_class", "skill_conditional"),
        ("Time", "skill_name", "job_class", "skill_conditional", "targets"),
        ("TARGETS", "Skill_Name", "TIME", "Skill_conditional", "Job_Class", "comment"))


def table(rows, cols):
    out = []
    for r in rows:
        v = {"time": r.ms / 1000, "skill_name": r.skill, "job_class": r.job, "skill_conditional": r.cond, "targets": r.targets,
             "comment": "?"}
        out.append([v[c.lower()] for c in cols])
    return out


@contract("C19", "csv", FC, kind="bounded", split={"r0.skill": 2, "r0.job": 3, "cols": 3},
          bound="one row with any blank/non-blank combination, three column layouts; all times; pandas.read_csv assumed to return the table")
def csv(ctx):
    m = M(ctx)
    cols = ctx.choice("cols", COLS)
    rows = [Row(ctx, 0, [c.lower() for c in cols])]
    b = m.RotationBuilder(stats(m), libs(m), fight_start_time=0, default_target="Main")
    C = ctx.mod("simulator.rotation_import_utils.csv_utils").CSVUtils
    with ctx.csv_file(cols, table(rows, cols)) as f:
        rb, listed = ctx.run(C.populate_rotation_from_csv, b, f)
    ctx.check("the same builder is returned, with the rows", rb is b and len(listed) == 1)
    verify(ctx, b, rows)


@contract("C19", "csv_rows", FC, kind="bounded",
          bound="two rows (own job, all times, skills and targets) after an action added by hand")
def csv_rows(ctx):
    m = M(ctx)
    cols = COLS[1]
    rows = []
    for i in range(3):
        r = Row.__new__(Row)
        r.ms, r.skill = ctx.int("r%d.ms" % i, -100000, 2000000), ctx.choice("r%d.skill" % i, ("x", "y"))
        r.job, r.cond, r.targets = "", "c%d" % i, "T%d" % i
        if i < 2:
            r.cond, r.targets = ctx.choice("r%d.cond" % i, (r.cond, "")), ctx.choice("r%d.targets" % i, (r.targets, ""))
        rows.append(r)
    b = m.RotationBuilder(stats(m), libs(m), fight_start_time=0, default_target="Main")
    ctx.run(b.add, rows[2].ms / 1000, rows[2].skill, skill_modifier=m.SkillModifier(with_condition="c2"), targets="T2")
    C = ctx.mod("simulator.rotation_import_utils.csv_utils").CSVUtils
    with ctx.csv_file(cols, table(rows[:2], cols)) as f:
        listed = ctx.run(C.read_rotation_from_csv, f)
        ctx.run(C.populate_rotation_from_csv, b, f)
    ctx.check("rows in file order", [x.skill_name for x in listed] == [r.skill for r in rows[:2]])
    verify(ctx, b, rows)


@contract("C19", "missing_file", FC, kind="bounded", bound="a file that does not exist")
def missing_file(ctx):
    m = M(ctx)
    b = m.RotationBuilder(stats(m), libs(m), fight_start_time=0)
    C = ctx.mod("simulator.rotation_import_utils.csv_utils").CSVUtils
    ctx.check("no rows", ctx.run(C.read_rotation_from_csv, "/nonexistent/rotation.csv") == [])


@contract("C19", "export", FE, kind="bounded", bound="two actions, exported, and their times added again; all times")
def export(ctx):
    m = M(ctx)
    ms = [ctx.int("ms%d" % i, -5000, 100000) for i in range(2)]
    if bool(ms[0] == ms[1]):
        ctx.stop()
    b = m.RotationBuilder(stats(m), libs(m), fight_start_time=0)
    for i, t in enumerate(ms):
        ctx.run(b.add, t / 1000, "x" if i == 0 else "y", skill_modifier=m.SkillModifier(with_condition="c%d" % i))
    ctx.run(b.get_skill_timing)
    lines = [l for l in ctx.printed(b.print_button_press_timings_as_csv) if l.strip()]
    ctx.check("a header and one line per press", len(lines) == 3)
    ctx.check("header", [c.strip().lower() for c in lines[0].split(",")] == ["time", "skill_name", "job_class", "skill_conditional"])
    cells = [[c.strip() for c in l.split(",")] for l in lines[1:]]
    r = m.RotationBuilder(stats(m), libs(m), fight_start_time=0)
    for c in cells:
        ctx.run(r.add, ctx.tok(c[0]), c[1], skill_modifier=m.SkillModifier(with_condition=c[3]))
    ctx.run(r.get_skill_timing)
    p, q = ctx.run(b.get_button_press_timing), ctx.run(r.get_button_press_timing)
    ctx.eq("the same press times", [x[0] for x in q], [x[0] for x in p])
    ctx.check("the same actions and conditions", [x[1:] for x in q] == [x[1:] for x in p])
    order = sorted(range(2), key=lambda i: ms[i])
    ctx.eq("press times as added", [x[0] for x in p], [ms[i] for i in order])


class Column:
    _vc_spec_ = True

    def __init__(self, ctx, rows, name):
        self.ctx, self.rows, self.name = ctx, rows, name
        self.iloc = self.loc = self

    def __getitem__(self, i):
        return self.rows[i][self.name]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self.ctx.unsupported("rows read otherwise: " + n)


class Frame:
    """the table pandas.read_csv returns, of any number of rows"""
    _vc_spec_ = True

    def __init__(self, ctx, rows, cols):
        self.ctx, self.rows, self.columns = ctx, rows, cols

    def sym_len(self):
        return self.rows.n

    def rename(self, f=None, axis=None, columns=None):
        f = columns or f
        if not callable(f) or axis not in (None, 1, "columns"):
            self.ctx.unsupported("columns renamed otherwise")
        old = list(self.columns)
        new = [f(c) for c in old]
        return Frame(self.ctx, self.rows.view(lambda r: dict(zip(new, [r[c] for c in old]))), new)

    def __contains__(self, c):
        return c in self.columns

    def __getitem__(self, c):
        if c not in self.columns:
            raise KeyError(c)
        return Column(self.ctx, self.rows, c)

    def to_dict(self, orient="dict"):
        if orient != "records":
            self.ctx.unsupported("rows read otherwise")
        return self.rows

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self.ctx.unsupported("rows read otherwise: " + n)


@contract("C19", "rows_any", FC, kind="proof", no_conc=True, split={"cols": 3})
def rows_any(ctx):
    """a table of any number of rows: exactly one action is added per row, with the row's time, skill, job,
    conditions and targets (what add does with them is under contract in the others)"""
    import pandas
    m = M(ctx)
    cols = ctx.choice("cols", COLS)
    C = ctx.mod("simulator.rotation_import_utils.csv_utils").CSVUtils
    with ctx.csv_file(COLS[0], [[1, "x", "", ""]]) as f:
        one = ctx.run(C.read_rotation_from_csv, f)
    row = type(one[0]) if len(one) == 1 else None
    if getattr(row, "_fields", None) != ("t", "skill_name", "job_class", "skill_conditional", "targets"):
        ctx.unsupported("rows listed otherwise")
    calls, done = [], []

    class RB:
        _vc_spec_ = True

        def add(self, t, skill_name, skill_modifier=None, job_class=None, targets=None):
            calls.append((t, skill_name, skill_modifier, job_class, targets))

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            ctx.unsupported("rows added otherwise: " + n)

    def make(at):
        v = {"time": at.real("t"), "skill_name": at.choice("skill", ("x", "y")), "job_class": at.choice("job", ("", JOB2)),
             "skill_conditional": at.choice("cond", ("", "One, Two")), "targets": at.choice("targets", ("", "B, C")) if len(cols) > 4 else "", "comment": "?"}
        return {c: v[c.lower()] for c in cols}

    def cell(r, c):
        return [v for k, v in r.items() if k.lower() == c][0]

    def step(k, logs):
        if not calls and not done:
            return                                  # reading
        r = s.at(s.cur)
        ctx.check("one action per row", len(calls) == 1)
        t, name, mod, job, tg = calls.pop()
        ctx.check("its time and skill", And(t == cell(r, "time"), name == cell(r, "skill_name")))
        ctx.check("its job", (job or "") == cell(r, "job_class"))
        cond = cell(r, "skill_conditional")
        ctx.check("its conditions", mod is None if not cond else isinstance(mod, m.SkillModifier) and mod.with_condition == m.SkillModifier(with_condition=cond).with_condition)
        tgt = cell(r, "targets") if len(cols) > 4 else ""
        ctx.check("its targets", (tg or "") == tgt)
    s = ctx.seq("rows", make, on_step=step, on_exit=lambda loc: done.append(1))
    item = lambda r: row(cell(r, "time"), cell(r, "skill_name"), cell(r, "job_class") or None, cell(r, "skill_conditional"),
                         (cell(r, "targets") or None) if len(cols) > 4 else None)
    ctx.map(s, item)
    old = pandas.read_csv
    pandas.read_csv = lambda *a, **k: Frame(ctx, s, list(cols))
    rb = RB()
    try:
        res = ctx.run(C.populate_rotation_from_csv, rb, "f.csv")
    finally:
        pandas.read_csv = old
    if len(done) != 2:
        ctx.unsupported("rows not read in one loop and added in another")
    ctx.check("the same builder is returned", res[0] is rb)
    ctx.check("nothing added afterwards", calls == [])
    ctx.cover("end")
