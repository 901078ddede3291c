"""Contracts and the contexts they run in.

A contract is a function h(ctx): it draws inputs from ctx, assumes the
precondition, calls the real code and states postconditions with
ctx.check / ctx.eq.  It runs
  * symbolically (SymCtx) on the instrumented real code: every check is an
    obligation discharged by z3 for all inputs on the path,
  * concretely (ConcCtx) on the untouched real code: replay of counter-models
    and a random cross-check of the contract against CPython.
"""
import importlib
import math
import random
import sys
from fractions import Fraction

from . import spec

REGISTRY = []
PKG = "ama_xiv_combat_sim"


class Contract:
    def __init__(self, fn, prop, cid, functions, kind, bound, opts):
        self.fn, self.prop, self.cid = fn, prop, cid
        self.functions, self.kind, self.bound, self.opts = functions, kind, bound, opts


def contract(prop, cid, functions, kind="proof", bound=None, **opts):
    """kind: 'proof' (complete for all inputs) or 'bounded' (stand-in with a stated bound)"""
    def deco(fn):
        REGISTRY.append(Contract(fn, prop, prop + "." + cid, list(functions), kind, bound, opts))
        return fn
    return deco


def _csv_file(cols, rows):
    import contextlib
    import csv
    import os
    import tempfile

    @contextlib.contextmanager
    def cm():
        fd, f = tempfile.mkstemp(suffix=".csv")
        with os.fdopen(fd, "w", newline="") as fh:
            w = csv.writer(fh)
            w.writerow(cols)
            w.writerows(rows)
        try:
            yield f
        finally:
            os.unlink(f)
    return cm()


class Discard(BaseException):
    pass


class CheckFailed(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


class Outcome:
    __slots__ = ("value", "exc", "msg")

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = type(exc).__name__ if exc is not None else None
        self.msg = str(exc)[:300] if exc is not None else ""

    @property
    def ok(self):
        return self.exc is None


_ALIAS = {}


class BaseCtx:
    symbolic = False

    def mod(self, name):
        if not name.startswith(PKG):
            name = PKG + "." + name
        return importlib.import_module(name)

    def get(self, name):
        """'pkg.mod:Attr'"""
        m, a = name.split(":")
        o = self.mod(m)
        for x in a.split("."):
            o = getattr(o, x)
        return o

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except Exception as e:  # noqa
            return Outcome(exc=e)

    def run(self, f, *a, **k):
        """call that must not raise: raising is reported as a failed check"""
        o = self.call(f, *a, **k)
        if o.exc is not None:
            if getattr(self, "internal", False):
                self.unsupported("stand-ins do not fit the code: %s: %s" % (o.exc, o.msg))
            self.check("no unexpected error", False, detail="%s: %s" % (o.exc, o.msg))
            self.stop()
        return o.value

    # numbers that may be infinite
    def int_or_inf(self, name, lo=None, hi=None):
        if self.flag(name + ".inf"):
            return math.inf
        return self.int(name, lo, hi)

    # unbounded above for the proof; typ bounds only the random sampling
    def uint(self, name, lo=0, typ=1000):
        return self.int(name, lo, None if self.symbolic else typ)

    def ureal(self, name, lo=0, typ=10, grid=1000):
        return self.real(name, lo, None if self.symbolic else typ, grid=grid)

    def size(self, name, lo, hi, conc=None):
        """number of elements: up to hi for the obligations, up to conc when sampling the real code"""
        top = hi if self.symbolic or conc is None else max(hi, conc)
        if not self.symbolic and self.values is None:
            r = self.rng
            v = r.randint(lo, hi) if r.random() < 0.4 else r.randint(lo, top)
            self.log[name] = v - lo
            return v
        return self.choice(name, list(range(lo, top + 1)))

    def ex(self, v):
        return spec.ex(v)

    def eq(self, label, a, b, tol=1e-9):
        def sh(x):
            s = repr(x)
            return s if len(s) < 300 else s[:300] + "..."
        self.check(label, spec.eq(a, b, tol), detail=None if self.symbolic else "code: %s   expected: %s" % (sh(a), sh(b)))


# --------------------------------------------------------------------- concrete
class ConcCtx(BaseCtx):
    """values: replay dict, or None for random"""

    @property
    def exhaustive(self):
        """enumerate rather than sample finite domains (when replaying)"""
        return self.values is not None

    def __init__(self, values=None, rng=None, bound=None):
        self.values = values
        self.rng = rng or random.Random(1)
        self.log = {}
        self.pool = [0, 1]
        self.rpool = []
        self.nchecks = 0
        self.bound = bound
        self.draws = []
        spec.AMBIG[0] = False

    def _given(self, name, default):
        if self.values is not None:
            if name in self.values:
                v = self.values[name]
                if isinstance(v, list):
                    v = Fraction(v[0], v[1])
                return True, v
            return True, default
        return False, None

    def int(self, name, lo=None, hi=None):
        g, v = self._given(name, lo if lo is not None else (hi if hi is not None and hi < 0 else 0))
        if not g:
            r = self.rng
            L = lo if lo is not None else -100000
            H = hi if hi is not None else max(L + 1, 100000)
            k = r.random()
            if k < 0.45 and self.pool:
                v = r.choice(self.pool) + r.choice([0, 0, 0, 1, -1, 500, 3000, -3000, 30000, r.choice(self.pool)])
            elif k < 0.6:
                v = r.choice([L, H, 0, L + 1, H - 1])
            elif k < 0.8:
                v = r.randint(L, min(H, L + 20))
            else:
                v = r.randint(L, H)
            v = min(max(v, L), H)
        v = int(v)
        self.pool.append(v)
        self.log[name] = v
        return v

    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False, grid=1000):
        d = lo if lo is not None else 0
        g, v = self._given(name, d)
        if not g:
            r = self.rng
            L = spec.ex(lo if lo is not None else -1000)
            H = spec.ex(hi if hi is not None else max(L + 1, 1000))
            k = r.random()
            gr = r.choice([1, 10, 100, grid])
            if k < 0.12 and not open_lo:
                v = L
            elif k < 0.24 and not open_hi:
                v = H
            elif k < 0.35 and self.rpool:
                v = r.choice(self.rpool)
            else:
                v = Fraction(r.randint(math.ceil(L * gr), max(math.ceil(L * gr), math.floor(H * gr))), gr)
            v = min(max(v, L), H)
            if (open_lo and v <= L) or (open_hi and v >= H):
                v = (L + H) / 2
        v = Fraction(v)
        self.rpool.append(v)
        self.log[name] = [v.numerator, v.denominator]
        if v.denominator == 1 and not g and self.rng.random() < 0.5:
            pass
        return float(v)

    def bool(self, name):
        g, v = self._given(name, False)
        if not g:
            v = self.rng.random() < 0.5
        self.log[name] = bool(v)
        return bool(v)

    flag = bool

    def choice(self, name, options):
        g, v = self._given(name, 0)
        if not g:
            v = self.rng.randrange(len(options))
        self.log[name] = int(v)
        return options[int(v)]

    def enum(self, name, members):
        return self.choice(name, list(members))

    def assume(self, c):
        if not c:
            raise Discard()

    def check(self, label, c, detail=None):
        self.nchecks += 1
        if not c:
            if spec.AMBIG[0]:
                raise Discard()
            raise CheckFailed(label, detail or "")

    def cover(self, label):
        pass

    def seq(self, name, make, nonempty=False, on_step=None, on_exit=None, sorted_by=None):
        n = self.size(name + ".len", 1 if nonempty else 0, 3, 8)
        s = ConcSeq([make(_ConcAt(self, "%s[%d]." % (name, i), i)) for i in range(n)])
        s.order = sorted_by
        return s

    def dim(self, name, lo=1):
        """any number of things that only numpy goes through"""
        return self.size(name, lo, 3, 8)

    len = staticmethod(len)

    def roots_as_function(self):
        pass

    def vector(self, seq, fn):
        return [fn(x) for x in seq]

    def dict_of(self, name, make, **k):
        return dict(self.seq(name, make, **k))

    def fold(self, seq, init, step, monotone=False, inv=None, ints=False):
        acc = init
        xs = list(seq.items()) if isinstance(seq, dict) else seq
        if getattr(xs, "order", None):
            xs = sorted(xs, key=xs.order)
        for x in xs:
            acc = step(acc, x)
        return _ConcFold(acc)

    def stop(self):
        raise Discard()

    def unsupported(self, what):
        raise Discard()

    def draw(self):
        n = len(self.draws)
        nm = "draw" if n == 0 else "draw~%d" % n
        v = self.real(nm, 0, 1, open_hi=True, grid=1000)
        self.draws.append(v)
        return v

    def patch_random(self):
        """context manager: numpy.random.rand delivers the inputs draw, draw~1, ..."""
        import numpy as np
        ctx = self

        class P:
            def __enter__(s):
                s.old = np.random.rand

                def rand(*shape):
                    out = np.zeros(shape)
                    for ix in np.ndindex(*shape):
                        out[ix] = ctx.draw()
                    return out
                np.random.rand = rand

            def __exit__(s, *a):
                np.random.rand = s.old
        return P()

    def csv_file(self, cols, rows):
        return _csv_file(cols, rows)

    def printed(self, f, *a, **k):
        import contextlib
        import io
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            f(*a, **k)
        return b.getvalue().splitlines()

    def tok(self, s):
        """number in a formatted string"""
        return float(s)


class _ConcFold:
    def __init__(self, v):
        self.total = v


class ConcSeq(list):
    order = None

    def view(self, fn):
        s = ConcSeq(fn(x) for x in self)
        return s


class _ConcAt:
    def __init__(self, ctx, p, i):
        self.ctx, self.p, self.i = ctx, p, i

    def __getattr__(self, n):
        f = getattr(self.ctx, n)
        return lambda name, *a, **k: f(self.p + name, *a, **k)

    def index(self):
        return self.i


# --------------------------------------------------------------------- symbolic
def make_sym_ctx(engine):
    import z3
    from . import engine as en
    from . import rt

    class SymCtx(BaseCtx):
        symbolic = True
        exhaustive = True

        def __init__(self):
            self.e = engine

        def int(self, name, lo=None, hi=None):
            v = z3.Int("in:" + name)
            engine.inputs[name] = ("int", v, None)
            if lo is not None:
                engine.fact(v >= en.zn(lo))
            if hi is not None:
                engine.fact(v <= en.zn(hi))
            if lo is not None and hi is not None and not spec.sym(lo) and not spec.sym(hi) and lo == hi:
                return lo
            return en.SymNum(v)

        def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False, grid=1000):
            v = z3.Real("in:" + name)
            engine.inputs[name] = ("real", v, None)
            if lo is not None:
                engine.fact(v > en.zn(lo) if open_lo else v >= en.zn(lo))
            if hi is not None:
                engine.fact(v < en.zn(hi) if open_hi else v <= en.zn(hi))
            return en.SymNum(v, isint=False)

        def bool(self, name):
            v = z3.Bool("in:" + name)
            engine.inputs[name] = ("bool", v, None)
            return en.SymBool(v)

        def flag(self, name):
            k = engine.forced[name] if name in engine.forced else engine.choose(2)
            engine.choices[name] = bool(k)
            return bool(k)

        def choice(self, name, options):
            k = engine.forced[name] if name in engine.forced else engine.choose(len(options))
            if k >= len(options):
                raise en.PathAbort()
            engine.choices[name] = k
            return options[k]

        def enum(self, name, members):
            members = list(members)
            v = z3.Int("in:" + name)
            engine.inputs[name] = ("enum", v, None)
            engine.fact(z3.And(v >= 0, v < len(members)))
            return en.SymEnum(v, type(members[0]), members)

        def assume(self, c):
            engine.assume(c)

        def check(self, label, c, detail=None):
            engine.prove(label, c, note=detail)

        def cover(self, label):
            engine.cover(label)

        def seq(self, name, make, **k):
            """a sequence of arbitrary length; make(at) builds an element from its fields"""
            from . import loops
            s = loops.Seq(name, make, **k)
            engine.__dict__.setdefault("seqs", []).append(s)
            return s

        def dim(self, name, lo=1):
            import z3
            d = z3.Int("dim:" + name)
            engine.fact(d >= lo)
            n = en.SymNum(d)
            engine.__dict__.setdefault("dims", []).append(n)
            return n

        def matrix(self, name, n, k):
            """n rows, k columns of any numbers"""
            from . import arrays
            F = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.RealSort())
            return arrays.VArr((n, k), lambda i, j: en.SymNum(F(en.zn(i), en.zn(j)), isint=False))

        def axiom(self, z):
            engine.fact(z)

        def permuted(self, seq):
            from . import arrays
            return arrays.Perm(seq)

        def instances(self, i):
            """what is known of all elements, of element i; and the elements nonzero() named"""
            from . import arrays
            arrays.nowhere(i)
            return list(engine.__dict__.get("firsts", ()))

        def roots_as_function(self):
            engine.sqrt_as_function = True

        def root(self, v):
            return engine.sqrt(v)

        def len(self, x):
            from . import rt
            return rt.len_(x)

        def vector(self, seq, fn):
            """a column of any length: fn of the elements"""
            from . import arrays
            return arrays.VArr((seq.n, 1), lambda i, j: fn(seq.at(en.zn(i))))

        def cut_ranges(self, name, on_step=None):
            from . import loops

            def hook(a):
                lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
                if spec.sym(st) or st <= 0:
                    return None
                s = loops.Range(engine.fresh(name), lo, hi, st, on_step=on_step)
                engine.seqs.append(s)
                return s
            engine.range_hook = hook

        def ghost(self, seq, guard):
            """the iterations of the while loop from which mark(seq) is called are seq's elements"""
            engine.__dict__.setdefault("ghosts", {})[seq.name] = (seq, guard)

        def mark(self, seq):
            from . import loops
            loops.mark_while(seq, engine.ghosts[seq.name][1])

        def queue(self, name, make, on_step=None):
            from . import loops
            q = loops.Queue(name, make, on_step)
            engine.queues.append(q)
            return q

        def dict_of(self, name, make, **k):
            from . import loops
            return loops.DictView(self.seq(name, make, **k))

        def fold(self, seq, init, step, monotone=False, inv=None, ints=False):
            from . import loops
            return (seq.seq if isinstance(seq, loops.DictView) else seq).fold(init, step, monotone, inv, ints)

        def map(self, seq, item, keep=None, indexed=False):
            from . import loops
            (seq.seq if isinstance(seq, loops.DictView) else seq).map(item, keep, indexed)

        @property
        def gone(self):
            from . import loops
            return loops.GONE

        def same_seq(self, what, got, seq, item, keep):
            """got is (a join by commas of) item(element) for the elements with keep(element), in order"""
            from . import loops, rt
            if isinstance(got, loops.Joined):
                if got.sep != ", ":
                    return self.check(what, False)
                got = got.seq
            got = rt.filled(got)
            if isinstance(got, loops.Mapped):
                got = got.as_seq()
            if not isinstance(got, loops.Seq) or got.base is not seq.base:
                # an ordinary collection: right only when no element is kept (the path condition decides)
                if len(got) == 0:
                    return self.unsupported("an empty collection")
                return self.check(what, False)
            k = en.z3.Int(engine.fresh("$q:" + seq.name))
            engine.assume(en.SymBool(en.z3.And(k >= 0, k < seq.n.z)))
            for f in seq.base.folds:
                if f.monotone:
                    f.unfold(k)
            want = keep(seq.base.at(k))
            has = got.has(k)
            self.check(what, bool(has) == bool(want))
            if has and want:
                self.check(what + ": item", loops.same_item(got.at(k), item(seq.base.at(k))))

        def stop(self):
            raise en.PathAbort()

        def unsupported(self, what):
            raise en.Unsupported(what)

        def patch_random(self):
            import contextlib
            return contextlib.nullcontext()

        def csv_file(self, cols, rows):
            """the file holds a token for every symbolic number; pandas.read_csv is assumed to
            deliver the cells of the file (tokens mapped back to their numbers)"""
            import contextlib
            import pandas
            txt = [[engine.token(c) if isinstance(c, en.SymNum) else c for c in r] for r in rows]

            @contextlib.contextmanager
            def cm():
                old = pandas.read_csv

                def read(*a, **k):
                    df = old(*a, **k)
                    for c in df.columns:
                        vs = [engine.tokens.get(x, x) if isinstance(x, str) else x for x in df[c]]
                        if any(isinstance(x, en.SymNum) for x in vs):
                            df[c] = pandas.Series(vs, dtype=object, index=df.index)
                    return df
                pandas.read_csv = read
                try:
                    with _csv_file(cols, txt) as f:
                        yield f
                finally:
                    pandas.read_csv = old
            engine.__dict__.setdefault("assumed", set()).add("pandas.read_csv delivers the cells of the file")
            return cm()

        def printed(self, f, *a, **k):
            mark = len(rt.PRINTED)
            f(*a, **k)
            out = rt.PRINTED[mark:]
            return [l for s in out for l in s.split("\n")]

        def tok(self, s):
            s = s.strip()
            if s in engine.tokens:
                return engine.tokens[s]
            return float(s)

    return SymCtx()


def load_contracts(prop=None):
    import glob
    import os
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts")
    if here not in sys.path:
        sys.path.insert(0, here)
    pats = glob.glob(os.path.join(here, (prop.lower() if prop else "c*") + "_*.py"))
    for p in sorted(pats):
        importlib.import_module(os.path.basename(p)[:-3])
    return [c for c in REGISTRY if prop is None or c.prop == prop]


def run_concrete(c, values, seed=1):
    """-> (status, label, detail, log); status in ok|fail|discard|error"""
    ctx = ConcCtx(values=values, rng=random.Random(seed))
    try:
        c.fn(ctx)
        return "ok", None, None, ctx.log, ctx.nchecks
    except Discard:
        return "discard", None, None, ctx.log, ctx.nchecks
    except CheckFailed as e:
        return "fail", e.label, e.detail, ctx.log, ctx.nchecks
