"""Sequences of arbitrary length and loops over them.

A contract may hand the code a sequence of unbounded, symbolic length (ctx.seq): element i is an
object whose fields are functions of i.  A loop of the real code over it is cut at its head:

  initiation    the invariant holds before the first iteration,
  consecution   from an arbitrary iteration k satisfying the invariant, one execution of the real
                body re-establishes it at k + 1 (the path ends there; break/return continue),
  exit          the code after the loop runs from the invariant at k = n.

Invariants are inferred: the contract states folds (specification-level recursions over the
sequence); every `local == fold(k)` is a candidate, candidates that fail initiation or consecution
are dropped and the run restarts until none is dropped (Houdini).  Nothing depends on names used in
the code.  A modified local without invariant becomes Poison: any use of it leaves the verifier's
reach (Unsupported, the contract stays undecided).  Heap modified by the body is detected by
comparing everything reachable from the frame; only lists that grow at the end (logs) are allowed,
their new items are handed to the contract's on_step.  Where the contract states maps of the
sequence (ctx.map: the item made from an element, and which elements make one), a list that is empty
before the loop and grows by exactly those items stands for the mapped (filtered) sequence afterwards.
"""
import enum
import sys
import types

import z3

from . import engine as en
from .engine import SymBool, SymEnum, SymName, SymNum, PathAbort, Unsupported, cur, is_num, mkbool, norm, zn, toreal, zb, is_inf

MAX_RESTARTS = 12


class LoopState:
    def __init__(self):
        self.cands = {}      # local -> set of fold names (fixed during one exploration)
        self.drop = set()    # (local, fold) to be dropped before the next exploration
        self.frozen = None   # fold names whose value stays what it was at 0
        self.fdrop = set()
        self.logs = set()
        self.newlogs = set()
        self.maps = {}       # log -> maps it may equal
        self.mdrop = set()


def _raise(*a, **k):
    raise Unsupported("use of a loop-modified variable without invariant")


class Poison:
    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        _raise()

    def __deepcopy__(self, m):
        return self

    __call__ = __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = _raise
    __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __getitem__ = __setitem__ = __iter__ = __len__ = __contains__ = __str__ = _raise
    __index__ = __int__ = __float__ = __neg__ = __abs__ = __format__ = __floordiv__ = __mod__ = __repr__ = __delitem__ = _raise
    __hash__ = lambda self: 1


POISON = Poison()


class Chunk(Poison):
    """stands for the items a loop has logged so far"""
    __hash__ = lambda self: 2


class At:
    """fields of element i"""

    def __init__(self, seq, i):
        self.seq, self.i = seq, i

    def _f(self, name, sort):
        return z3.Function("%s.%s" % (self.seq.name, name), z3.IntSort(), sort)(self.i)

    def int(self, name, lo=None, hi=None):
        v = self._f(name, z3.IntSort())
        e = cur()
        if lo is not None:
            e.fact(v >= zn(lo))
        if hi is not None:
            e.fact(v <= zn(hi))
        return SymNum(v)

    def real(self, name, lo=None, hi=None, grid=None):
        v = self._f(name, z3.RealSort())
        e = cur()
        if lo is not None:
            e.fact(v >= zn(lo))
        if hi is not None:
            e.fact(v <= zn(hi))
        return SymNum(v, isint=False)

    def uint(self, name, lo=0, typ=None):
        return self.int(name, lo)

    def ureal(self, name, lo=0, typ=None, grid=None):
        return self.real(name, lo)

    def bool(self, name):
        return SymBool(self._f(name, z3.BoolSort()))

    def flag(self, name):
        return cur().decide(self._f(name, z3.BoolSort()))

    def choice(self, name, options):
        v = self._f(name, z3.IntSort())
        cur().fact(z3.And(v >= 0, v < len(options)))
        for j in range(len(options) - 1):
            if cur().decide(v == j):
                return options[j]
        return options[-1]

    def enum(self, name, members):
        members = list(members)
        v = self._f(name, z3.IntSort())
        cur().fact(z3.And(v >= 0, v < len(members)))
        return SymEnum(v, type(members[0]), members)

    def index(self):
        return SymNum(self.i)

    def name(self, name):
        return SymName(self._f(name, cur().name_const("x").sort()))

    def int_or_inf(self, name, lo=None):
        if self.flag(name + ".inf"):
            return en.INF if hasattr(en, "INF") else float("inf")
        return self.int(name, lo)


def member(v, members):
    """index of an enum member among members, or None"""
    if isinstance(v, SymEnum):
        return v.z if list(v.members) == list(members) else None
    return z3.IntVal(members.index(v)) if v in members else None


class Fold:
    """acc_0 = init, acc_{i+1} = step(acc_i, element_i); a value or a dict of values.
    A value is a number, a truth value, or (where init says so) None / an infinity at first."""

    def __init__(self, seq, name, init, step, monotone=False, inv=None, ints=False):
        self.ints = ints
        self.seq, self.name, self.init, self.step, self.inv = seq, name, init, step, None
        self.rec = isinstance(init, dict)
        self.keys = sorted(init) if self.rec else [""]
        self.monotone = monotone
        self.memo = {}
        self.derived = []
        e = cur()
        for k in self.keys:
            v = init[k] if self.rec else init
            self._set(k, z3.IntVal(0), v)
        if inv is not None:
            # the lemma inv(acc_i), by induction
            e.prove("lemma on the specification: start", inv(init))
            self.inv = inv
            if e.choose(2) == 0:
                i = z3.Int(e.fresh("$i:" + seq.name))
                e.fact(z3.And(i >= 0, i < seq.n.z))
                e.prove("lemma on the specification: step", inv(step(self.at(i), seq.base.at(i))))
                raise PathAbort()

    def _get0(self, k):
        return self.init[k] if self.rec else self.init

    def enum(self, k):
        """members, for a fold whose value is an enum member"""
        v = self._get0(k)
        return list(type(v)) if isinstance(v, enum.Enum) else None

    def sort(self, k):
        v = self._get0(k)
        if isinstance(v, enum.Enum):
            return z3.IntSort()
        return z3.BoolSort() if isinstance(v, (bool, SymBool)) else z3.IntSort() if self.ints else z3.RealSort()

    def fn(self, k):
        return z3.Function("fold:%s.%s.%s" % (self.seq.name, self.name, k), z3.IntSort(), self.sort(k))

    def special(self, k):
        v = self._get0(k)
        return v is None or is_inf(v)

    def tag(self, k):
        return z3.Function("tag:%s.%s.%s" % (self.seq.name, self.name, k), z3.IntSort(), z3.BoolSort())

    def _set(self, k, i, v):
        e = cur()
        if self.special(k):
            sp = (v is None) or is_inf(v)
            if sp and not (v is self._get0(k) or v == self._get0(k)):
                raise Unsupported("fold changes to another special value")
            e.fact(self.tag(k)(i) == z3.BoolVal(bool(sp)))
            if sp:
                return
        if self.enum(k):
            e.fact(self.fn(k)(i) == member(v, self.enum(k)))
        elif self.sort(k) == z3.BoolSort():
            e.fact(self.fn(k)(i) == zb(v))
        else:
            z = zn(v)
            if self.ints and z.sort() != z3.IntSort():
                raise Unsupported("integer fold with a non-integer step")
            e.fact(self.fn(k)(i) == (z if self.ints else toreal(z)))

    def _val(self, k, i):
        if self.special(k) and cur().decide(self.tag(k)(i)):
            return self._get0(k)
        z = self.fn(k)(i)
        if self.enum(k):
            cur().fact(z3.And(z >= 0, z < len(self.enum(k))))
            return SymEnum(z, type(self._get0(k)), self.enum(k))
        return SymBool(z) if self.sort(k) == z3.BoolSort() else SymNum(z, isint=bool(self.ints))

    def at(self, i):
        key = str(z3.simplify(i))
        if key not in self.memo:
            v = {k: self._val(k, i) for k in self.keys}
            self.memo[key] = v if self.rec else v[""]
            if self.inv is not None:
                cur().fact(zb(self.inv(self.memo[key])))
        return self.memo[key]

    def unfold(self, i):
        """states acc_{i+1} (for 0 <= i < n)"""
        a = self.at(i)
        r = self.step(a, self.seq.at(i))
        for k in self.keys:
            v = r[k] if self.rec else r
            self._set(k, i + 1, v)
        nxt = {k: (r[k] if self.rec else r) for k in self.keys}
        self.memo[str(z3.simplify(i + 1))] = nxt if self.rec else nxt[""]
        if self.monotone:
            e = cur()
            e.prove("lemma: %s is monotone" % self.name, z3.Implies(zb(a), zb(r)))
            e.fact(z3.Implies(zb(r), self.fn("")(self.seq.n.z)))

    @property
    def total(self):
        return self.at(self.seq.n.z)

    def derive(self, fn):
        """a value (say, a list of elements) that fn makes of the state, for a local to be equal to"""
        self.derived.append(fn)
        return self

    def views(self):
        return [(self.name + "." + k, lambda i, k=k: (self.at(i)[k] if self.rec else self.at(i))) for k in self.keys] + [
            ("%s!%d" % (self.name, j), lambda i, fn=fn: fn(self.at(i))) for j, fn in enumerate(self.derived)]


NOTHING = type("Nothing", (), {"__repr__": lambda s: "nothing"})()


def And2(c, i):
    return True if c is None else bool(c(i))


class Seq:
    """sequence of arbitrary length; immutable"""
    sym_isa = None

    def __init__(self, name, make, on_step=None, on_exit=None, nonempty=False, wrap=None, base=None, sorted_by=None, cond=None):
        self.base = self if base is None else base
        self.cond = cond        # of the base's elements, those that belong to it
        self.order = sorted_by  # order the elements are indexed in; not known to the code until it sorts
        self.name, self._make = name, make
        self.wrap = wrap
        if base is None:
            self.folds = []
            self.maps = []
            self.elems = {}
            self.keyed = False      # elements are (key, value) pairs of distinct keys
            self.n = SymNum(z3.Int("len:" + name))
            self.cur = self.frame = None
            cur().fact(self.n.z >= (1 if nonempty else 0))
            self.on_step, self.on_exit = on_step, on_exit
        else:
            self.folds, self.elems, self.n, self.maps = base.folds, base.elems, base.n, base.maps

    def map(self, item, keep=None, indexed=False):
        """states a list the code may build: item(element) for the elements with keep(element)"""
        self.maps.append(("m%d" % len(self.maps), item, keep, indexed))

    def _item(self, m, i):
        x = SymNum(i) if m[3] else self.base.at(i)
        if m[2] is not None and not cur().decide(zb(m[2](x))):
            return NOTHING
        return m[1](x)

    def mapped(self, m):
        memo = {}

        def w(i, v):
            key = str(z3.simplify(zn(i)))
            if key not in memo:
                memo[key] = m[1](i if m[3] else v)
            return memo[key]
        cond = self.cond if m[2] is None else (lambda i: And2(self.cond, i) and m[2](SymNum(i) if m[3] else self.base.at(i)))
        return Seq(self.name, None, wrap=w, base=self.base, sorted_by=self.order, cond=cond)

    def fold(self, init, step, monotone=False, inv=None, ints=False):
        f = Fold(self, "f%d" % len(self.folds), init, step, monotone, inv, ints)
        self.folds.append(f)
        return f

    def at(self, i):
        b = self.base
        key = str(z3.simplify(i))
        if key not in b.elems:
            b.elems[key] = b._make(At(b, i))
        v = b.elems[key]
        return self.wrap(SymNum(i), v) if self.wrap else v

    # ---- hooks of the runtime
    tail = ()       # known elements after the unknown number of others

    def append(self, x):
        if not self.own or self.cond is not None or self.order is not None or any(q.cur is not None for q in cur().seqs):
            raise Unsupported("an unbounded sequence grows")
        self.tail += (x,)

    def __add__(self, o):
        if not isinstance(o, (list, tuple)) or self.cond is not None or self.order is not None or getattr(o, "seq", None) is not None:
            raise Unsupported("operation on an unbounded sequence")
        s = self.sym_as(list)
        s.tail += tuple(o)
        return s

    def plain(self):
        if self.tail:
            raise Unsupported("an unbounded sequence that has grown, other than in a loop")

    def sym_len(self):
        if self.cond is not None:
            return Mapped(self, (), lambda *x: x, False).sym_len()
        return self.n + len(self.tail) if self.tail else self.n

    def ready(self):
        self.plain()
        if self.order is not None:
            raise Unsupported("iteration over a sequence that the code has not sorted")

    def view(self, fn):
        """the sequence of fn(element); fn is evaluated once per index"""
        self.plain()
        memo = {}
        old = self.wrap

        def w(i, v):
            key = str(z3.simplify(zn(i)))
            if key not in memo:
                memo[key] = fn(old(i, v) if old else v)
            return memo[key]
        s = Seq(self.name, None, wrap=w, base=self.base, sorted_by=self.order, cond=self.cond)
        return s

    def posing(self, cls):
        """for isinstance, it is a cls"""
        self.__class__ = type("Seq", (Seq,), {"sym_isa": cls})
        return self

    def has(self, i):
        return self.cond is None or cur().decide(zb(self.cond(i)))

    def _sorts(self, key, reverse):
        """a stable sort by what the contract orders the elements by"""
        if self.order is None or reverse or key is None:
            raise Unsupported("sort of an unbounded sequence")
        e = cur()
        k = z3.Int(e.fresh("$s:" + self.name))
        e.assume(SymBool(z3.And(k >= 0, k < self.n.z)))
        if not same(key(self.at(k)), self.order(self.base.at(k))):
            raise Unsupported("an unbounded sequence sorted by something else")
        e.noted("sorted by the specified order")

    def sort(self, key=None, reverse=False):
        self.plain()
        if not self:
            self.order = None
            return
        self._sorts(key, reverse)
        self.order = None

    def sym_sorted(self, key, reverse):
        self.plain()
        if self:
            self._sorts(key, reverse)
        s = Seq(self.name, None, wrap=self.wrap or (lambda i, v: v), base=self.base, cond=self.cond)
        return s

    def sym_loop(self, lid, names, tnames):
        return Cut(self, lid, names, tnames)

    def sym_comp(self, kind, conds, elt, tup):
        if kind not in ("list", "gen"):
            raise Unsupported("%s comprehension over an unbounded sequence" % kind)
        self.plain()
        return Mapped(self, conds, elt, tup)

    def sym_as(self, base):
        s = Seq(self.name, None, wrap=self.wrap, base=self.base, sorted_by=self.order, cond=self.cond)
        s.own = base is list
        s.tail = self.tail
        return s

    own = False     # made by list(): its owner may take elements out

    def sym_contains(self, x):
        from . import rt
        return Mapped(self, (), lambda y: rt.truth(y == x), False)._reduce(
            False, lambda a, v: rt.or_(a, lambda: rt.truth(v), True), "has %r" % (x,))

    def index(self, x):
        self.plain()
        if not self.sym_contains(x):
            raise ValueError("not in list")
        return IndexOf(self, x)

    def remove(self, x):
        del self[self.index(x)]

    def __delitem__(self, i):
        if not isinstance(i, IndexOf) or i.seq is not self or not self.own or not self.base.keyed:
            raise Unsupported("deletion from an unbounded sequence")
        e, x = cur(), i.x
        if any(q.cur is not None for q in e.seqs):
            raise Unsupported("deletion inside an unbounded loop")
        k = z3.Int(e.fresh("$d:" + self.name))
        if self.at(k) is not self.base.at(k)[0]:
            raise Unsupported("deletion from an unbounded sequence that may repeat")
        # the elements are the distinct keys of a mapping: exactly the one equal to x goes
        old = Seq(self.name, None, wrap=self.wrap, base=self.base, sorted_by=self.order, cond=self.cond)
        self.cond = lambda i: And2(old.cond, i) and bool(old.at(i) != x)

    def sym_sum(self, start):
        return Mapped(self, (), lambda *x: x[0] if len(x) == 1 else x, False).sym_sum(start)

    def sym_minmax(self, less, key, default):
        return Mapped(self, (), lambda x: x, False).sym_minmax(less, key, default)

    def sym_enumerate(self, start):
        self.ready()
        if self.wrap or start != 0 or self.cond is not None:
            raise Unsupported("nested views of an unbounded sequence")
        return Seq(self.name, None, wrap=lambda i, v: (i, v), base=self.base)

    def indices(self):
        return Seq(self.name, None, wrap=lambda i, v: i, base=self.base)

    def __getitem__(self, i):
        self.ready()
        if isinstance(i, slice) or self.cond is not None:
            raise Unsupported("slice of an unbounded sequence")
        z = zn(i)
        e = cur()
        if e.decide(z < 0):
            z = z + self.n.z
        if not e.decide(z3.And(z >= 0, z < self.n.z)):
            raise IndexError("sequence index out of range")
        return self.at(z)

    def __bool__(self):
        if self.tail:
            return True
        if self.cond is not None:
            return bool(self.sym_len() > 0)
        return cur().decide(self.n.z > 0)

    def __deepcopy__(self, m):
        if self.order is not None:      # the copy may be sorted
            return Seq(self.name, None, wrap=self.wrap, base=self.base, sorted_by=self.order, cond=self.cond)
        return self

    __copy__ = lambda self: self

    def _no(self, *a, **k):
        raise Unsupported("operation on an unbounded sequence")

    __iter__ = __len__ = __contains__ = __radd__ = __mul__ = __eq__ = __reversed__ = __setitem__ = _no
    __hash__ = None

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("operation %s on an unbounded sequence" % n)


class IndexOf:
    """seq.index(x)"""

    def __init__(self, seq, x):
        self.seq, self.x = seq, x

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("position in an unbounded sequence")


def Range(name, lo, hi, step, **k):
    """range(lo, hi, step) of symbolic bounds, constant positive step"""
    lo, hi = norm(lo), norm(hi)
    if is_inf(hi):
        raise Unsupported("endless range")
    def whole(v):
        if zn(v).sort() == z3.IntSort():
            return zn(v)
        if not (isinstance(v, SymNum) and v.isint):
            raise Unsupported("range over non-integers")
        i = z3.Int(cur().fresh("$i"))       # the integer that v is
        cur().fact(z3.ToReal(i) == v.z)
        return i
    lo, hi = whole(lo), whole(hi)
    s = Seq(name, lambda at: SymNum(lo + step * at.i), **k)
    n, d = s.n.z, hi - lo
    cur().fact(z3.If(d > 0, z3.And(step * (n - 1) < d, d <= step * n), n == 0))
    return s


def Dict(name, make, **k):
    """mapping of arbitrary size, iterated only: items are (key, value) as made"""
    s = Seq(name, make, **k)
    return DictView(s)


class DictView:
    """the mapping; a loop over it may read, replace or delete the entry it is at"""
    sym_isa = dict

    def __init__(self, s):
        self.seq = s
        s.keyed = True
        self.writes = []     # (key, new value or GONE) of the iteration under way
        self.dirty = False
        cur().__dict__.setdefault("dicts", []).append(self)

    def _ok(self):
        if self.dirty:
            raise Unsupported("a mapping is read after a loop that changed it")

    def items(self):
        self._ok()
        return self.seq.view(lambda p: p)

    def keys(self):
        self._ok()
        return Seq(self.seq.name, None, wrap=lambda i, v: v[0], base=self.seq.base)

    def values(self):
        self._ok()
        return Seq(self.seq.name, None, wrap=lambda i, v: v[1], base=self.seq.base)

    def sym_loop(self, lid, names, tnames):
        return self.keys().sym_loop(lid, names, tnames)

    def sym_as(self, base):
        if base is dict:
            raise Unsupported("copy of an unbounded mapping")
        return self.keys()

    def sym_len(self):
        self._ok()
        return self.seq.n

    def __bool__(self):
        self._ok()
        return bool(self.seq)

    def __deepcopy__(self, m):
        return self

    def _here(self, k):
        b = self.seq.base
        return b.cur is not None and b.at(b.cur)[0] is k

    def __getitem__(self, k):
        self._ok()
        if self._here(k):
            if self.writes:
                if self.writes[-1][1] is GONE:
                    raise KeyError(k)
                return self.writes[-1][1]
            return self.seq.base.at(self.seq.base.cur)[1]
        for key, v in self.seq.elems.values():
            if key is k and self.seq.base.cur is None:
                return v
        raise Unsupported("lookup in an unbounded mapping")

    def __contains__(self, k):
        self._ok()
        if self._here(k):
            return not (self.writes and self.writes[-1][1] is GONE)
        raise Unsupported("lookup in an unbounded mapping")

    def get(self, k, d=None):
        return self[k] if k in self else d

    def _write(self, k, v):
        self._ok()
        if not self._here(k):
            raise Unsupported("a write to an unbounded mapping")
        w = cur().loops.setdefault(("writes", self.seq.name), LoopState())
        lid = self.seq.base.lid
        if lid not in w.logs:
            w.newlogs.add(lid)
            cur().restart_needed = True
        self.writes.append((k, v))

    @property
    def writing(self):
        """the loop under way is one that writes"""
        w = cur().loops.get(("writes", self.seq.name))
        return w is not None and self.seq.base.lid in w.logs

    @property
    def writers(self):
        w = cur().loops.get(("writes", self.seq.name))
        return 0 if w is None else len(w.logs)

    def __setitem__(self, k, v):
        self._write(k, v)

    def __delitem__(self, k):
        if k not in self:
            raise KeyError(k)
        self._write(k, GONE)

    def pop(self, k, *d):
        if k not in self:
            if d:
                return d[0]
            raise KeyError(k)
        v = self[k]
        self._write(k, GONE)
        return v

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("operation %s on an unbounded mapping" % n)

    def _no(self, *a, **k):
        raise Unsupported("operation on an unbounded mapping")

    __iter__ = __len__ = __eq__ = _no
    __hash__ = None


GONE = type("Gone", (), {"__repr__": lambda s: "gone"})()


class Joined:
    """sep.join(...) of a sequence of arbitrary length"""

    def __init__(self, sep, seq):
        self.sep, self.seq = sep, seq


class Mapped:
    """[elt(x) for x in seq if conds(x)], only reduced"""

    def __init__(self, seq, conds, elt, tup):
        self.seq, self.conds, self.elt, self.tup = seq, conds, elt, tup

    def _fresh(self):
        e = cur()
        k = z3.Int(e.fresh("$k:" + self.seq.name))
        e.assume(SymBool(z3.And(k >= 0, k < self.seq.n.z)))
        return k

    def _eval(self, k):
        if not self.seq.has(k):
            return False, None
        x = self.seq.at(k)
        args = tuple(x) if self.tup else (x,)
        for c in self.conds:
            if not c(*args):
                return False, None
        return True, self.elt(*args)

    def _reduce(self, init, op, what, prefixes=False, tag=""):
        """the fold this reduction equals, proved by induction on the spot (with prefixes: as a
        function of the number of elements taken)"""
        e = cur()
        self.seq.ready()
        st = e.loops.setdefault(("red", self.seq.name, what, e.fresh("red:%s:%s%s" % (self.seq.name, self._site(), tag))), LoopState())
        views = [(nm, g) for f in self.seq.folds for nm, g in f.views() if "!" not in nm]
        if not st.cands:
            st.cands["r"] = {nm for nm, _ in views}
        use = [(nm, g) for nm, g in views if nm in st.cands["r"]]
        for nm, g in use:
            if not same(g(z3.IntVal(0)), init):
                st.drop.add(("r", nm))
                e.restart_needed = True
            else:
                e.noted("reduction starts at the fold's start")
        if not use:
            raise Unsupported("no fold matches the reduction")
        if e.choose(2) == 0:
            k = self._fresh()
            acc = use[0][1](k)
            for nm, g in use[1:]:
                tie(acc, g(k))
            ok, x = self._eval(k)
            for f in self.seq.folds:
                f.unfold(k)
            r = op(acc, x) if ok else acc
            for nm, g in use:
                if not same(g(k + 1), r):
                    st.drop.add(("r", nm))
                    e.restart_needed = True
                else:
                    e.noted("reduction step equals the fold's")
            raise PathAbort()

        def value(n):
            v = use[0][1](n)
            for nm, g in use[1:]:
                tie(v, g(n))
            return v
        return value if prefixes else value(self.seq.n.z)

    def _site(self):
        import sys
        f = sys._getframe(3)
        return "%s:%d" % (f.f_code.co_name, f.f_lineno)

    def sym_sum(self, start):
        return self._reduce(start, lambda a, x: a + x, "sum")

    def sym_any(self):
        from . import rt
        return self._reduce(False, lambda a, x: rt.or_(a, lambda: rt.truth(x), True), "any")

    def sym_all(self):
        from . import rt
        return self._reduce(True, lambda a, x: rt.and_(a, lambda: rt.truth(x), True), "all")

    def sym_minmax(self, less, key, default):
        from . import rt
        if key is not None:
            raise Unsupported("min/max with key over an unbounded sequence")
        v = self._reduce(None, lambda a, x: x if a is None else (rt.min_(a, x) if less else rt.max_(a, x)), "minmax%d" % less)
        if v is None:
            # the fold's None stands for "no element so far": with no condition, for an empty sequence
            total = not self.conds and self.seq.cond is None
            if total:
                cur().assume(SymBool(self.seq.n.z == 0))
            if default is rt._NO:
                if not total and cur().dead():
                    raise PathAbort()   # something is known to satisfy the condition
                raise ValueError("empty")
            return default
        return v

    def sym_as(self, base):
        return self

    def sym_len(self):
        if not self.conds and self.seq.cond is None:
            return self.seq.sym_len()
        return self._reduce(0, lambda a, x: a + 1, "len")

    def as_seq(self):
        """the comprehension as a sequence; its parts are evaluated when an element is looked at"""
        s, memo = self.seq, {}

        def args(i):
            x = s.at(i)
            return tuple(x) if self.tup else (x,)

        def w(i, v):
            key = str(z3.simplify(zn(i)))
            if key not in memo:
                memo[key] = self.elt(*args(zn(i)))
            return memo[key]

        def c(i):
            return And2(s.cond, i) and all(bool(q(*args(i))) for q in self.conds)
        return Seq(s.name, None, wrap=w, base=s.base, sorted_by=s.order, cond=c if self.conds or s.cond else None)

    def sym_loop(self, lid, names, tnames):
        return self.as_seq().sym_loop(lid, names, tnames)

    def sym_comp(self, kind, conds, elt, tup):
        return self.as_seq().sym_comp(kind, conds, elt, tup)

    def sym_sorted(self, key, reverse):
        return self.as_seq().sym_sorted(key, reverse)

    def sym_enumerate(self, start):
        return self.as_seq().sym_enumerate(start)

    def __getitem__(self, i):
        return self.as_seq()[i]

    def __bool__(self):
        return bool(self.as_seq())

    def _no(self, *a, **k):
        raise Unsupported("operation on a comprehension over an unbounded sequence")

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("operation %s on a comprehension over an unbounded sequence" % n)

    __iter__ = __len__ = __contains__ = __add__ = __eq__ = _no
    __hash__ = None


def same_item(a, b, rec=True):
    """structural equality of list items, entailed on this path"""
    a, b = norm(a), norm(b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same_item(x, y, rec) for x, y in zip(a, b))
    if a is b or same(a, b, rec):
        return True
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return False


def same(a, b, rec=True):
    """a == b on this path (entailed); special values compared as such.  Where the answer decides
    how the path goes on it is recorded (rec) so that re-executions agree."""
    ent = cur().entails if rec else cur().holds
    a, b = norm(a), norm(b)
    if a is b:
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        return False
    sa = a is None or is_inf(a)
    sb = b is None or is_inf(b)
    if sa or sb:
        return sa and sb and a == b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SymEnum):
            if not isinstance(y, (SymEnum, enum.Enum)):
                return False
            z = member(y, x.members)
            return z is not None and ent(x.z == z)
    isb = lambda v: isinstance(v, (bool, SymBool))
    if isb(a) != isb(b):
        return False
    if isb(a):
        return ent(zb(a) == zb(b))
    if not (is_num(a) and is_num(b)):
        return False
    return ent(toreal(zn(a)) == toreal(zn(b)))


def typed(v, ty):
    if isinstance(v, (bool, SymBool)):
        return ty == "#bool"
    if ty == "#bool" or is_inf(v) or not is_num(v):
        return False
    return ty == "#num" or isinstance(v, int) or (isinstance(v, SymNum) and v.isint)


def tie(a, b):
    sa = a is None or is_inf(a)
    sb = b is None or is_inf(b)
    if sa or sb:
        if not (sa and sb and a == b):
            raise PathAbort()
        return
    if isinstance(a, SymEnum) and isinstance(b, SymEnum):
        cur().fact(a.z == b.z)
        return
    if isinstance(a, (SymEnum, enum.Enum)) or isinstance(b, (SymEnum, enum.Enum)):
        raise Unsupported("a value that equals two folds of different kinds")
    if isinstance(a, (bool, SymBool)) != isinstance(b, (bool, SymBool)):
        raise PathAbort()
    cur().fact(zb(a) == zb(b) if isinstance(a, (bool, SymBool)) else toreal(zn(a)) == toreal(zn(b)))


# ------------------------------------------------------------------ heap
ATOMS = (str, bytes, int, float, complex, bool, type(None), type, types.ModuleType, types.FunctionType,
         types.BuiltinFunctionType, types.MethodType, SymNum, SymBool, SymEnum, SymName, Seq, DictView, Mapped, Poison)


def _kids(o):
    if isinstance(o, list):
        return list(enumerate(list.__iter__(o)))
    if isinstance(o, tuple):
        return list(enumerate(o))
    if isinstance(o, dict):
        return list(dict.items(o))
    if isinstance(o, (set, frozenset)):
        return [(x, x) for x in o]
    if type(o).__name__ == "ndarray":
        return list(enumerate(o.ravel().tolist()))
    d = getattr(o, "__dict__", None)
    out = list(d.items()) if isinstance(d, dict) else []
    for c in type(o).__mro__:
        for s in getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str) else ():
            try:
                out.append((s, getattr(o, s)))
            except AttributeError:
                pass
    return out


def _atom(v):
    if type(v).__name__ in ("ndarray", "VList"):
        return False
    if type(v).__name__ == "VArr":
        return True
    return isinstance(v, ATOMS) or type(v).__module__.startswith(("z3", "enum", "vc.", "numpy")) or getattr(type(v), "_vc_spec_", False)


def _key(v):
    if isinstance(v, (SymNum, SymBool)):
        return ("z", v.z.get_id())
    if isinstance(v, (str, int, float, bool)):
        return (type(v).__name__, v)
    return ("id", id(v))


def snapshot(loc, skip):
    """id -> (object, access path, shallow content) of everything reachable from the frame"""
    out = {}
    todo = [((n,), v) for n, v in loc.items() if n not in skip and not n.startswith("_vc_")]
    while todo:
        path, o = todo.pop()
        if _atom(o) or id(o) in out or len(path) > 12:
            continue
        ks = _kids(o)
        out[id(o)] = (o, path, [(_key(k) if not isinstance(k, str) else k, _key(v)) for k, v in ks], [v for _, v in ks])
        if len(out) > 20000:
            raise Unsupported("heap too large")
        for k, v in ks:
            todo.append((path + (str(k),), v))
    return out


def changes(snap):
    """-> logs {path: new items}; raises when anything else changed"""
    logs = {}
    for o, path, was, keep in snap.values():
        ks = _kids(o)
        now = [(_key(k) if not isinstance(k, str) else k, _key(v)) for k, v in ks]
        if now == was:
            continue
        if isinstance(o, list) and now[: len(was)] == was:
            logs[path] = [v for _, v in ks[len(was):]]
            continue
        raise Unsupported("the loop changes %s" % ".".join(path))
    return logs


class Cut:
    def __init__(self, seq, lid, names, tnames):
        self.seq, self.lid = seq, lid
        self.names = [n for n in names if n not in tnames]
        self.tnames = tnames
        self.phase = 0

    def views(self):
        return [("@", lambda i: SymNum(i))] + [(nm, g) for f in self.seq.folds for nm, g in f.views()]

    def havoc(self, L, loc, i):
        e = cur()
        hav = {}
        views = dict(self.views())
        for n in self.names:
            cs = sorted(c for c in self.st.cands.get(n, ()) if c[0] != "#")
            if "#const" in self.st.cands.get(n, ()) and "@" not in cs:
                hav[n] = self.entry[n]
                continue
            if not cs:
                ty = [c for c in ("#bool", "#int", "#num") if c in self.st.cands.get(n, ())]
                hav[n] = POISON if not ty else (
                    SymBool(z3.Bool(e.fresh("$h:" + n))) if ty[0] == "#bool" else
                    SymNum(z3.Int(e.fresh("$h:" + n))) if ty[0] == "#int" else SymNum(z3.Real(e.fresh("$h:" + n)), isint=False))
                continue
            v = views[cs[0]](i)
            for c in cs[1:]:
                if "!" not in c and "!" not in cs[0]:
                    tie(v, views[c](i))
            hav[n] = v
        for c in sorted(self.st.frozen):
            tie(views[c](i), views[c](z3.IntVal(0)))
        L.hav = hav

    def more(self, L, loc):
        e = cur()
        b = self.seq.base
        if self.phase == 0:
            f = sys._getframe(2)        # the function with the loop
            if b.cur is not None and b.frame is not None:
                g = f
                while g is not None and g is not b.frame:
                    g = g.f_back
                if g is None:
                    b.cur = None        # that loop was left by return
            if b.cur is not None:
                raise Unsupported("nested loops over one sequence")
            b.frame = f
            views = self.views()
            if self.seq.order is not None:
                views = []      # in an order that is not known: only what holds of each element alone
            self.entry = dict(loc)
            st = self.st = e.loops.setdefault((self.lid, e.fresh("cut:" + self.seq.name)), LoopState())
            for n in self.names:
                if n not in st.cands:
                    st.cands[n] = ({nm for nm, _ in views} | {"#const", "#bool", "#int", "#num"}) if n in loc else set()
            if st.frozen is None:
                st.frozen = {nm for nm, _ in views if "!" not in nm and nm != "@"}
            at0 = {nm: g(z3.IntVal(0)) for nm, g in views}
            for n in self.names:
                for ty in ("#bool", "#int", "#num"):
                    if ty in st.cands[n] and not typed(loc.get(n, POISON), ty):
                        st.drop.add((n, ty))
                        e.restart_needed = True
                for nm, g in views:
                    if nm not in st.cands[n] or (n, nm) in st.drop:
                        continue
                    if not (same_item if "!" in nm else same)(loc.get(n, POISON), at0[nm], False):
                        st.drop.add((n, nm))
                        e.restart_needed = True
                    else:
                        e.noted("loop invariant holds at entry")
            if e.choose(2) == 0:
                k = self.k = z3.Int(e.fresh("$k:" + self.seq.name))
                e.assume(SymBool(z3.And(k >= 0, k < self.seq.n.z)))
                b.cur, b.lid = k, self.lid
                self.havoc(L, loc, k)
                self._logs(loc)
                if self.seq.order is None:
                    for f in self.seq.folds:
                        f.unfold(k)
                if not self.seq.has(k):
                    self.snap = {}
                    loc2 = dict(loc)
                    loc2.update(L.hav)
                    self.step(loc2)
                L.item = self.seq.at(k)
                loc2 = dict(loc)
                loc2.update(L.hav)
                self.snap = snapshot(loc2, set(self.names) | set(self.tnames))
                self.phase = 1
                return True
            self.havoc(L, loc, self.seq.n.z)
            self._logs(loc, True)
            for n in self.tnames:
                L.hav[n] = POISON
            self.phase = 2
            for d in e.__dict__.get("dicts", ()):
                w = e.loops.get(("writes", d.seq.name))
                if w is not None and self.lid in w.logs:
                    d.dirty = True
            if b.on_exit is not None:
                b.on_exit(loc)
            self.rest = list(self.seq.tail)
        elif self.phase == 2:
            L.hav = {}
        if self.phase == 2:
            if self.rest:
                L.item = self.rest.pop(0)
                return True
            return False
        self.step(loc)

    def left(self):
        """the loop is over; by break, in phase 1"""
        if self.phase == 1:
            self.seq.base.cur = None
            self.phase = 3

    def step(self, loc):
        """one arbitrary iteration has been executed"""
        e, b = cur(), self.seq.base
        k = self.k
        views = dict(self.views()) if self.seq.order is None else {}
        nxt = {nm: g(k + 1) for nm, g in views.items()}
        at0 = {nm: g(z3.IntVal(0)) for nm, g in views.items()}
        for n in self.names:
            for nm in sorted(self.st.cands[n]):
                if (n, nm) in self.st.drop:
                    continue
                if nm[0] == "#":
                    if not (typed(loc.get(n, POISON), nm) if nm != "#const" else same_item(loc.get(n, POISON), self.entry[n], False)):
                        self.st.drop.add((n, nm))
                        e.restart_needed = True
                    continue
                if not (same_item if "!" in nm else same)(loc.get(n, POISON), nxt[nm], False):
                    self.st.drop.add((n, nm))
                    e.restart_needed = True
                else:
                    e.noted("loop invariant preserved by the body")
        for nm in sorted(self.st.frozen):
            if nm in self.st.fdrop:
                continue
            if not same(nxt[nm], at0[nm], False):
                self.st.fdrop.add(nm)
                e.restart_needed = True
        logs = changes(self.snap)
        for p in logs:
            if p not in self.st.logs:
                self.st.newlogs.add(p)
                e.restart_needed = True
        for p, ms in self.st.maps.items():
            new = logs.get(p, [])
            for m in [m for m in b.maps if m[0] in ms]:
                want = self.seq._item(m, k) if self.seq.has(k) else NOTHING
                if new == [] if want is NOTHING else (len(new) == 1 and same_item(new[0], want, False)):
                    e.noted("list filled as specified")
                else:
                    self.st.mdrop.add((p, m[0]))
                    e.restart_needed = True
        logs = {p: x for p, x in logs.items() if not self.st.maps.get(p)}
        if b.on_step is not None and not e.restart_needed:
            b.on_step(SymNum(k), logs)
        elif logs and b.on_step is None:
            raise Unsupported("the loop fills a list the contract does not specify")
        b.cur = None
        raise PathAbort()

    def _logs(self, loc, done=False):
        """lists known to grow hold an unknown prefix from here on"""
        for p in self.st.logs:
            o = loc.get(p[0])
            try:
                for k in p[1:]:
                    o = dict.get(o, k) if isinstance(o, dict) else (o[int(k)] if isinstance(o, (list, tuple)) else getattr(o, k))
            except Exception:
                raise Unsupported("log not found")
            maps = getattr(getattr(self, "seq", None), "base", None)
            maps = maps.maps if maps is not None else []
            if p not in self.st.maps:
                ok = maps and len(o) == 0 and type(o).__name__ == "VList" and o.seq is None
                self.st.maps[p] = {m[0] for m in maps if (not m[3] or self.seq.order is None) and (m[2] is None or o.slots is None)} if ok else set()
            ms = [m for m in maps if m[0] in self.st.maps[p]]
            if done and ms and type(o).__name__ == "VList":
                list.__setitem__(o, slice(None), [Chunk()])
                o.seq = self.seq.mapped(ms[0])
                continue
            list.__setitem__(o, slice(None), [Chunk(), Chunk()])


def prune(loops):
    for st in loops.values():
        if not isinstance(st, LoopState):
            continue
        for n, nm in st.drop:
            st.cands.get(n, set()).discard(nm)
        st.drop = type(st.drop)()
        if st.frozen is not None:
            st.frozen -= st.fdrop
        st.fdrop = set()
        st.logs |= st.newlogs
        st.newlogs = set()
        for p, m in st.mdrop:
            st.maps.get(p, set()).discard(m)
        st.mdrop = set()


# ------------------------------------------------------------------ queues
class Queue:
    """stands for an event queue with arbitrary contents; only what its contract promises is
    available: is_empty, get_next (an arbitrary event) and add (recorded)"""

    def __init__(self, name, make, on_step=None):
        self.name, self.make, self.on_step = name, make, on_step
        self.state = "any"       # any | some (known non-empty) | drained
        self.popped, self.added = [], []
        self.cut = False

    def is_empty(self):
        e = cur()
        if self.make is None:
            return len(self.added) == 0
        if self.state == "drained":
            return True
        if self.state == "some":
            return False
        if not self.cut:
            if e.cur_while is None:
                raise Unsupported("queue consumed outside a while loop")
            e.loops.setdefault(("while", e.cur_while), set()).add(self.name)
            e.restart_needed = True
            raise PathAbort()
        if e.choose(2) == 0:
            self.state = "some"
            return False
        self.state = "drained"
        return True

    def __len__(self):
        raise Unsupported("len of an abstract queue")

    def __deepcopy__(self, m):
        raise Unsupported("copy of an abstract queue")

    def get_next(self):
        e = cur()
        if self.state != "some" or self.make is None:
            raise Unsupported("get_next of a queue not known to be non-empty")
        self.state = "any"
        i = z3.Int(e.fresh("$e:" + self.name))
        ev = self.make(At(self, i))
        self.popped.append(ev)
        return ev

    def add(self, *a, **k):
        self.added.append((a, k))

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("operation %s on an abstract queue" % n)


class QueueCut:
    """cut of the while loop that consumes queues: one arbitrary iteration from an arbitrary state"""

    def __init__(self, lid, names, queues):
        self.lid, self.names, self.queues = lid, names, queues
        self.phase = 0

    def head(self, L, loc):
        e = cur()
        if self.phase == 0:
            self.st = e.loops.setdefault((self.lid, e.fresh("cut:" + self.lid)), LoopState())
            L.hav = {n: POISON for n in self.names}
            for q in self.queues:
                q.cut = True
                if q.state != "any":
                    raise Unsupported("queue in use")
            Cut._logs(self, loc)
            loc2 = dict(loc)
            loc2.update(L.hav)
            for q in e.queues:
                q.mark = (len(q.popped), len(q.added))
            self.snap = snapshot(loc2, set(self.names))
            self.phase = 1
            return
        logs = changes(self.snap)
        for p in logs:
            if p not in self.st.logs:
                self.st.newlogs.add(p)
                e.restart_needed = True
        if not e.restart_needed:
            q = self.queues[0]
            if q.on_step is None:
                raise Unsupported("a loop the contract does not specify")
            q.on_step(q.popped[q.mark[0]:], logs)
        raise PathAbort()


    def done(self):
        pass


class WhileCut(Cut):
    """cut of a while loop whose iterations are the elements of a sequence of the contract: the k-th
    happens iff guard(k) and the ones before did, so the sequence's length is the number of iterations"""

    def __init__(self, seq, guard, lid, names):
        Cut.__init__(self, seq, lid, names, [])
        self.guard = guard

    def head(self, L, loc):
        ph = self.phase
        if ph == 2:
            raise Unsupported("the loop goes on for longer than specified")
        self.more(L, loc)
        if ph == 0:
            self.seq.base.frame = sys._getframe(2)
        if self.phase == 1:
            cur().assume(self.guard(SymNum(self.k)))
        elif self.phase == 2:
            cur().assume(SymBool(z3.Not(zb(self.guard(self.seq.n)))))

    def done(self):
        if self.phase == 1:
            raise Unsupported("the loop ends earlier than specified")


def mark_while(seq, guard):
    """called by a contract's stand-in from within the loop it specifies"""
    e = cur()
    f = sys._getframe(1)
    while f is not None:
        ws = [w for n, w in f.f_locals.items() if n.startswith("_vc_W") and w.active]
        if ws:
            w = ws[-1]
            if isinstance(w.cut, WhileCut) and w.cut.seq is seq:
                return
            e.__dict__.setdefault("ghosts", {})[seq.name] = (seq, guard)
            if e.loops.get(("ghost", w.lid)) == seq.name:
                raise Unsupported("loop not cut")
            e.loops[("ghost", w.lid)] = seq.name
            e.restart_needed = True
            raise PathAbort()
        f = f.f_back


def ghost_while(lid, names):
    e = cur()
    nm = e.loops.get(("ghost", lid))
    g = e.__dict__.get("ghosts", {}).get(nm)
    return WhileCut(g[0], g[1], lid, names) if g else None


def queue_while(lid, names):
    e = cur()
    marked = e.loops.get(("while", lid))
    if marked:
        qs = [q for q in e.queues if q.name in marked]
        if qs:
            return QueueCut(lid, names, qs)
    return None
