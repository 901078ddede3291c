"""Runtime of the instrumented code."""
import builtins
import math
import types

import numpy as _np
import z3

from . import engine as en
from .engine import SymBool, SymNum, SymEnum, SymName, mkbool, mknum2, zn, both, PathAbort, Unsupported, BoundExceeded, cur, norm, is_inf

_isinstance = builtins.isinstance
SymTypes = (SymBool, SymNum, SymEnum, SymName)


def is_bool(v):
    return _isinstance(v, (bool, SymBool, _np.bool_))


def is_sym(v):
    return _isinstance(v, SymTypes)


def truth(v):
    """SymBool or bool for any value"""
    if _isinstance(v, SymBool):
        return v
    if _isinstance(v, SymNum):
        return v != 0
    return bool(v)


def not_(v):
    if _isinstance(v, SymBool):
        return ~v
    if _isinstance(v, SymNum):
        return v == 0
    return not v


def and_(a, fb, pure):
    if _isinstance(a, SymBool):
        if pure:
            e = cur()
            mark = e.pos
            try:
                b = fb()
            except Exception:
                b = None
                if e.pos != mark:
                    # a decision was taken while evaluating: keep going on this path
                    pass
            if is_bool(b):
                return a & b if _isinstance(b, SymBool) else (a if b else False)
        if not a:
            return False
        return fb()
    if _isinstance(a, SymNum):
        if a != 0:
            return fb()
        return a
    return a and fb()


def or_(a, fb, pure):
    if _isinstance(a, SymBool):
        if pure:
            try:
                b = fb()
            except Exception:
                b = None
            if is_bool(b):
                return a | b if _isinstance(b, SymBool) else (True if b else a)
        if a:
            return True
        return fb()
    if _isinstance(a, SymNum):
        if a != 0:
            return a
        return fb()
    return a or fb()


def _mergeable(v):
    return _isinstance(v, (int, float, SymNum, SymBool, bool)) and not is_inf(v)


def ite(c, a, b):
    """merged conditional; c SymBool; a,b mergeable"""
    if is_bool(a) and is_bool(b):
        return mkbool(z3.If(c.z, en.zb(a), en.zb(b)))
    za, zb_ = both(zn(a), zn(b))
    ii = all((_isinstance(x, int) and not _isinstance(x, float)) or (_isinstance(x, SymNum) and x.isint) for x in (a, b))
    return mknum2(z3.If(c.z, za, zb_), ii)


def ifexp(c, fa, fb, pure):
    c = truth(c)
    if _isinstance(c, SymBool):
        if pure:
            try:
                a, b = norm(fa()), norm(fb())
            except Exception:
                a = b = None
            if _mergeable(a) and _mergeable(b) and is_bool(a) == is_bool(b):
                return ite(c, a, b)
        return fa() if c else fb()
    return fa() if c else fb()


def is_(a, b):
    if type(a).__name__ in ("Poison", "Chunk") or type(b).__name__ in ("Poison", "Chunk"):
        raise Unsupported("use of a loop-modified variable without invariant")
    if _isinstance(a, SymEnum):
        return a.is_(b)
    if _isinstance(b, SymEnum):
        return b.is_(a)
    if _isinstance(a, SymBool) and is_bool(b):
        return a == b
    if _isinstance(b, SymBool) and is_bool(a):
        return b == a
    return a is b


def in_(a, b):
    b = filled(b)
    if hasattr(type(b), "sym_contains"):
        return b.sym_contains(a)
    if is_sym(a):
        if _isinstance(b, (tuple, list, set, frozenset)) or type(b).__name__ in ("dict_keys", "dict", "dict_values"):
            r = False
            for x in b:
                q = (a == x)
                if q is True:
                    return True
                if _isinstance(q, SymBool):
                    r = q if r is False else (r | q)
                    if r is True:
                        return True
            return r
    elif _isinstance(b, (tuple, list)) and any(is_sym(x) for x in b):
        r = False
        for x in b:
            q = (x == a)
            if q is True:
                return True
            if _isinstance(q, SymBool):
                r = q if r is False else (r | q)
                if r is True:
                    return True
        return r
    return a in b


# ------------------------------------------------------------------ loops
class For:
    """loop driver; concrete iterables run natively"""

    def __init__(self, it, lid, names, tnames):
        self.hav = {}
        self.item = None
        self.lid = lid
        self.cut = None
        it = filled(it)
        h = getattr(type(it), "sym_loop", None)
        if h is not None and en.E is not None:
            self.cut = h(it, lid, names, tnames)
            if self.cut is not None:
                return
        self.it = iter(it)

    def more(self, loc):
        if self.cut is not None:
            return self.cut.more(self, loc)
        try:
            self.item = next(self.it)
            return True
        except StopIteration:
            return False


    def done(self):
        if self.cut is not None:
            self.cut.left()


def for_loop(it, lid, names, tnames):
    return For(it, lid, names, tnames)


class While:
    def __init__(self, lid, names):
        self.hav = {}
        self.lid = lid
        self.n = 0
        self.cut = None
        self.active = False
        if en.E is not None:
            from . import loops
            if en.E.queues:
                self.cut = loops.queue_while(lid, names)
            if self.cut is None:
                self.cut = loops.ghost_while(lid, names)

    def done(self):
        self.active = False
        if self.cut is not None:
            self.cut.done()

    def head(self, loc):
        self.active = True
        if en.E is not None:
            en.E.cur_while = self.lid
        if self.cut is not None:
            return self.cut.head(self, loc)
        self.n += 1
        if en.E is not None and self.n > en.E.max_iter:
            raise BoundExceeded("more than %d iterations of %s" % (en.E.max_iter, self.lid))


def while_loop(lid, names):
    return While(lid, names)


def freeze(f):
    """f with the values its free variables have now: a list comprehension is evaluated when it is
    met, while the elements of one over a sequence of any length are only evaluated when used"""
    import types
    if isinstance(f, (tuple, list)):
        return type(f)(freeze(g) for g in f)
    if not isinstance(f, types.FunctionType) or not f.__closure__:
        return f
    cells = []
    for c in f.__closure__:
        try:
            cells.append(types.CellType(c.cell_contents))
        except ValueError:
            cells.append(c)
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))
    g.__kwdefaults__ = f.__kwdefaults__
    return g


def comp(kind, it, conds, elt, tup):
    it = filled(it)
    h = getattr(type(it), "sym_comp", None)
    if h is not None and en.E is not None:
        if kind != "gen":
            conds, elt = freeze(conds), freeze(elt)
        return h(it, kind, conds, elt, tup)

    def gen():
        for x in it:
            args = tuple(x) if tup else (x,)
            ok = True
            for c in conds:
                if not c(*args):
                    ok = False
                    break
            if ok:
                if kind == "dict":
                    yield elt[0](*args), elt[1](*args)
                else:
                    yield elt(*args)
    if kind == "gen":
        return gen()
    if kind == "list":
        return VList(gen())
    if kind == "set":
        return {x for x in gen()}
    return {k: v for k, v in gen()}


# ------------------------------------------------------------------ lists
class VList(builtins.list):
    """a list made by the code; after a cut loop that filled it, it may stand for a sequence of
    arbitrary length (seq) or hold an unknown part (Chunk)"""
    seq = None
    slots = None    # [x] * n for the length n of that sequence: to be filled index by index

    def __mul__(self, n):
        from . import arrays
        if self.seq is None and self.slots is None and arrays.is_dim(n) and builtins.list.__len__(self) == 1:
            for q in cur().seqs:
                if q.n.z.eq(n.z):
                    r = VList()
                    r.slots = q.base
                    return r
        if self.seq is not None or self.slots is not None or self._unknown():
            raise Unsupported("repetition of a list filled by an unbounded loop")
        return VList(builtins.list.__mul__(self, cur().concretize(n) if _isinstance(n, SymNum) else n))

    __rmul__ = __mul__

    def __setitem__(self, i, v):
        if self.seq is not None:
            raise Unsupported("a list filled by an unbounded loop is changed")
        if self.slots is not None:
            b = self.slots
            if b.cur is None or _isinstance(i, slice) or not cur().entails(zn(i) == b.cur):
                raise Unsupported("a list of arbitrary length is written")
            if builtins.list.__len__(self) and type(builtins.list.__getitem__(self, -1)).__name__ != "Chunk":
                builtins.list.__setitem__(self, -1, v)
            else:
                builtins.list.append(self, v)
            return
        if _isinstance(i, SymNum):
            i = cur().concretize(i)
        builtins.list.__setitem__(self, i, v)

    def _unknown(self):
        return self.seq is None and any(type(y).__name__ == "Chunk" for y in builtins.list.__iter__(self))

    def __bool__(self):
        if self.seq is not None:
            return builtins.bool(self.seq)
        if self.slots is not None:
            return builtins.bool(self.slots)
        if self._unknown():
            raise Unsupported("a list filled by an unbounded loop is tested")
        return builtins.list.__len__(self) > 0

    def __iter__(self):
        if self.seq is not None or self.slots is not None or self._unknown():
            raise Unsupported("iteration over a list filled by an unbounded loop")
        return builtins.list.__iter__(self)

    def __getitem__(self, i):
        if self.seq is not None:
            return self.seq[i]
        if self.slots is not None:
            raise Unsupported("a list of arbitrary length is read")
        if _isinstance(i, SymNum):
            i = cur().concretize(i)
        r = builtins.list.__getitem__(self, i)
        return VList(r) if _isinstance(i, slice) else r

    def append(self, x):
        if self.seq is not None or self.slots is not None:
            raise Unsupported("a list filled by an unbounded loop grows")
        builtins.list.append(self, x)

    def extend(self, o):
        from . import arrays
        if en.E is not None and arrays.anyv(o):
            if self.seq is not None or self.slots is not None or builtins.list.__len__(self):
                raise Unsupported("concatenation of sequences of arbitrary length")
            o = filled(o)
            self.seq = o.rows() if _isinstance(o, arrays.VArr) else o.as_seq() if hasattr(type(o), "as_seq") else o.sym_as(builtins.list)
            builtins.list.append(self, None)
            return
        if self.seq is not None or self.slots is not None:
            raise Unsupported("a list filled by an unbounded loop grows")
        builtins.list.extend(self, o)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __reduce_ex__(self, p):
        if self.seq is not None or self.slots is not None or self._unknown():
            raise Unsupported("copy of a list filled by an unbounded loop")
        return (VList, (builtins.list(self),))

    def copy(self):
        return self[:]

    def __add__(self, o):
        if self.seq is not None or self.slots is not None or getattr(o, "seq", None) is not None or getattr(o, "slots", None) is not None:
            raise Unsupported("concatenation of a list filled by an unbounded loop")
        return VList(builtins.list.__add__(self, o))


def filled(x):
    """the sequence a list stands for, or the value itself"""
    return x.seq if type(x) is VList and x.seq is not None else x


# ------------------------------------------------------------------ builtins
class _IntMeta(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, builtins.int) or (_isinstance(o, SymNum) and o.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, *a, **k):
        if len(a) == 1 and _isinstance(a[0], (SymNum, SymBool)):
            return en.sym_trunc(a[0])
        if len(a) == 1 and _isinstance(a[0], str) and "\u27e6" in a[0]:
            return en.sym_trunc(cur().untoken(a[0]))
        return builtins.int(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)

    def __getattr__(cls, n):
        return getattr(builtins.int, n)


class Int(metaclass=_IntMeta):
    from_bytes = builtins.int.from_bytes


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, builtins.float) or (_isinstance(o, SymNum) and not o.isint)

    def __call__(cls, *a, **k):
        if len(a) == 1 and _isinstance(a[0], SymNum):
            return SymNum(en.toreal(a[0].z), isint=False)
        if len(a) == 1 and _isinstance(a[0], SymBool):
            return SymNum(en.toreal(zn(a[0])), isint=False)
        if len(a) == 1 and _isinstance(a[0], str) and "\u27e6" in a[0]:
            return cur().untoken(a[0])
        return builtins.float(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)

    def __getattr__(cls, n):
        return getattr(builtins.float, n)


class Float(metaclass=_FloatMeta):
    pass


def _pick(args, key, less):
    best = args[0]
    kb = key(best) if key else best
    for x in args[1:]:
        kx = key(x) if key else x
        c = (kx > kb) if not less else (kx < kb)
        if _isinstance(c, SymBool):
            if key is None and _mergeable(norm(best)) and _mergeable(norm(x)):
                best = ite(c, norm(x), norm(best))
                kb = best
                continue
            c = builtins.bool(c)
        if c:
            best, kb = x, kx
    return best


_NO = object()


def _mm(less):
    def f(*args, key=None, default=_NO):
        if len(args) == 1:
            seq = filled(args[0])
            h = getattr(type(seq), "sym_minmax", None)
            if h is not None:
                return h(seq, less, key, default)
            args = list(seq)
            if not args:
                if default is not _NO:
                    return default
                raise ValueError("%s() iterable argument is empty" % ("min" if less else "max"))
        return _pick(list(args), key, less)
    return f


max_ = _mm(False)
min_ = _mm(True)


def len_(x):
    x = filled(x)
    h = getattr(type(x), "sym_len", None)
    if h is not None:
        return h(x)
    if type(x) is VList and x.slots is not None:
        return x.slots.n
    if _isinstance(x, builtins.list) and any(type(y).__name__ == "Chunk" for y in builtins.list.__iter__(x)):
        raise Unsupported("length of a list filled by an unbounded loop")
    return builtins.len(x)


def sum_(it, start=0):
    it = filled(it)
    h = getattr(type(it), "sym_sum", None)
    if h is not None:
        return h(it, start)
    r = start
    for x in it:
        r = r + x
    return r


def any_(it):
    it = filled(it)
    if hasattr(type(it), "sym_any"):
        return it.sym_any()
    acc = False
    for x in it:
        t = truth(x)
        if t is True:
            return True
        if _isinstance(t, SymBool):
            acc = t if acc is False else (acc | t)
    return acc


def all_(it):
    it = filled(it)
    if hasattr(type(it), "sym_all"):
        return it.sym_all()
    acc = True
    for x in it:
        t = truth(x)
        if t is False:
            return False
        if _isinstance(t, SymBool):
            acc = t if acc is True else (acc & t)
    return acc


def bool_(x=False):
    return truth(x)


class _BoolMeta(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, (builtins.bool, SymBool))

    def __call__(cls, *a):
        return truth(a[0]) if a else False

    def __eq__(cls, o):
        return o is cls or o is builtins.bool

    def __hash__(cls):
        return hash(builtins.bool)

    def __getattr__(cls, n):
        return getattr(builtins.bool, n)


class Bool(metaclass=_BoolMeta):
    pass


def range_(*a):
    return builtins.range(*[x if not is_sym(x) else cur().concretize(x) for x in a]) \
        if not any(is_sym(x) for x in a) else _symrange(a)


def enumerate_(it, start=0):
    it = filled(it)
    h = getattr(type(it), "sym_enumerate", None)
    if h is not None:
        return h(it, start)
    return builtins.enumerate(it, start)


def _symrange(a):
    hi = a[0] if len(a) == 1 else a[1] if len(a) == 2 and not is_sym(a[0]) and a[0] == 0 else None
    if _isinstance(hi, SymNum) and en.E is not None:
        for s in getattr(en.E, "seqs", ()):
            if s.n.z.eq(hi.z):
                return s.indices()
    h = en.E.range_hook
    if h is not None:
        r = h(a)
        if r is not None:
            return r
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if is_sym(st):
        st = cur().concretize(st)

    def gen():
        i = lo
        n = 0
        while True:
            c = (i < hi) if st > 0 else (i > hi)
            if not c:
                return
            yield i
            i = i + st
            n += 1
            if n > cur().max_iter:
                raise BoundExceeded("range longer than %d" % cur().max_iter)
    return gen()


def round_(x, nd=None):
    if _isinstance(x, (SymNum, SymBool)):
        return SymNum(zn(x)).__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


PRINTED = []


def print_(*a, **k):
    PRINTED.append(k.get("sep", " ").join(str(x) for x in a))


def join_(o):
    """o.join"""
    if type(o) is not str:
        return o.join

    def join(it):
        from . import loops
        it = filled(it)
        if _isinstance(it, (loops.Seq, loops.Mapped)):
            return loops.Joined(o, it)
        if type(it) in (builtins.list, VList, builtins.tuple) and any(_isinstance(x, SymName) for x in it):
            it = [builtins.str(x) for x in it]
        return o.join(it)
    return join


def sort_(o):
    """o.sort; a list holding an unknown part stays as it is, the order is noted for the contract"""
    o = filled(o)
    if en.E is not None and type(o) in (builtins.list, VList):
        from . import loops
        if any(_isinstance(x, loops.Chunk) for x in builtins.list.__iter__(o)):
            def srt(*, key=None, reverse=False):
                if reverse:
                    raise Unsupported("reverse sort of a list filled by a loop")
                cur().sorted.append((o, key))
            return srt
    return o.sort


def sorted_(it, *, key=None, reverse=False):
    it = filled(it)
    h = getattr(type(it), "sym_sorted", None)
    if h is not None:
        return h(it, key, reverse)
    if en.E is not None and type(it) in (builtins.list, VList):
        res = VList(builtins.list.__getitem__(it, slice(None)))
        from . import loops
        if any(_isinstance(x, loops.Chunk) for x in builtins.list.__iter__(res)):
            sort_(res)(key=key, reverse=reverse)
            return res
    return builtins.sorted(it, key=key, reverse=reverse)


def list_(*a):
    if a:
        h = getattr(type(a[0]), "sym_list", None)
        if h is not None:
            return h(a[0])
    return builtins.list(*a)


class _SeqMeta(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, cls.base) or getattr(type(o), "sym_isa", None) is cls.base

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.base)

    def __call__(cls, *a, **k):
        if a:
            a = (filled(a[0]),) + a[1:]
            h = getattr(type(a[0]), "sym_as", None)
            if h is not None:
                return h(a[0], cls.base)
        if cls.base is builtins.list:
            return VList(*a, **k)
        return cls.base(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls.base

    def __hash__(cls):
        return hash(cls.base)

    def __getattr__(cls, n):
        return getattr(cls.base, n)


class List(metaclass=_SeqMeta):
    base = builtins.list


class Tuple(metaclass=_SeqMeta):
    base = builtins.tuple


class Dict(metaclass=_SeqMeta):
    base = builtins.dict


_TYPES = {builtins.int: Int, builtins.float: Float, builtins.bool: Bool, builtins.list: List, builtins.tuple: Tuple, builtins.dict: Dict}
for _b, _s in _TYPES.items():
    _s.__name__ = _s.__qualname__ = _b.__name__


def type_(x):
    """type(x), as the names of the builtin types are bound in instrumented modules"""
    if _isinstance(x, SymBool):
        return Bool
    if _isinstance(x, SymNum):
        return Int if x.isint else Float
    t = type(x)
    if t is VList:
        return List
    a = getattr(t, "sym_isa", None)
    return _TYPES.get(t if a is None else a, t)


SHADOW = dict(int=Int, float=Float, bool=Bool, max=max_, min=min_, len=len_, sum=sum_, any=any_, all=all_,
              range=range_, round=round_, print=print_, enumerate=enumerate_, sorted=sorted_, list=List, tuple=Tuple, dict=Dict)


# ------------------------------------------------------------------ numpy
class OArr(_np.ndarray):
    """object array whose ufuncs work elementwise on symbolic values"""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return oufunc(ufunc, method, *inputs, **kw)


def _plain(x):
    if _isinstance(x, OArr):
        return x.view(_np.ndarray)
    if is_sym(x):
        a = _np.empty((), dtype=object)
        a[()] = x
        return a
    return x


def _wrap(x):
    if _isinstance(x, _np.ndarray):
        if x.dtype == object:
            if x.shape == ():
                return x[()]
            return x.view(OArr)
    return x


def _fl(x):
    return en.sym_floor(x)


def _ce(x):
    x = norm(x)
    if _isinstance(x, SymNum):
        return -en.sym_floor(-x)
    return builtins.float(math.ceil(en.frac(x))) if not is_inf(x) else x


def _sq(x):
    x = norm(x)
    return cur().sqrt(x) if _isinstance(x, SymNum) else math.sqrt(x)


def _pw(a, b):
    return norm(a) ** norm(b)


def _mx(a, b):
    return max_(norm(a), norm(b))


def _mn(a, b):
    return min_(norm(a), norm(b))


import operator as _op

def _num(f):
    return lambda a, b: f(norm(a), norm(b))


UF = {"floor": (_fl, 1), "ceil": (_ce, 1), "sqrt": (_sq, 1), "power": (_pw, 2), "multiply": (_num(_op.mul), 2),
      "add": (_num(_op.add), 2), "subtract": (_num(_op.sub), 2), "divide": (_num(_op.truediv), 2),
      "true_divide": (_num(_op.truediv), 2), "floor_divide": (_num(_op.floordiv), 2), "remainder": (_num(_op.mod), 2),
      "greater": (_num(_op.gt), 2), "greater_equal": (_num(_op.ge), 2), "less": (_num(_op.lt), 2),
      "less_equal": (_num(_op.le), 2), "equal": (_num(_op.eq), 2), "not_equal": (_num(_op.ne), 2),
      "negative": (lambda a: -norm(a), 1), "maximum": (_mx, 2), "minimum": (_mn, 2), "square": (lambda a: norm(a) * norm(a), 1),
      "absolute": (lambda a: abs(norm(a)), 1), "logical_not": (not_, 1), "invert": (not_, 1),
      "logical_and": (lambda a, b: and_(truth(a), lambda: truth(b), True), 2),
      "logical_or": (lambda a, b: or_(truth(a), lambda: truth(b), True), 2),
      "bitwise_and": (lambda a, b: and_(truth(a), lambda: truth(b), True), 2),
      "bitwise_or": (lambda a, b: or_(truth(a), lambda: truth(b), True), 2),
      "matmul": (None, 2), "trunc": (lambda a: en.sym_trunc(a), 1),
      "rint": (lambda a: round_(a, 0), 1)}


def oufunc(ufunc, method, *inputs, **kw):
    nm = ufunc.__name__
    if arrays.anyv(*inputs):
        return arrays.vufunc(nm, method, *[arrays.seqof(x) for x in inputs], **kw)
    if nm not in UF or UF[nm][0] is None:
        raise Unsupported("numpy ufunc %s on symbolic values" % nm)
    f, n = UF[nm]
    pf = _np.frompyfunc(f, n, 1)
    out = kw.pop("out", None)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    ins = [_plain(x) for x in inputs]
    if method == "__call__":
        if kw:
            raise Unsupported("ufunc keywords %r" % list(kw))
        r = pf(*ins)
    elif method in ("reduce", "accumulate"):
        a = _np.asarray(ins[0], dtype=object)
        axis = kw.get("axis", 0)
        if method == "reduce" and (axis is None):
            acc = None
            for x in a.ravel():
                acc = x if acc is None else f(acc, x)
            r = acc if acc is not None else {"add": 0, "multiply": 1}.get(nm, None)
            if kw.get("keepdims"):
                r = _np.asarray(r, dtype=object).reshape((1,) * a.ndim)
        elif method == "reduce":
            if _isinstance(axis, tuple):
                if len(axis) != 1:
                    raise Unsupported("multi-axis reduce")
                axis = axis[0]
            if a.shape[axis] == 0 and nm in ("add", "multiply"):
                r = _np.full([s for i, s in enumerate(a.shape) if i != axis % a.ndim], 0 if nm == "add" else 1, dtype=object)
            else:
                r = pf.reduce(a, axis=axis, keepdims=kw.get("keepdims", False))
        else:
            r = _np.empty(a.shape, dtype=object)
            b = _np.moveaxis(a, axis, 0)
            rb = _np.moveaxis(r, axis, 0)
            for i in range(b.shape[0]):
                rb[i] = b[i] if i == 0 else pf(rb[i - 1], b[i])
    else:
        raise Unsupported("ufunc method " + method)
    if out is not None:
        o = out[0] if _isinstance(out, tuple) else out
        _plain(o)[...] = r
        return o
    return _wrap(r) if _isinstance(r, _np.ndarray) else r


def _sym_ufunc(self, ufunc, method, *inputs, **kw):
    return oufunc(ufunc, method, *inputs, **kw)


SymNum.__array_ufunc__ = _sym_ufunc
SymBool.__array_ufunc__ = _sym_ufunc


def _anysym(x):
    if is_sym(x):
        return True
    if _isinstance(x, (list, tuple)):
        return any(_anysym(y) for y in x)
    if _isinstance(x, OArr):
        return True
    if _isinstance(x, _np.ndarray) and x.dtype == object:
        return True
    return False


def _mk(fn):
    def f(shape, *a, **k):
        if en.E is None:
            return fn(shape, *a, **k)
        sh = tuple(shape) if _isinstance(shape, (tuple, list)) else (shape,)
        if any(arrays.is_dim(x) for x in sh):
            return arrays.VArr(sh, lambda *ix: builtins.float(fn(())))
        if _isinstance(shape, (tuple, list)):
            shape = tuple(cur().concretize(s) if is_sym(s) else s for s in shape)
        elif is_sym(shape):
            shape = cur().concretize(shape)
        dt = k.get("dtype", a[0] if a else None)
        base = fn(shape)
        return base.astype(object).view(OArr) if base.shape != () else base[()]
    return f


class NPRandom:
    def __getattr__(self, n):
        if en.E is None:
            return getattr(_np.random, n)
        raise Unsupported("numpy.random.%s in symbolic mode" % n)

    @staticmethod
    def rand(*shape):
        if en.E is None:
            return _np.random.rand(*shape)
        e = cur()
        if any(arrays.is_dim(x) for x in shape):
            return arrays.rand(*shape)
        out = _np.empty(shape, dtype=object)
        for ix in _np.ndindex(*shape):
            out[ix] = e.draw()
        if shape == ():
            return out[()]
        return out.view(OArr)

    random = staticmethod(lambda size=(): NPRandom.rand(*((size,) if _isinstance(size, int) else tuple(size or ()))))
    random_sample = random

    @staticmethod
    def uniform(low=0.0, high=1.0, size=None):
        if en.E is None:
            return _np.random.uniform(low, high, size)
        if size is None:
            return low + (high - low) * cur().draw()
        shape = (size,) if _isinstance(size, int) else tuple(size)
        return low + (high - low) * NPRandom.rand(*shape)

    @staticmethod
    def seed(*a):
        _np.random.seed(*a)


class NP(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__["random"] = NPRandom()
        self.zeros = _mk(_np.zeros)
        self.ones = _mk(_np.ones)
        self.empty = _mk(_np.zeros)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = getattr(_np, n)
        if _isinstance(v, _np.ufunc):
            def g(*a, **k):
                if arrays.anyv(*a):
                    return arrays.vufunc(n, "__call__", *[arrays.seqof(x) for x in a], **k)
                a2 = [list_to_arr(x) for x in a]
                if any(_anysym(x) for x in a2):
                    return oufunc(v, "__call__", *a2, **k)
                if n in ("floor", "ceil", "sqrt") and len(a) == 1 and _isinstance(norm(a[0]), (int, float)) and not k:
                    return v(a[0])
                return v(*a, **k)
            return g
        if en.E is not None and callable(v) and not _isinstance(v, type):
            def h(*a, **k):
                if arrays.anyv(*a) or any(_isinstance(x, (list, tuple)) and arrays.anyv(*x) for x in a):
                    raise Unsupported("numpy.%s of an array of arbitrary size" % n)
                return v(*a, **k)
            return h
        return v

    @staticmethod
    def array(x, *a, **k):
        if arrays.anyv(x):
            if (a[0] if a else k.get("dtype")) not in (None, builtins.float, Float, builtins.object):
                raise Unsupported("array of another type")
            return arrays.seqof(x).copy()
        return list_to_arr(x, force=True, *a, **k)

    @staticmethod
    def asarray(x, *a, **k):
        return x if _isinstance(x, arrays.VArr) else NP.array(x, *a, **k)

    @staticmethod
    def squeeze(x, axis=None):
        return x.squeeze(axis) if arrays.anyv(x) else _np.squeeze(x, axis)

    @staticmethod
    def transpose(x, *a):
        return x.transpose(*a) if arrays.anyv(x) else _np.transpose(x, *a)

    @staticmethod
    def nonzero(x):
        if not arrays.anyv(x):
            return _np.nonzero(x)
        if x.ndim != 1:
            raise Unsupported("nonzero of a matrix of arbitrary size")
        return (arrays.Nonzero(x),)

    @staticmethod
    def concatenate(xs, axis=0, **k):
        if _isinstance(xs, (list, tuple)) and arrays.anyv(*xs):
            return arrays.concatenate(xs, axis)
        return _np.concatenate(xs, axis=axis, **k)

    flatnonzero = staticmethod(lambda x: NP.nonzero(x)[0])

    @staticmethod
    def full(shape, v, **k):
        if en.E is None:
            return _np.full(shape, v, **k)
        sh = tuple(shape) if _isinstance(shape, (tuple, list)) else (shape,)
        if any(arrays.is_dim(x) for x in sh):
            return arrays.VArr(sh, lambda *ix: v)
        return _wrap(_np.full(shape, v, dtype=object))

    @staticmethod
    def where(c, *ab):
        if ab and arrays.anyv(c, *ab):
            xs = [arrays.tovarr(x) for x in (c,) + ab]
            shape = arrays.broadcast([x.shape for x in xs])
            gs = [(x.now(), x.shape) for x in xs]
            return arrays.VArr(shape, lambda *ix: ifexp(
                gs[0][0](*arrays.clip(ix, gs[0][1])), lambda: gs[1][0](*arrays.clip(ix, gs[1][1])), lambda: gs[2][0](*arrays.clip(ix, gs[2][1])), True))
        if arrays.anyv(c):
            return NP.nonzero(c)
        if ab and (_anysym(c) or _anysym(ab[0]) or _anysym(ab[1])):
            pf = _np.frompyfunc(lambda c, a, b: ifexp(c, lambda: a, lambda: b, True), 3, 1)
            return _wrap(_np.asarray(pf(_plain(list_to_arr(c)), _plain(ab[0]), _plain(ab[1])), dtype=object))
        if not ab and _anysym(c):
            arr = _np.frompyfunc(lambda x: builtins.bool(x), 1, 1)(_plain(c)).astype(builtins.bool)
            return _np.where(arr)
        return _np.where(c, *ab)

    @staticmethod
    def sum(x, axis=None, **k):
        if arrays.anyv(x):
            return arrays.seqof(x).sum(axis, **k)
        x = list_to_arr(x)
        if _anysym(x):
            return oufunc(_np.add, "reduce", x, axis=axis, **k)
        return _np.sum(x, axis=axis, **k)

    @staticmethod
    def cumsum(x, axis=None, **k):
        if arrays.anyv(x):
            return arrays.seqof(x).cumsum(axis, **k)
        x = list_to_arr(x)
        if _anysym(x):
            if axis is None:
                x = _np.asarray(x).ravel().view(OArr) if not _isinstance(x, OArr) else x.ravel()
                axis = 0
            return oufunc(_np.add, "accumulate", x, axis=axis, **k)
        return _np.cumsum(x, axis=axis, **k)

    @staticmethod
    def mean(x, axis=None, **k):
        if arrays.anyv(x):
            return arrays.seqof(x).mean(axis, **k)
        x = list_to_arr(x)
        if _anysym(x):
            n = x.size if axis is None else x.shape[axis]
            return NP.sum(x, axis=axis) / n
        return _np.mean(x, axis=axis, **k)

    @staticmethod
    def argsort(x, *a, **k):
        if arrays.anyv(x):
            return arrays.argsort(x)
        x = list_to_arr(x)
        if _anysym(x):
            if x.ndim != 1:
                raise Unsupported("argsort of a matrix")
            return _np.array(builtins.sorted(range(len(x)), key=lambda i: x[i]), dtype=_np.intp)
        return _np.argsort(x, *a, **k)

    @staticmethod
    def sort(x, *a, **k):
        x = list_to_arr(x)
        if _anysym(x):
            return list_to_arr(builtins.sorted(list(x)))
        return _np.sort(x, *a, **k)

    @staticmethod
    def argmax(x, axis=None, **k):
        x = list_to_arr(x)
        if _anysym(x):
            return _argm(x, axis, False)
        return _np.argmax(x, axis=axis, **k)

    @staticmethod
    def argmin(x, axis=None, **k):
        x = list_to_arr(x)
        if _anysym(x):
            return _argm(x, axis, True)
        return _np.argmin(x, axis=axis, **k)

    @staticmethod
    def isnan(x):
        if is_sym(x):
            return False
        if _isinstance(x, OArr):
            return _np.frompyfunc(lambda v: _isinstance(norm(v), float) and math.isnan(norm(v)), 1, 1)(_plain(x)).astype(builtins.bool)
        return _np.isnan(x)

    @staticmethod
    def searchsorted(a, v, side="left", **k):
        a = list_to_arr(a)
        if _anysym(a) or _anysym(v):
            if not _isinstance(v, SymNum) and getattr(v, "shape", ()) != ():
                raise Unsupported("searchsorted of arrays")
            i = 0
            for x in a:
                if (x < v) if side == "left" else (x <= v):
                    i += 1
                else:
                    break
            return i
        return _np.searchsorted(a, v, side=side, **k)


def _argm(x, axis, less):
    def one(v):
        best = 0
        for i in range(1, len(v)):
            a, b = truthnum(v[i]), truthnum(v[best])
            if (a < b) if less else (a > b):
                best = i
        return best
    if axis is None:
        return one(list(x.ravel()))
    m = _np.moveaxis(_plain(x), axis, -1)
    out = _np.empty(m.shape[:-1], dtype=_np.intp)
    for ix in _np.ndindex(*m.shape[:-1]):
        out[ix] = one(m[ix])
    return out if out.shape else int(out)


def truthnum(v):
    return SymNum(zn(v)) if _isinstance(v, SymBool) else norm(v)


def list_to_arr(x, *a, force=False, **k):
    if _isinstance(x, (list, tuple)):
        if _anysym(x):
            r = _np.array(x, dtype=object)
            return r.view(OArr)
        if force:
            r = _np.array(x, *a, **k)
            return r
        return x
    if force and not _isinstance(x, _np.ndarray) and not is_sym(x):
        return _np.array(x, *a, **k)
    if force and _isinstance(x, OArr):
        return x.copy()
    return x


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        v = getattr(math, n)
        if not callable(v):
            return v

        def g(*a, **k):
            if not any(is_sym(x) for x in a):
                return v(*a, **k)
            if n == "floor":
                r = en.sym_floor(a[0])
                if _isinstance(r, SymNum):
                    r = SymNum(r.z, isint=True)
                return r
            if n == "ceil":
                r = -en.sym_floor(-a[0])
                if _isinstance(r, SymNum):
                    r = SymNum(r.z, isint=True)
                return r
            if n == "trunc":
                return en.sym_trunc(a[0])
            if n == "sqrt":
                return cur().sqrt(a[0])
            if n in ("isinf", "isnan"):
                return False
            if n == "isfinite":
                return True
            if n == "pow":
                return a[0] ** a[1]
            if n == "fabs":
                return abs(a[0])
            if n == "isclose":
                return a[0] == a[1]
            raise Unsupported("math." + n)
        return g


from . import arrays

_NP = NP()
_MATH = MathShim()


def shim(m):
    nm = getattr(m, "__name__", None)
    if nm == "numpy":
        return _NP
    if nm == "math":
        return _MATH
    if nm == "random":
        return RandomShim()
    return m


def shim_attr(mod, name, v):
    if mod == "numpy":
        return getattr(_NP, name)
    if mod == "math":
        return getattr(_MATH, name)
    if mod == "functools" and name == "reduce":
        return v
    return v


class RandomShim(types.ModuleType):
    def __init__(self):
        super().__init__("random")

    def random(self):
        if en.E is None:
            import random
            return random.random()
        return cur().draw()

    def uniform(self, a, b):
        return a + (b - a) * cur().draw()

    def __getattr__(self, n):
        if en.E is None:
            import random
            return getattr(random, n)
        raise Unsupported("random." + n)
