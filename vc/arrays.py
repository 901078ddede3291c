"""Arrays of arbitrary size.

A VArr has a shape whose entries may be symbolic (the length of a contract's sequence, or a number
of samples) and an element function; numpy's operations on it are elementwise, so an element of the
result is computed, when it is looked at, by the scalar operation on the elements of the operands.
Sums along an axis of symbolic length are proved equal to a fold of the contract (loops.Mapped).
Only what is listed here is understood; anything else is Unsupported (undecided).
"""
import z3

from . import engine as en
from . import loops
POISON = loops.POISON
from .engine import SymBool, SymNum, Unsupported, cur, norm, zn

COUNT = [0]


def is_dim(v):
    """a symbolic number that is the length of something of arbitrary length"""
    return isinstance(v, SymNum) and en.E is not None and (
        any(s.n.z.eq(v.z) for s in en.E.seqs) or any(d.z.eq(v.z) for d in en.E.__dict__.get("dims", ())))


def deq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, SymNum) and isinstance(b, SymNum) and a.z.eq(b.z):
        return True
    return cur().entails(zn(a) == zn(b))


def one(d):
    return isinstance(d, int) and d == 1


def broadcast(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        ds = [s[len(s) - n + k] for s in shapes if len(s) - n + k >= 0]
        r = 1
        for d in ds:
            if one(d):
                continue
            if one(r):
                r = d
            elif not deq(r, d):
                raise Unsupported("operands of different symbolic shapes")
        out.append(r)
    return tuple(out)


def tovarr(x):
    import numpy as np
    x = seqof(x)
    if isinstance(x, VArr):
        return x
    if isinstance(x, np.ndarray) and x.shape != ():
        a = x.copy()
        if any(d > 64 for d in a.shape):
            raise Unsupported("a large array meets one of arbitrary size")
        return VArr(a.shape, lambda *ix: a[tuple(pick(i, d) for i, d in zip(ix, a.shape))])
    if isinstance(x, (list, tuple)):
        return tovarr(np.array(x, dtype=object))
    return VArr((), lambda: x)


def pick(i, d):
    z = z3.simplify(zn(i))
    if z3.is_int_value(z):
        return z.as_long()
    for k in range(d - 1):
        if cur().decide(z == k):
            return k
    return d - 1


def seqof(x):
    """a sequence of arbitrary length as an array, anything else as it is"""
    s = getattr(x, "seq", None) if type(x).__name__ == "VList" else x
    if isinstance(s, loops.Mapped):
        s = s.as_seq()
    if not isinstance(s, loops.Seq):
        return x
    s.ready()
    if s.cond is not None:
        raise Unsupported("array of a filtered sequence of arbitrary length")
    e = cur()
    s = loops.Seq(s.name, None, wrap=s.wrap or (lambda i, v: v), base=s.base)     # (as it is now)
    if not e.decide(zn(s.n) > 0):
        return VArr((s.n,), lambda i: s.at(zn(i)))
    k = s.base.__dict__.get("probe")
    if k is None:
        k = s.base.probe = z3.Int(e.fresh("$a:" + s.name))
        e.fact(z3.And(k >= 0, k < zn(s.n)))
    p = s.at(k)
    m = []
    while type(p).__name__ in ("list", "tuple", "VList"):
        m.append(len(p))
        p = p[0]

    def at(i, *js):
        v = s.at(zn(i))
        for j, d in zip(js, m):
            v = v[pick(j, d)]
        return v
    return VArr((s.n,) + tuple(m), at)


class VArr:
    __array_priority__ = 1000
    sym_isa = None

    def __init__(self, shape, fn):
        self.shape, self.fn, self.memo, self.shared = tuple(shape), fn, {}, False

    def at(self, *ix):
        key = tuple(str(z3.simplify(zn(i))) for i in ix)
        if key not in self.memo:
            self.memo[key] = self.fn(*ix)
        return self.memo[key]

    def now(self):
        """the element function of the contents as they are now"""
        v = VArr(self.shape, self.fn)
        v.memo = self.memo
        return v.at

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = d * r if not one(r) else d
        return r

    def view(self, shape, fn):
        v = VArr(shape, fn)
        v.shared = self.shared = True
        return v

    # ---- elementwise
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return vufunc(ufunc.__name__, method, *inputs, **kw)

    def _put(self, r):
        if self.shared:
            raise Unsupported("an array of arbitrary size that shares its contents is changed")
        r = tovarr(r)
        if len(broadcast([self.shape, r.shape])) != len(self.shape):
            raise Unsupported("array grows in place")
        g, n = r.now(), len(r.shape)
        self.fn, self.memo = (lambda *ix: g(*clip(ix, r.shape))), {}
        return self

    # ---- shape
    @property
    def T(self):
        g = self.now()
        return self.view(self.shape[::-1], lambda *ix: g(*ix[::-1]))

    def transpose(self, *a):
        if a:
            raise Unsupported("transpose with axes")
        return self.T

    def reshape(self, *shape, **k):
        if k:
            raise Unsupported("reshape")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        def fits(a, b):
            return (isinstance(a, int) and a == -1) or (isinstance(a, int) == isinstance(b, int) and deq(a, b))
        if len(shape) == self.ndim and sum(isinstance(d, int) and d == -1 for d in shape) <= 1 and all(fits(a, b) for a, b in zip(shape, self.shape)):
            return self.view(self.shape, self.now())
        if any(isinstance(d, SymNum) and cur().entails(d.z == 0) for d in self.shape) and len([d for d in shape if isinstance(d, int) and d > 0]) == len(shape) - 1:
            n = [d for d in self.shape if isinstance(d, SymNum)][0]
            return VArr([n if isinstance(d, int) and d == -1 else d for d in shape], lambda *ix: POISON)    # of no elements
        big = [d for d in self.shape if not one(d)]
        if len(big) > 1:
            raise Unsupported("reshape of a matrix of arbitrary size")
        shape = tuple(1 if one(norm(d)) else d for d in shape)
        ax = [i for i, d in enumerate(shape) if not one(d)]
        if len(ax) != len(big) or (ax and not (shape[ax[0]] == -1 if isinstance(shape[ax[0]], int) else deq(shape[ax[0]], big[0]))):
            raise Unsupported("reshape of an array of arbitrary size")
        g = self.now()
        src = [i for i, d in enumerate(self.shape) if not one(d)]

        def at(*ix):
            full = [0] * len(self.shape)
            if src:
                full[src[0]] = ix[ax[0]]
            return g(*full)
        return self.view([1 if one(d) else big[0] for d in shape], at)

    def squeeze(self, axis=None):
        keep = [i for i, d in enumerate(self.shape) if not (one(d) and (axis is None or i == axis % self.ndim))]
        g = self.now()
        if axis is None:
            keep = [i for i in keep if isinstance(self.shape[i], int) or cur().decide(zn(self.shape[i]) != 1)]

        def at(*ix):
            full = [0] * len(self.shape)
            for i, x in zip(keep, ix):
                full[i] = x
            return g(*full)
        r = self.view([self.shape[i] for i in keep], at)
        return r if keep else r.at()

    def ravel(self, *a):
        return self.reshape(-1)

    def flatten(self, *a):
        return self.reshape(-1).copy()

    def copy(self, *a):
        g = self.now()
        return VArr(self.shape, g)

    __copy__ = copy

    def __deepcopy__(self, m):
        return self.copy()

    def astype(self, t, **k):
        from . import rt
        if t in (bool, rt.Bool):
            g = self.now()
            return VArr(self.shape, lambda *ix: rt.truth(g(*ix)))
        if t in (float, rt.Float, object, "float"):
            return self.copy()
        raise Unsupported("astype")

    # ---- elements
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        g = self.now()
        if any(k is Ellipsis for k in key):
            raise Unsupported("ellipsis")
        key = key + (slice(None),) * (self.ndim - sum(1 for k in key if k is not None))
        shape, get, ax = [], [], 0      # get[i]: how the operand's index i comes from the result's
        adv = None
        for k in key:
            if k is None:
                shape.append(1)
                continue
            if ax >= self.ndim:
                raise IndexError("too many indices for array")
            d = self.shape[ax]
            k = norm(k)
            if isinstance(k, slice):
                if not (k.step in (None, 1) and (k.start is None or k.start == 0) and (k.stop is None or (not isinstance(k.stop, int) or isinstance(d, int)) and deq(k.stop, d))):
                    raise Unsupported("slice of an array of arbitrary size")
                get.append((len(shape), None))
                shape.append(d)
            elif isinstance(k, (int, SymNum)) and not isinstance(k, bool):
                get.append((None, index(k, d)))
            else:
                k = tovarr(k)
                if adv is not None or k.ndim != 1:
                    raise Unsupported("fancy indexing")
                adv = k.now()
                get.append((len(shape), adv))
                shape.append(k.shape[0])
            ax += 1

        def at(*ix):
            full = []
            for pos, v in get:
                if pos is None:
                    full.append(v)
                elif v is None:
                    full.append(ix[pos])
                else:
                    full.append(norm(v(ix[pos])))
            return g(*full)
        if not shape:
            return at()
        return VArr(shape, at) if adv is not None else self.view(shape, at)

    def __setitem__(self, key, v):
        raise Unsupported("a write to an array of arbitrary size")

    def rows(self):
        for s in cur().seqs:
            if isinstance(self.shape[0], SymNum) and s.n.z.eq(self.shape[0].z):
                g = self
                return loops.Seq(s.name, None, wrap=lambda i, v: g[SymNum(zn(i))], base=s.base)
        raise Unsupported("iteration over an array of arbitrary size")

    def sym_len(self):
        return self.shape[0]

    def sym_loop(self, lid, names, tnames):
        return self.rows().sym_loop(lid, names, tnames)

    def sym_comp(self, *a):
        return self.rows().sym_comp(*a)

    def sym_as(self, base):
        return self.rows().sym_as(base)

    def sym_sum(self, start):
        return self.rows().sym_sum(start)

    def sym_enumerate(self, start):
        return self.rows().sym_enumerate(start)

    def tolist(self):
        return self.rows().sym_as(list)

    # ---- reductions
    def sum(self, axis=None, **k):
        if k:
            raise Unsupported("sum with keywords")
        if axis is None:
            r = self
            while isinstance(r, VArr) and r.ndim:
                r = r.sum(axis=r.ndim - 1)
            return r if not isinstance(r, VArr) else r.at()
        axis = axis % self.ndim
        d, g = self.shape[axis], self.now()
        rest = self.shape[:axis] + self.shape[axis + 1:]

        def at(*ix):
            f = lambda i: g(*(ix[:axis] + (i,) + ix[axis:]))
            if isinstance(d, int):
                acc = 0
                for i in range(d):
                    acc = acc + num(f(i))
                return acc
            return total(d, f)
        return VArr(rest, at) if rest else at()

    def cumsum(self, axis=None):
        if axis is None:
            if self.ndim != 1:
                raise Unsupported("cumsum of a matrix")
            axis = 0
        axis = axis % self.ndim
        d, g = self.shape[axis], self.now()
        if isinstance(d, int):
            raise Unsupported("cumsum along a fixed axis")

        cols = {}

        def at(*ix):
            rest = str(ix[:axis] + ix[axis + 1:])
            if rest not in cols:
                cols[rest] = total(d, lambda i: g(*(ix[:axis] + (i,) + ix[axis + 1:])), True, rest)
            return cols[rest](zn(ix[axis]) + 1)
        return VArr(self.shape, at)

    def mean(self, axis=None):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis) / n

    def _no(self, *a, **k):
        raise Unsupported("operation on an array of arbitrary size")

    __iter__ = __len__ = __contains__ = __bool__ = __float__ = __int__ = __index__ = _no
    __hash__ = None

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("operation %s on an array of arbitrary size" % n)


def num(v):
    v = norm(v)
    return SymNum(zn(v)) if isinstance(v, SymBool) else v


def clip(ix, shape):
    ix = ix[len(ix) - len(shape):]
    return tuple(0 if one(d) else i for i, d in zip(ix, shape))


def index(k, d):
    e = cur()
    if isinstance(k, int) and isinstance(d, int):
        if not -d <= k < d:
            raise IndexError("index out of bounds")
        return k % d
    z = zn(k)
    if e.decide(z < 0):
        z = z + zn(d)
    if not e.decide(z3.And(z >= 0, z < zn(d))):
        raise IndexError("index out of bounds")
    return SymNum(z)


def vufunc(nm, method, *inputs, **kw):
    from . import rt
    if nm not in rt.UF or rt.UF[nm][0] is None:
        raise Unsupported("numpy ufunc %s on arrays of arbitrary size" % nm)
    f, n = rt.UF[nm]
    out = kw.pop("out", None)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    if method == "reduce" and nm == "add":
        return inputs[0].sum(**{k: v for k, v in kw.items() if k == "axis"})
    if method != "__call__" or kw:
        raise Unsupported("ufunc on arrays of arbitrary size")
    xs = [tovarr(x) for x in inputs]
    shape = broadcast([x.shape for x in xs])
    gs = [(x.now(), x.shape) for x in xs]
    r = VArr(shape, lambda *ix: f(*[g(*clip(ix, s)) for g, s in gs]))
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        return o._put(r)
    return r if shape else r.at()


def _bin(nm, swap=False):
    def m(self, o):
        return vufunc(nm, "__call__", o, self) if swap else vufunc(nm, "__call__", self, o)
    return m


for _n, _u in dict(add="add", sub="subtract", mul="multiply", truediv="true_divide", floordiv="floor_divide", mod="remainder", pow="power").items():
    setattr(VArr, "__%s__" % _n, _bin(_u))
    setattr(VArr, "__r%s__" % _n, _bin(_u, True))
    setattr(VArr, "__i%s__" % _n, (lambda u: lambda self, o: self._put(vufunc(u, "__call__", self, o)))(_u))
for _n, _u in dict(gt="greater", ge="greater_equal", lt="less", le="less_equal", eq="equal", ne="not_equal").items():
    setattr(VArr, "__%s__" % _n, _bin(_u))
setattr(VArr, "__and__", _bin("logical_and"))
setattr(VArr, "__or__", _bin("logical_or"))
setattr(VArr, "__neg__", lambda self: vufunc("negative", "__call__", self))
setattr(VArr, "__abs__", lambda self: vufunc("absolute", "__call__", self))
setattr(VArr, "__invert__", lambda self: vufunc("invert", "__call__", self))


def total(d, f, prefixes=False, tag=""):
    """sum of f(i) for i < d, as a fold of the contract (with prefixes: the sums as a function)"""
    for s in cur().seqs:
        if s.n.z.eq(d.z):
            view = loops.Seq(s.name, None, wrap=lambda i, v: num(f(SymNum(zn(i)))), base=s.base)
            return loops.Mapped(view, (), lambda x: x, False)._reduce(0, lambda a, x: a + x, "sum", prefixes, tag)
    raise Unsupported("sum along an axis of arbitrary length")


def rand(*shape):
    e = cur()
    nm = e.fresh("$draws")
    F = z3.Function(nm, *([z3.IntSort()] * len(shape) + [z3.RealSort()]))

    def at(*ix):
        v = F(*[zn(i) for i in ix])
        e.fact(z3.And(v >= 0, v < 1))
        return SymNum(v, isint=False)
    return VArr(shape, at)


def anyv(*xs):
    return en.E is not None and any(isinstance(x, VArr) or type(x).__name__ in ("Mapped",) or isinstance(x, loops.Seq)
                                    or (type(x).__name__ == "VList" and x.seq is not None) for x in xs)


class Perm:
    """the elements of a sequence (indexed in the order its sorted_by gives), in an unknown order"""

    def __init__(self, seq):
        self.seq = seq
        self.fn = z3.Function(cur().fresh("$order:" + seq.name), z3.IntSort(), z3.IntSort())
        cur().__dict__.setdefault("perms", []).append(self)

    def at(self, i):
        z = self.fn(zn(i))
        cur().fact(z3.Implies(z3.And(zn(i) >= 0, zn(i) < self.seq.n.z), z3.And(z >= 0, z < self.seq.n.z)))
        return self.seq.base.at(z)

    def vector(self, f):
        return VArr((self.seq.n,), lambda i: f(self.at(i)))

    def matrix(self, k, f):
        return VArr((self.seq.n, k), lambda i, j: f(self.at(i), j))


def argsort(x):
    """the order in which the contract indexes the elements (of different keys)"""
    x = tovarr(x)
    e = cur()
    if x.ndim == 1:
        for p in e.__dict__.get("perms", ()):
            if not x.shape[0].z.eq(p.seq.n.z):
                continue
            if not e.decide(p.seq.n.z > 0):
                return VArr(x.shape, lambda i: POISON)
            k = z3.Int(e.fresh("$s:" + p.seq.name))
            e.fact(z3.And(k >= 0, k < p.seq.n.z))
            if loops.same(x.at(SymNum(k)), p.seq.order(p.at(SymNum(k)))):
                Q = z3.Function(e.fresh("$sorted:" + p.seq.name), z3.IntSort(), z3.IntSort())

                def at(i):
                    z = zn(i)
                    e.fact(z3.Implies(z3.And(z >= 0, z < p.seq.n.z), z3.And(Q(z) >= 0, Q(z) < p.seq.n.z, p.fn(Q(z)) == z)))
                    return SymNum(Q(z))
                e.noted("sorted by the specified order")
                return VArr(x.shape, at)
    raise Unsupported("argsort of an array of arbitrary size")


def concatenate(xs, axis=0):
    import numpy as np
    from . import rt
    xs = [tovarr(x) for x in xs]
    if len(xs) == 1:
        return xs[0].copy()
    if any(x.ndim != 1 or not isinstance(x.shape[0], int) for x in xs):
        raise Unsupported("concatenation of arrays of arbitrary size")
    v = [x.at(i) for x in xs for i in range(x.shape[0])]
    r = np.empty((len(v),), dtype=object)
    for i, y in enumerate(v):
        r[i] = y
    return r.view(rt.OArr)


class Nonzero(VArr):
    """positions of the true elements of a vector, in order: only whether there is one, and the first"""

    def __init__(self, x):
        self.x, self.first = x, None
        VArr.__init__(self, (None,), None)

    def some(self):
        e = cur()
        if self.first is None:
            from . import rt
            n, g = zn(self.x.shape[0]), self.x.now()
            if e.choose(2) == 0:
                m = z3.Int(e.fresh("$first"))
                e.fact(z3.And(m >= 0, m < n, en.zb(rt.truth(g(SymNum(m))))))
                self.first = SymNum(m)
                hi = m
            else:
                self.first = False
                hi = n
            e.__dict__.setdefault("nowhere", []).append((g, hi))     # not true below hi
            firsts = e.__dict__.setdefault("firsts", [])
            for m in firsts:
                nowhere(SymNum(m), [(g, hi)])
            if self.first is not False:
                firsts.append(hi)
                nowhere(self.first)
            e.assume(SymBool(z3.BoolVal(True)))
        return self.first is not False

    def sym_len(self):
        if not self.some():
            return 0
        e = cur()
        c = z3.Int(e.fresh("$count"))
        e.fact(z3.And(c >= 1, c <= zn(self.x.shape[0])))
        return SymNum(c)

    @property
    def size(self):
        return self.sym_len()

    def __gt__(self, o):
        r = Nonzero(self.x)     # (only of use for its length)
        r.first = self.first if self.some() else False
        return r

    def __getitem__(self, k):
        if k != 0:
            raise Unsupported("which elements of an array of arbitrary size are true")
        if not self.some():
            raise IndexError("index 0 is out of bounds")
        return self.first


def nowhere(i, which=None):
    """instances at i of what nonzero() said"""
    from . import rt
    for g, hi in cur().__dict__.get("nowhere", ()) if which is None else which:
        cur().fact(z3.Implies(z3.And(zn(i) >= 0, zn(i) < hi), z3.Not(en.zb(rt.truth(g(SymNum(zn(i))))))))
