"""Symbolic values, path exploration and obligation discharge (z3).

The code under verification is the real source of /repo, loaded through
vc.loader (a mechanical, per-run AST instrumentation) and executed by CPython
itself on symbolic values.  Every branch on a symbolic condition splits the
path; every `prove` call is one obligation `path condition => goal`.
"""
import builtins
import math
import time
from fractions import Fraction

import z3

_isinstance = builtins.isinstance


class PathAbort(BaseException):
    """Ends the current path (infeasible, or cut at a loop head)."""


class Unsupported(BaseException):
    """The code left the verifier's reach; nothing is concluded."""


class BoundExceeded(Unsupported):
    pass


E = None  # the current engine


def cur():
    if E is None:
        raise Unsupported("symbolic value used outside the engine")
    return E


# --------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------
FL = z3.Function("FL", z3.RealSort(), z3.RealSort())  # floor over the reals


def frac(v):
    if _isinstance(v, Fraction):
        return v
    if _isinstance(v, int):
        return Fraction(int(v))
    f = Fraction(float(v))
    g = f.limit_denominator(10 ** 7)
    if abs(g - f) <= abs(f) / 2 ** 50:
        return g
    return Fraction(repr(float(v)))


def is_inf(v):
    return (not _isinstance(v, SymNum)) and _isinstance(v, float) and math.isinf(v)


def is_num(v):
    if _isinstance(v, (int, float, Fraction, SymNum)):
        return True
    return type(v).__module__ == "numpy" and hasattr(v, "item") and getattr(v, "shape", 1) == ()


def norm(v):
    """numpy scalars -> python scalars"""
    if type(v).__module__ == "numpy" and getattr(v, "shape", 1) == () and hasattr(v, "item"):
        return v.item()
    return v


def zn(v):
    """python/symbolic number -> z3 arithmetic term"""
    v = norm(v)
    if _isinstance(v, SymNum):
        return v.z
    if _isinstance(v, SymBool):
        return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
    if _isinstance(v, bool):
        return z3.IntVal(int(v))
    if _isinstance(v, int):
        return z3.IntVal(int(v))
    if _isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            raise Unsupported("infinite/NaN value in symbolic arithmetic")
        f = frac(v)
        return z3.Q(f.numerator, f.denominator)
    if _isinstance(v, Fraction):
        return z3.Q(v.numerator, v.denominator)
    raise Unsupported("not a number: %r" % (type(v),))


def toreal(z):
    return z3.ToReal(z) if z.sort() == z3.IntSort() else z


def both(a, b):
    if a.sort() == b.sort():
        return a, b
    return toreal(a), toreal(b)


def simp(z):
    return z3.simplify(z, som=True, mul_to_power=False)


def mknum(z):
    """wrap; fold literals to python numbers"""
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_rational_value(z):
        f = Fraction(z.numerator_as_long(), z.denominator_as_long())
        return SymNum(z) if False else _Lit(f)
    return SymNum(z)


def _Lit(f):
    # keep exact rationals exact: a float literal is only used when it is exact
    v = float(f)
    if Fraction(repr(v)) == f:
        return v
    return SymNum(z3.Q(f.numerator, f.denominator))


def known_int(z):
    """syntactic check that a Real term is integer valued"""
    if z.sort() == z3.IntSort():
        return True
    if z3.is_rational_value(z):
        return z.denominator_as_long() == 1
    k = z.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return True
    if z3.is_app(z) and z.decl().eq(FL):
        return True
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return all(known_int(c) for c in z.children())
    if k == z3.Z3_OP_ITE:
        return known_int(z.arg(1)) and known_int(z.arg(2))
    return False


def as_int(z):
    """Int-sorted term equal to a Real term built from integer terms only, or None"""
    if z.sort() == z3.IntSort():
        return z
    if z3.is_rational_value(z):
        return z3.IntVal(z.numerator_as_long()) if z.denominator_as_long() == 1 else None
    k = z.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return z.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        cs = [as_int(c) for c in z.children()]
        if any(c is None for c in cs):
            return None
        if k == z3.Z3_OP_ADD:
            return z3.Sum(cs)
        if k == z3.Z3_OP_MUL:
            return z3.Product(cs)
        if k == z3.Z3_OP_UMINUS:
            return -cs[0]
        r = cs[0]
        for c in cs[1:]:
            r = r - c
        return r
    return None


def sym_floor(v):
    v = norm(v)
    if not _isinstance(v, SymNum):
        if _isinstance(v, SymBool):
            return SymNum(zn(v))
        if is_inf(v):
            return v
        return float(math.floor(frac(v)))
    z = v.z
    if z.sort() == z3.IntSort():
        return SymNum(z3.ToReal(z))
    a = simp(z)
    if z3.is_rational_value(a):
        f = Fraction(a.numerator_as_long(), a.denominator_as_long())
        return float(math.floor(f))
    if known_int(a):
        return SymNum(a)
    if cur().fp_mode:
        i = z3.Int(cur().fresh("$fl"))
        cur().fact(z3.And(z3.ToReal(i) <= a, a < z3.ToReal(i) + 1))
        return SymNum(z3.ToReal(i))
    t = FL(a)
    cur().fact(z3.And(t <= a, a < t + 1))
    cur().note_floor(a, t)
    return SymNum(t)


def sym_trunc(v):
    v = norm(v)
    if not _isinstance(v, SymNum):
        if _isinstance(v, SymBool):
            return SymNum(zn(v))
        return int(v)
    z = v.z
    if z.sort() == z3.IntSort():
        return SymNum(z, isint=True)
    if known_int(simp(z)):
        i = as_int(simp(z))
        return SymNum(z, isint=True) if i is None else mknum2(i, True)
    e = cur()
    if e.entails(z >= 0):
        r = sym_floor(v)
    elif e.entails(z <= 0):
        r = -sym_floor(-v)
    else:
        f1, f2 = sym_floor(v), sym_floor(-v)
        r = SymNum(z3.If(z >= 0, zn(f1), -zn(f2)))
    if _isinstance(r, SymNum):
        r.isint = True
    return r


_inv = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


class SymBool:
    __slots__ = ("z",)
    __array_priority__ = 10000

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return cur().decide(self.z)

    def __hash__(self):
        return 7

    def _b(self, o):
        if _isinstance(o, SymBool):
            return o.z
        if _isinstance(o, bool):
            return z3.BoolVal(o)
        return None

    def __and__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else mkbool(z3.And(self.z, o))

    __rand__ = __and__

    def __or__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else mkbool(z3.Or(self.z, o))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def __eq__(self, o):
        b = self._b(o)
        if b is None:
            if is_num(o):
                return SymNum(zn(self)) == o
            return False
        return mkbool(self.z == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if _isinstance(r, SymBool) else not r

    def __mul__(self, o):
        if is_num(o):
            o = norm(o)
            if is_inf(o):
                raise Unsupported("inf*bool")
            # case split: keeps products of conditions and values linear
            return o if cur().decide(self.z) else 0
        if _isinstance(o, SymBool):
            return int(cur().decide(self.z)) * o
        return NotImplemented

    __rmul__ = __mul__

    def __add__(self, o):
        return SymNum(zn(self)) + o

    __radd__ = __add__

    def __rsub__(self, o):
        return o - SymNum(zn(self))

    def __sub__(self, o):
        return SymNum(zn(self)) - o

    def __float__(self):
        raise Unsupported("float(SymBool)")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "SymBool(%s)" % self.z


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


class SymNum:
    __slots__ = ("z", "isint")
    __array_priority__ = 10000

    def __init__(self, z, isint=None):
        self.z = z
        self.isint = (z.sort() == z3.IntSort()) if isint is None else isint

    # -- arithmetic
    def _arith(self, o, op, swap=False):
        if _isinstance(o, SymBool):
            if op == "*":
                return self if cur().decide(o.z) else 0
            o = SymNum(zn(o))
        if not is_num(o):
            return NotImplemented
        o = norm(o)
        if is_inf(o):
            if op == "+":
                return o
            if op == "-":
                return o if swap else -o
            if op == "*":
                if cur().decide(self.z > 0):
                    return o
                if cur().decide(self.z < 0):
                    return -o
                return math.nan
            if op == "/" and not swap:
                return SymNum(z3.RealVal(0))
            raise Unsupported("infinite operand in " + op)
        a, b = self.z, zn(o)
        if swap:
            a, b = b, a
        ii = self.isint and (_isinstance(o, (int, bool)) or (_isinstance(o, SymNum) and o.isint))
        if op in "+-*":
            a, b = both(a, b)
            r = a + b if op == "+" else (a - b if op == "-" else a * b)
            return cur().fp(mknum2(r, ii), ii)
        if op == "/":
            a, b = toreal(a), toreal(b)
            if cur().decide_const(b == 0):
                raise ZeroDivisionError("division by zero")
            return cur().fp(mknum2(a / b, False), False)
        if op in ("//", "%"):
            if cur().decide_const(b == 0):
                raise ZeroDivisionError("division by zero")
            if a.sort() != z3.IntSort() or b.sort() != z3.IntSort():
                ia, ib = as_int(simp(a)), as_int(simp(b))
                if ia is not None and ib is not None:
                    a, b = ia, ib
            if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
                bb = z3.simplify(b)
                if z3.is_int_value(bb) and bb.as_long() > 0:
                    return mknum2(a / b if op == "//" else a % b, ii)
                q = sym_floor(SymNum(z3.ToReal(a) / z3.ToReal(b)))
            else:
                q = sym_floor(SymNum(toreal(a) / toreal(b)))
            if _isinstance(q, SymNum):
                q.isint = ii
            if op == "//":
                return q
            return SymNum(toreal(a)) - SymNum(toreal(b)) * q
        raise Unsupported(op)

    def __add__(self, o): return self._arith(o, "+")
    def __radd__(self, o): return self._arith(o, "+", True)
    def __sub__(self, o): return self._arith(o, "-")
    def __rsub__(self, o): return self._arith(o, "-", True)
    def __mul__(self, o): return self._arith(o, "*")
    def __rmul__(self, o): return self._arith(o, "*", True)
    def __truediv__(self, o): return self._arith(o, "/")
    def __rtruediv__(self, o): return self._arith(o, "/", True)
    def __floordiv__(self, o): return self._arith(o, "//")
    def __rfloordiv__(self, o): return self._arith(o, "//", True)
    def __mod__(self, o): return self._arith(o, "%")
    def __rmod__(self, o): return self._arith(o, "%", True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        o = norm(o)
        if _isinstance(o, (int, float)) and float(o).is_integer() and 0 <= o <= 4:
            r = 1
            for _ in range(int(o)):
                r = self * r
            return r
        raise Unsupported("power")

    def __neg__(self):
        return mknum2(-self.z, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum2(z3.If(self.z >= 0, self.z, -self.z), self.isint)

    # -- comparison
    def _cmp(self, o, op):
        if _isinstance(o, SymBool):
            o = SymNum(zn(o))
        if not is_num(o):
            return NotImplemented
        o = norm(o)
        if is_inf(o):
            pos = o > 0
            return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
        if _isinstance(o, float) and math.isnan(o):
            return op == "!="
        if _isinstance(o, (float, Fraction)) and frac(o).denominator != 1 and known_int(simp(self.z)):
            # an integer against a fraction
            if op in ("==", "!="):
                return op == "!="
            o, op = math.floor(frac(o)), "<=" if op in ("<", "<=") else ">"
        a, b = both(self.z, zn(o))
        z = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        return mkbool(z)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __hash__(self):
        return 11

    def __bool__(self):
        return cur().decide(self.z != 0)

    # -- conversions
    def __index__(self):
        return cur().concretize(self)

    def __int__(self):
        return cur().concretize(sym_trunc(self))

    def __float__(self):
        raise Unsupported("float() of a symbolic value outside the instrumented code")

    def __trunc__(self):
        return sym_trunc(self)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __round__(self, nd=None):
        if self.z.sort() == z3.IntSort():
            return self
        a = simp(self.z * 10 ** (nd or 0))
        if known_int(a):
            if nd is None:
                i = as_int(a)
                return mknum2(i if i is not None else a, True)
            return self
        if nd is None or nd == 0:
            r = sym_floor(SymNum(self.z + z3.Q(1, 2)))   # rounding a double is exact
            if _isinstance(r, SymNum) and nd is None:
                r.isint = True
            return r
        k = 10 ** nd
        return sym_floor(self * k + Fraction(1, 2)) / k

    def floor(self):
        return sym_floor(self)

    def ceil(self):
        return -sym_floor(-self)

    def sqrt(self):
        return cur().sqrt(self)

    def is_integer(self):
        return sym_floor(self) == self

    def item(self):
        return self

    def __format__(self, spec):
        return cur().token(self)

    __str__ = lambda self: cur().token(self)

    def __repr__(self):
        return "SymNum(%s)" % self.z

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def mknum2(z, isint):
    r = mknum(z)
    if _isinstance(r, SymNum):
        r.isint = isint or r.isint
    elif _isinstance(r, float) and isint and r.is_integer():
        r = int(r)
    elif _isinstance(r, int) and not isint and z.sort() != z3.IntSort():
        r = float(r)
    return r


class SymEnum:
    """symbolic member of an Enum class"""
    __slots__ = ("z", "cls", "members")

    def __init__(self, z, cls, members):
        self.z, self.cls, self.members = z, cls, members

    def is_(self, o):
        if _isinstance(o, SymEnum):
            return mkbool(self.z == o.z)
        if o in self.members:
            return mkbool(self.z == self.members.index(o))
        return False

    def __eq__(self, o):
        return self.is_(o)

    def __ne__(self, o):
        r = self.is_(o)
        return ~r if _isinstance(r, SymBool) else not r

    def __hash__(self):
        return 13

    def __deepcopy__(self, memo):
        return self

    def force(self):
        for i, m in enumerate(self.members[:-1]):
            if cur().decide(self.z == i):
                return m
        return self.members[-1]

    @property
    def name(self):
        return self.force().name

    @property
    def value(self):
        return self.force().value

    def __repr__(self):
        return "SymEnum(%s)" % self.z


NameSort = z3.DeclareSort("Name")


class SymName:
    """arbitrary string used only up to equality (data independence)"""
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __eq__(self, o):
        if _isinstance(o, SymName):
            return mkbool(self.z == o.z)
        if _isinstance(o, str):
            return mkbool(self.z == cur().name_const(o))
        return False

    def __ne__(self, o):
        r = self == o
        return ~r if _isinstance(r, SymBool) else not r

    def __hash__(self):
        return 17

    def __deepcopy__(self, memo):
        return self

    def __format__(self, s):
        return cur().token(self)

    __str__ = lambda self: cur().token(self)

    def __lt__(self, o):
        raise Unsupported("order of symbolic names")

    def __len__(self):
        raise Unsupported("length of a symbolic name")

    def __contains__(self, x):
        return cur().name_contains(self, x)

    def __repr__(self):
        return "SymName(%s)" % self.z


def zb(v):
    if _isinstance(v, SymBool):
        return v.z
    if _isinstance(v, z3.BoolRef):
        return v
    if _isinstance(v, SymNum):
        return v.z != 0
    return z3.BoolVal(bool(v))


# --------------------------------------------------------------------------
# the engine
# --------------------------------------------------------------------------
class Obligation:
    __slots__ = ("label", "status", "model", "detail", "path", "secs")

    def __init__(self, label, status, model=None, detail="", path=None, secs=0.0):
        self.label, self.status, self.model = label, status, model
        self.detail, self.path, self.secs = detail, path, secs


class Engine:
    def __init__(self, name="", timeout_ms=10000, branch_timeout_ms=3000, max_paths=20000,
                 deadline=None, max_iter=64, seed=1):
        self.name = name
        self.timeout = timeout_ms
        self.btimeout = branch_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_iter = max_iter
        self.seed = seed
        self.obligations = []
        self.npaths = 0
        self.nqueries = 0
        self.solver_s = 0.0
        self.truncated = None
        self.covers = {}
        self.loops = {}
        self.restart_needed = False
        self.fp_mode = False
        self.bounded_notes = set()
        self.queues = []
        self.cur_while = None
        self.forced = {}
        self.range_hook = None
        self.proved_cache = {}

    # ---- exploration -----------------------------------------------------
    def explore(self, fn):
        """fn(engine) is re-executed once per path."""
        global E
        self.stack = []
        while True:
            self._begin()
            old = E
            E = self
            try:
                fn()
                self.covers["path-end"] = self.covers.get("path-end", 0) + 1
            except PathAbort:
                pass
            finally:
                E = old
                self.solver.pop()
            self.npaths += 1
            # backtrack
            while self.stack and not self.stack[-1][1]:
                self.stack.pop()
            if not self.stack:
                return
            nxt = self.stack[-1][1].pop(0)
            self.stack[-1][0] = nxt
            if sum(o.status == "refuted" for o in self.obligations[-200:]) >= 40:
                self.truncated = "stopped after 40 refuted obligations"
                return
            if self.npaths >= self.max_paths:
                self.truncated = "path limit %d" % self.max_paths
                return
            if self.deadline and time.time() > self.deadline:
                self.truncated = "time limit"
                return

    def _begin(self):
        if not hasattr(self, "solver"):
            self.solver = z3.Solver()
            self.solver.set("timeout", self.btimeout)
            self.solver.set("random_seed", self.seed)
        self.solver.push()
        self.pos = 0
        self.pc = []
        self.counter = {}
        self.queues = []
        self.sorted = []
        self.range_hook = None
        self.cur_while = None
        self.inputs = {}
        self.choices = {}
        self.floors = []
        self.floor_seen = set()
        self.tokens = {}
        self.token_ids = {}
        self.names = {}
        self.loop_state = {}
        self.seqs = []
        self.dicts = []
        self.dims, self.perms, self.nowhere, self.firsts = [], [], [], []
        self.ghosts = {}

    def _chk(self, *assm, timeout=None):
        t = time.time()
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*assm)
        if timeout:
            self.solver.set("timeout", self.btimeout)
        self.solver_s += time.time() - t
        self.nqueries += 1
        return r

    def fact(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return
        self.solver.add(z)
        self.pc.append(z)

    assume_z = fact

    def note_floor(self, a, t):
        k = a.get_id()
        if k not in self.floor_seen:
            self.floor_seen.add(k)
            self.floors.append((a, t))

    def assume(self, c):
        if _isinstance(c, (SymBool, SymNum)):
            z = zb(c)
            self.fact(z)
            if self.pos >= len(self.stack):
                if self._chk() == z3.unsat:
                    raise PathAbort()
        elif not c:
            raise PathAbort()

    def decide(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        if self.pos < len(self.stack):
            v = self.stack[self.pos][0]
        else:
            if self.deadline and time.time() > self.deadline:
                self.truncated = "time limit"
                raise BoundExceeded("time limit")
            rt = self._chk(z)
            if rt == z3.unsat:
                opts = [False]
            else:
                rf = self._chk(z3.Not(z))
                opts = [True] if rf == z3.unsat else [True, False]
            self.stack.append([opts[0], opts[1:]])
            v = opts[0]
        self.pos += 1
        zz = z if v else z3.Not(z)
        self.solver.add(zz)
        self.pc.append(zz)
        return v

    def decide_const(self, z):
        """decide, used for rare error branches"""
        return self.decide(z)

    def entails(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        # must be deterministic across re-executions: record it
        if self.pos < len(self.stack):
            v = self.stack[self.pos][0]
        else:
            v = self._chk(z3.Not(z)) == z3.unsat
            self.stack.append([v, []])
        self.pos += 1
        return v

    def dead(self):
        """nothing satisfies the path condition (recorded, as it decides how the path goes on)"""
        if self.pos < len(self.stack):
            v = self.stack[self.pos][0]
        else:
            v = self._chk(z3.BoolVal(True)) == z3.unsat
            self.stack.append([v, []])
        self.pos += 1
        return v

    def holds(self, z):
        """entails, for answers that do not influence the path"""
        z = z3.simplify(z)
        return z3.is_true(z) or (not z3.is_false(z) and self._chk(z3.Not(z)) == z3.unsat)

    def choose(self, n):
        """n-ary nondeterministic choice"""
        if n == 1:
            return 0
        if self.pos < len(self.stack):
            v = self.stack[self.pos][0]
        else:
            self.stack.append([0, list(range(1, n))])
            v = 0
        self.pos += 1
        return v

    def concretize(self, x):
        x = norm(x)
        if not _isinstance(x, SymNum):
            return int(x)
        z = x.z
        if z.sort() != z3.IntSort():
            z = z3.ToInt(z)
        lim = 64
        for _ in range(lim):
            # find a candidate value deterministically recorded on the stack
            if self.pos < len(self.stack) and _isinstance(self.stack[self.pos][0], tuple):
                val = self.stack[self.pos][0][1]
            else:
                if self._chk() != z3.sat:
                    raise Unsupported("cannot enumerate index")
                val = self.solver.model().eval(z, model_completion=True).as_long()
                self.stack.append([("v", val), []])
            self.pos += 1
            if self.decide(z == val):
                return val
        raise BoundExceeded("too many values for a symbolic index")

    # ---- fresh symbols ---------------------------------------------------
    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s~%d" % (base, n)

    def fresh_real(self, base="r"):
        return SymNum(z3.Real(self.fresh("$" + base)))

    def fresh_int(self, base="i"):
        return SymNum(z3.Int(self.fresh("$" + base)))

    def draw(self):
        """one random draw of the code: an input in [0, 1)"""
        nm = self.fresh("draw")
        v = z3.Real("in:" + nm)
        self.inputs[nm] = ("real", v, None)
        self.fact(z3.And(v >= 0, v < 1))
        return SymNum(v)

    def untoken(self, s):
        s = s.strip()
        if s in self.tokens:
            return self.tokens[s]
        raise Unsupported("parsing of a formatted symbolic value")

    def fresh_bool(self, base="b"):
        return SymBool(z3.Bool(self.fresh("$" + base)))

    def token(self, v):
        k = (type(v).__name__, v.z.get_id())
        if k not in self.token_ids:
            t = "\u27e6%d\u27e7" % len(self.token_ids)
            self.token_ids[k] = t
            self.tokens[t] = v
        return self.token_ids[k]

    def name_const(self, s):
        if s not in self.names:
            c = z3.Const("nm:" + s, NameSort)
            for o in self.names.values():
                self.fact(o != c)
            self.names[s] = c
        return self.names[s]

    def name_contains(self, nm, x):
        f = z3.Function("contains:" + str(x), NameSort, z3.BoolSort())
        return self.decide(f(nm.z))

    sqrt_as_function = False        # a contract that compares roots only with roots

    def sqrt(self, v):
        if self.sqrt_as_function:
            return SymNum(z3.Function("SQRT", z3.RealSort(), z3.RealSort())(z3.simplify(toreal(zn(v)), som=True)), isint=False)
        r = self.fresh_real("sqrt")
        z = toreal(zn(v))
        self.fact(z3.Implies(z >= 0, z3.And(r.z >= 0, r.z * r.z == z)))
        return r

    def fp(self, v, exact):
        if not self.fp_mode or exact or not _isinstance(v, SymNum):
            return v
        if v.z.sort() == z3.IntSort():
            return v
        if known_int(simp(v.z)) and False:
            return v
        eps = z3.Q(1, 2 ** 53)
        r = self.fresh_real("fp")
        m = eps * z3.If(v.z >= 0, v.z, -v.z)
        self.fact(z3.And(r.z <= v.z + m, r.z >= v.z - m))
        return r

    # ---- obligations -----------------------------------------------------
    def lemmas(self, extra):
        """instances of floor monotonicity for the floor terms on this path"""
        out = []
        fl = self.floors
        if len(fl) > 40:
            return out
        for i in range(len(fl)):
            for j in range(i + 1, len(fl)):
                a, s = fl[i]
                b, t = fl[j]
                out.append(z3.Implies(a <= b, s <= t))
                out.append(z3.Implies(b <= a, t <= s))
        return out

    def noted(self, label):
        """an obligation discharged by entails()"""
        self.obligations.append(Obligation(label, "proved", secs=0.0, path=[d[0] for d in self.stack[: self.pos]]))

    def prove(self, label, goal, extra_lemmas=(), replay_goal=None, note=None):
        if self.restart_needed:
            return True     # this round's invariants do not hold: it is discarded
        g = zb(goal)
        g = z3.simplify(g)
        t0 = time.time()
        path = [d[0] for d in self.stack[: self.pos]]
        if z3.is_true(g):
            self.obligations.append(Obligation(label, "proved", secs=0.0, path=path))
            return True
        self.solver.push()
        try:
            self.solver.add(z3.Not(g))
            r = self._chk(timeout=min(self.timeout, 2000))
            if r != z3.unsat and (self.floors or extra_lemmas):
                # floor is abstracted by FL with t <= a < t + 1; make it exact
                if len(self.floors) <= 60:
                    for i, (_, t) in enumerate(self.floors):
                        self.solver.add(t == z3.ToReal(z3.Int("$fl%d" % i)))
                for l in self.lemmas(g):
                    self.solver.add(l)
                for l in extra_lemmas:
                    self.solver.add(l)
                r = self._chk(timeout=self.timeout)
            if r == z3.unsat:
                self.obligations.append(Obligation(label, "proved", secs=time.time() - t0, path=path))
                return True
            if r == z3.sat and len(self.floors) > 60:
                r = z3.unknown  # the model is one of the abstraction only
            if r == z3.sat and any("$h:" in z.sexpr() for z in [g] + self.pc):
                # may be due to a loop variable the invariants say too little about
                self.obligations.append(Obligation(label, "unknown", model=None, detail="loop variable without invariant",
                                                   secs=time.time() - t0, path=path))
                return False
            if r == z3.sat:
                m = self._model(replay_goal)
                self.obligations.append(Obligation(label, "refuted", model=m, detail=(note or str(g))[:2000],
                                                   secs=time.time() - t0, path=path))
                return False
            self.obligations.append(Obligation(label, "unknown", model=self._try_concrete_model(),
                                               detail="solver: " + self.solver.reason_unknown(),
                                               secs=time.time() - t0, path=path))
            return False
        finally:
            self.solver.pop()

    def _try_concrete_model(self):
        return dict(choices=dict(self.choices), values={})

    def _model(self, replay_goal=None):
        """a model turned into harness inputs; prefers round values"""
        best = None
        m0 = self.solver.model()
        reals = [v for (k, v, _) in self.inputs.values() if k == "real"]
        tries = []
        if replay_goal is not None:
            tries.append([z3.Not(zb(replay_goal))])
        tries.append([])
        for base in tries:
            for grid in (1, 100, 10000, None):
                cons = list(base)
                if grid is not None and reals:
                    for i, v in enumerate(reals):
                        k = z3.Int("$grid%d" % i)
                        cons.append(v * grid == z3.ToReal(k))
                elif grid is not None and grid != 1:
                    continue
                if not cons:
                    best = m0
                    break
                self.solver.push()
                self.solver.add(*cons)
                ok = self._chk(timeout=3000) == z3.sat
                if ok:
                    best = self.solver.model()
                self.solver.pop()
                if ok:
                    break
            if best is not None:
                break
        if best is None:
            best = m0
        vals = {}
        for nm, (kind, v, info) in self.inputs.items():
            x = best.eval(v, model_completion=True)
            if kind == "bool":
                vals[nm] = z3.is_true(x)
            elif kind == "int":
                vals[nm] = x.as_long() if z3.is_int_value(x) else 0
            elif kind == "enum":
                vals[nm] = x.as_long() if z3.is_int_value(x) else 0
            else:
                if z3.is_algebraic_value(x):
                    x = x.approx(20)
                vals[nm] = [x.numerator_as_long(), x.denominator_as_long()] if z3.is_rational_value(x) else [0, 1]
        return dict(choices=dict(self.choices), values=vals)

    def cover(self, label):
        """reachability behind the preconditions (vacuity guard)"""
        if self.covers.get(label):
            self.covers[label] += 1
            return
        r = self._chk(timeout=5000)
        if r == z3.sat or r == z3.unknown:
            self.covers[label] = 1
