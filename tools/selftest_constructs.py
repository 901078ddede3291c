"""Language constructs, run natively and instrumented: the same results."""
import os, sys, types
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from vc import rt, transform


def load(src, name):
    m = types.ModuleType(name)
    m.__dict__["_vc_rt_"] = rt
    for k, v in rt.SHADOW.items():
        m.__dict__[k] = v
    sys.modules[name] = m
    exec(transform.instrument(src, name, "<%s>" % name), m.__dict__)
    return m


SN = r'''
def a1(xs):
    out=[]
    for i,(a,*b) in enumerate(xs):
        if a==3: continue
        if a==9: break
        out.append((i,a,b))
    else:
        out.append("else")
    return out
def a2(n):
    return [y for x in range(n) if (y := x*x) % 2]
def a3(x):
    match x:
        case {"a": a, **r}: return ("d", a, r)
        case [1, *t] if len(t)>1: return ("l", t)
        case (1|2) as k: return ("k", k)
        case _: return None
def a4(n):
    c=0
    def f():
        nonlocal c
        for _ in range(n):
            c+=1
        return c
    return f(), c
def a5(n):
    for i in range(n):
        try:
            if i==2: continue
            if i==4: break
            yield i
        finally:
            yield -i
def a6(**k):
    d={**k, "z":1}
    d2={v:k2 for k2,v in d.items()}
    return d2, {x for x in d}, sorted(d, key=lambda q: d[q], reverse=True)
def a7(x):
    return 0 < x < 10 != 5, not x, x and 5, x or 7, (x if x else -1), f"{x:>5}|{x!r}"
class K:
    __p = 3
    L = [i*2 for i in range(3)]
    M = {n: len(n) for n in ("a","bb")}
    def __init__(self): self.__q = [self.__p for _, _ in [(1,2),(3,4)]]
    @property
    def q(self): return self.__q
    @classmethod
    def mk(cls): return cls()
    def __eq__(self, o): return isinstance(o, K) and self.__q == o.__q
class K2(K):
    def __init__(self):
        super().__init__()
        self.x = [super(K2, self).q for _ in range(2)]
    @property
    def q(self): return super().q
def a8():
    k=K2.mk(); return k.q, k.x, K.L, K.M, k==K2(), k!=K()
def a9(x=[], *a, y: int = 3, **k):
    x = list(x); x += a; x[1:2] = [9,9]; x[-1] += 5; del x[0]
    return x, y, k, *a
def b1(m):
    i=0
    while True:
        i+=1
        if i>m: break
        if i%2: continue
        while i<m and i%5: i+=1
        else: i+=1
    return i
def b2(xs):
    import collections
    d=collections.defaultdict(list)
    for k,v in xs: d[k].append(v)
    return dict(d), max(xs, key=lambda t:t[1]), min(xs), sum(v for _,v in xs), any(v>3 for _,v in xs), all(v for _,v in xs)
def b3():
    from dataclasses import dataclass, field
    @dataclass(frozen=True, order=True)
    class D:
        a: int
        b: list = field(default_factory=list, compare=False)
    return sorted([D(3),D(1)]), D(1)==D(1), repr(D(2))
def b4(x):
    with open("/dev/null") as f, open("/dev/zero","rb") as g:
        r = f.read(), g.read(2)
    try:
        int(x)
    except (ValueError, TypeError) as e:
        return r, type(e).__name__
    else:
        return r, "ok"
    finally:
        r = None
def b5(xs):
    it = iter(xs)
    first = next(it, None)
    rest = [*it]
    z = list(zip(rest, rest[1:]))
    return first, rest, z, tuple(reversed(rest)), list(map(lambda q: q+1, rest)), list(filter(None, rest)), dict(enumerate(rest)), round(2.567,1), abs(-3), divmod(7,2), pow(2,3), isinstance(3,(int,str)), len(rest), bool(rest), float("1.5"), int("12"), str(5), type(rest) in (list,), isinstance(rest, list), set(rest)|{1}
def b6(n):
    def rec(k): return 1 if k<=1 else k*rec(k-1)
    return rec(n), [[i*j for j in range(i)] for i in range(n)], {(i,j) for i in range(2) for j in range(2)}, sum(i for i in range(n) if i%2 if i>1)
def b7(xs):
    a, (b, *c), d = xs
    a, b = b, a
    c[0], d = d, c[0]
    (e := a+1)
    return a,b,c,d,e
def b8(s):
    global G
    G = 5
    lst = sorted(s); lst.sort(reverse=True); lst.insert(0,"q"); lst.extend("zz"); lst.pop(); lst.remove("q"); lst2=lst.copy(); lst2.reverse()
    return lst, lst2, lst.index(lst[1]), lst.count("a"), lst*2, lst+["k"], G, "a" in lst, "a" not in lst, ",".join(x for x in lst), lst==lst2, lst<lst2
def c1(x: list[int], y: dict[str, tuple[int, ...]] | None = None, z: "list | None" = None) -> tuple[int, float]:
    t: list[int] = []
    t.extend(x)
    return type(x) is list, type(x) == list, type(3) is int, type(2.5) is float, type(True) is bool, type(x).__name__, type("a") is str, type(()) in (tuple, list), isinstance(x, type([])), type(x)((1,2)), int.bit_length(5), dict.fromkeys("ab"), float.fromhex("0x1p3"), list.__name__, isinstance(True, int), callable(list)
import enum, collections, typing, functools
class E1(int, enum.Enum):
    A=1
    B=2
class E2(enum.IntEnum):
    A=1
class D1(dict):
    def __missing__(self, k): return k*2
class L1(list):
    def top(self): return self[-1]
class T1(tuple):
    def __new__(cls, a, b): return super().__new__(cls, (a, b))
class F1(float): pass
class N1(typing.NamedTuple):
    a: int
    b: list[int] = []
def c2():
    d=D1(a=1); l=L1([1,2]); t=T1(1,2); dd=collections.defaultdict(int); dd["x"]+=1; dl=collections.defaultdict(list); dl[1].append(2); dl[1].sort()
    return E1.A==1, E1.B.value, E2.A+1, d["b"], d["a"], l.top(), len(l), sorted(l, reverse=True), t, F1(2)+1, N1(1), dict(dd), dict(dl), isinstance(d, dict), isinstance(l, list), isinstance(t, tuple), functools.reduce(lambda a,b:a+b, l, 0), collections.Counter("aab").most_common(1), max(d.values()), list(d.items()), [*map(int, "12")], sorted(["b","a"], key=str), tuple(x for x in l), min((3,1),(2,5)), sum([[1],[2]], []), list(zip(*[[1,2],[3,4]]))
def c3(x):
    match x:
        case int() as y if y > 3: return "int", y
        case str(): return "str"
        case [a, b]: return a, b
        case N1(a=1): return "n1"
        case E2.A: return "e2"
        case None: return "none"
    return "?"
def c4(n):
    i = 0
    out = []
    while i < n:
        i += 1
        for j in range(i):
            if j == 2: break
        else:
            out.append(i); continue
        out.append((i, j))
        while j:
            j -= 1
            if j == 0: break
        else:
            out.append("never")
    else:
        out.append("end")
    return out
def c5(a, b):
    x = a if not (a and b) else b
    return x, a is None, not a or b, [k for k in (a, b) if k and k != 1], {**{"a": a}, **({"b": b} if b else {})}, lambda q=a: q
def c6(xs):
    s = set()
    s |= {x for x in xs}
    s -= {1}
    d = {}
    d.setdefault("a", []).append(1)
    d["a"] += [2]
    d |= {"b": 1}
    (a, b), c = (1, 2), 3
    [p, q] = xs[:2]
    return s, d, a, b, c, p, q, xs[::-1], xs[-2:], (lambda *a, **k: (a, k))(*xs, k=1), print
def b9(n):
    for i in range(n):
        for j in range(n):
            if i*j == 6: break
        else:
            continue
        return i, j
    return None
'''
CALLS = ["a1([(1,2),(3,),(4,5,6),(9,),(7,)])","a1([(1,),(2,2)])","a2(7)","a3({'a':1,'b':2})","a3([1,2,3])","a3(2)","a3('x')","a4(4)","list(a5(7))","a6(p=2,q=3)","a7(0)","a7(5)","a7(50)","a8()","a9([1,2,3],4,5,y=2,u=1)","b1(13)","b2([('a',1),('b',5),('a',3)])","b3()","b4('x')","b4('3')","b5([1,2,0,3])","b6(5)","b7((1,(2,3,4),5))","b8('bca')","b9(4)","c1([1])","c2()","c3(5)","c3(2)","c3('a')","c3([1,2])","c3(N1(1))","c3(None)","c4(6)","c5(1,2)[:5]","c5(0,2)[:5]","c6([1,2,3])[:-1]","b9(2)"]
bad = 0
n = {"__name__": "snips0"}
exec(SN, n)
m = load(SN, "snips")
for c in CALLS:
    try: w = eval(c, n)
    except Exception as e: w = repr(e)
    try: g = eval(c, m.__dict__)
    except Exception as e: g = repr(e)
    if repr(w).replace('snips0', 'snips') != repr(g):
        bad += 1
        print("DIFF", c, w, g)
print("constructs: %d compared, %d differ" % (len(CALLS), bad))
sys.exit(1 if bad else 0)
