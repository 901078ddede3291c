"""Mechanical AST instrumentation of the real source, redone on every run.

What it does (and all it does):
  * `for`/`while` loops inside functions become `while True` loops with a hook
    at the loop head (so that a loop over a symbolic sequence can be cut),
  * `and`/`or`/`not`/conditional expressions/chained comparisons/`is` become
    calls of runtime functions that keep symbolic truth values symbolic,
  * comprehensions over one iterable become calls of a runtime function, list displays inside functions
    create a subclass of list (rt.VList) that behaves as list does,
  * a bare `except:` becomes `except Exception:`,
  * after every import of numpy/math/heapq/copy/random/... the bound name is passed
    through `__rt.shim`.
Nothing is dropped; concrete values behave exactly as in CPython.
"""
import ast

RT = "_vc_rt_"
_cnt = [0]


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _rt(fn, *args):
    return ast.Call(func=ast.Attribute(value=_name(RT), attr=fn, ctx=ast.Load()),
                    args=list(args), keywords=[])


BASES = ("int", "float", "list", "tuple", "dict")      # names instrumented modules bind to stand-ins; as a base class the real one


def _attr(a, b):
    return ast.Attribute(value=ast.Attribute(value=_name(RT), attr=a, ctx=ast.Load()), attr=b, ctx=ast.Load())


def _lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                         kw_defaults=[], defaults=[]), body=e)


def _has(node, kinds):
    return any(isinstance(n, kinds) for n in ast.walk(node))


def _uses_super(node):
    return any(isinstance(n, ast.Name) and n.id in ("super", "__class__", "locals") for n in ast.walk(node))


BAD = (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)


def simple(e):
    """evaluation has no side effects and terminates (may raise)"""
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, ast.Attribute):
        return simple(e.value)
    if isinstance(e, ast.Subscript):
        return simple(e.value) and simple(e.slice)
    if isinstance(e, ast.UnaryOp):
        return simple(e.operand)
    if isinstance(e, ast.BinOp):
        return simple(e.left) and simple(e.right)
    if isinstance(e, ast.Compare):
        return simple(e.left) and all(simple(c) for c in e.comparators)
    if isinstance(e, ast.BoolOp):
        return all(simple(v) for v in e.values)
    if isinstance(e, (ast.Tuple, ast.List)):
        return all(simple(v) for v in e.elts)
    if isinstance(e, ast.IfExp):
        return simple(e.test) and simple(e.body) and simple(e.orelse)
    return False


def assigned(stmts):
    """local names bound anywhere in the statements (not in nested scopes)"""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef
        visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    self.visit_Name(w.target)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

    v = V()
    for s in stmts:
        v.visit(s)
    return out


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.depth = 0
        self.fn = []
        self.ord = [0]
        self.globals_nonlocals = [set()]

    # -- scopes
    def _fun(self, node, nm):
        self.depth += 1
        self.fn.append(nm)
        self.ord.append(0)
        gl = set()
        for w in ast.walk(node):
            if isinstance(w, (ast.Global, ast.Nonlocal)):
                gl.update(w.names)
        self.globals_nonlocals.append(gl)
        node.body = self._body(node.body) if isinstance(node.body, list) else self.visit(node.body)
        self.globals_nonlocals.pop()
        self.ord.pop()
        self.fn.pop()
        self.depth -= 1
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_FunctionDef(self, node):
        node.args = self.generic_visit(node.args)
        return self._fun(node, node.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        return self._fun(node, "<lambda>")

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        self.fn.append(node.name)
        node.body = self._body(node.body)
        self.fn.pop()
        self.depth = d
        node.bases = [_attr("builtins", b.id) if isinstance(b, ast.Name) and b.id in BASES else b for b in node.bases]
        return node

    # -- loops
    def _loop_id(self):
        self.ord[-1] += 1
        return "%s:%s#%d" % (self.mod, ".".join(self.fn), self.ord[-1])

    def _restore(self, var, names):
        out = []
        for n in names:
            if n in self.globals_nonlocals[-1]:
                continue
            out.append(ast.If(
                test=ast.Compare(left=ast.Constant(n), ops=[ast.In()],
                                 comparators=[ast.Attribute(value=_name(var), attr="hav", ctx=ast.Load())]),
                body=[ast.Assign(targets=[_name(n, ast.Store())],
                                 value=ast.Subscript(value=ast.Attribute(value=_name(var), attr="hav", ctx=ast.Load()),
                                                     slice=ast.Constant(n), ctx=ast.Load()))],
                orelse=[]))
        if not out:
            return []
        return [ast.If(test=ast.Attribute(value=_name(var), attr="hav", ctx=ast.Load()), body=out, orelse=[])]

    def visit_For(self, node):
        if not self.depth:
            return self.generic_visit(node)
        lid = self._loop_id()
        names = assigned(node.body)
        tnames = assigned([ast.Assign(targets=[node.target], value=ast.Constant(0))])
        it = self.visit(node.iter)
        body = self._body(node.body)
        orelse = self._body(node.orelse)
        _cnt[0] += 1
        v = "_vc_L%d_" % _cnt[0]
        m = "_vc_m%d_" % _cnt[0]
        pre = ast.Assign(targets=[_name(v, ast.Store())],
                         value=_rt("for_loop", it, ast.Constant(lid),
                                   ast.Constant(tuple(names)), ast.Constant(tuple(tnames))))
        head = [ast.Assign(targets=[_name(m, ast.Store())],
                           value=ast.Call(func=ast.Attribute(value=_name(v), attr="more", ctx=ast.Load()),
                                          args=[ast.Call(func=_name("locals"), args=[], keywords=[])],
                                          keywords=[]))]
        head += self._restore(v, sorted(set(names) | set(tnames)))
        head.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=_name(m)), body=[ast.Break()], orelse=[]))
        head.append(ast.Assign(targets=[node.target],
                               value=ast.Attribute(value=_name(v), attr="item", ctx=ast.Load())))
        done = ast.Expr(ast.Call(func=ast.Attribute(value=_name(v), attr="done", ctx=ast.Load()), args=[], keywords=[]))
        return [pre, ast.While(test=ast.Constant(True), body=head + body, orelse=[]), done] + self._else(m, orelse)

    def _else(self, m, orelse):
        """runs when the loop ended without break; outside the loop, as its break and continue are of the one around"""
        return [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=_name(m)), body=orelse, orelse=[])] if orelse else []

    def visit_While(self, node):
        if not self.depth:
            return self.generic_visit(node)
        lid = self._loop_id()
        names = assigned(node.body)
        test = self.visit(node.test)
        body = self._body(node.body)
        orelse = self._body(node.orelse)
        _cnt[0] += 1
        v = "_vc_W%d_" % _cnt[0]
        pre = ast.Assign(targets=[_name(v, ast.Store())],
                         value=_rt("while_loop", ast.Constant(lid), ast.Constant(tuple(names))))
        head = [ast.Expr(ast.Call(func=ast.Attribute(value=_name(v), attr="head", ctx=ast.Load()),
                                  args=[ast.Call(func=_name("locals"), args=[], keywords=[])], keywords=[]))]
        head += self._restore(v, names)
        m = "_vc_m%d_" % _cnt[0]
        head.append(ast.Assign(targets=[_name(m, ast.Store())], value=ast.Constant(True)))
        head.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test),
                           body=[ast.Assign(targets=[_name(m, ast.Store())], value=ast.Constant(False)), ast.Break()], orelse=[]))
        done = ast.Expr(ast.Call(func=ast.Attribute(value=_name(v), attr="done", ctx=ast.Load()), args=[], keywords=[]))
        return [pre, ast.While(test=ast.Constant(True), body=head + body, orelse=[]), done] + self._else(m, orelse)

    # -- expressions
    def visit_BoolOp(self, node):
        ok = self.depth and not _has(node, BAD) and not _uses_super(node)
        flags = [simple(v) for v in node.values]
        self.generic_visit(node)
        if not ok:
            return node
        fn = "and_" if isinstance(node.op, ast.And) else "or_"
        res = node.values[-1]
        pure = flags[-1]
        for v, f in zip(reversed(node.values[:-1]), reversed(flags[:-1])):
            res = _rt(fn, v, _lam(res), ast.Constant(pure))
            pure = pure and f
        return res

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.op, ast.Not):
            return _rt("not_", node.operand)
        return node

    def visit_IfExp(self, node):
        ok = self.depth and not _has(node, BAD) and not _uses_super(node)
        pure = simple(node.body) and simple(node.orelse)
        self.generic_visit(node)
        if not ok:
            return node
        return _rt("ifexp", node.test, _lam(node.body), _lam(node.orelse), ast.Constant(pure))

    def visit_Compare(self, node):
        if not self.depth:
            return self.generic_visit(node)
        mids = node.comparators[:-1]
        chain_ok = all(simple(m) for m in mids) and not _has(node, BAD) and not _uses_super(node)
        simp = simple(node)
        self.generic_visit(node)
        if len(node.ops) == 1:
            return self._cmp1(node.left, node.ops[0], node.comparators[0], node)
        if not chain_ok:
            return node
        import copy
        ops = [node.left] + node.comparators
        parts = [self._cmp1(copy.deepcopy(ops[i]), node.ops[i], copy.deepcopy(ops[i + 1]), None)
                 for i in range(len(node.ops))]
        res = parts[-1]
        for p in reversed(parts[:-1]):
            res = _rt("and_", p, _lam(res), ast.Constant(simp))
        return res

    def _cmp1(self, a, op, b, node):
        if isinstance(op, ast.Is):
            return _rt("is_", a, b)
        if isinstance(op, ast.IsNot):
            return _rt("not_", _rt("is_", a, b))
        if isinstance(op, ast.In):
            return _rt("in_", a, b)
        if isinstance(op, ast.NotIn):
            return _rt("not_", _rt("in_", a, b))
        return ast.Compare(left=a, ops=[op], comparators=[b])

    def visit_List(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load):
            return _rt("VList", node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if self.depth and isinstance(f, ast.Name) and f.id == "type" and len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred):
            return _rt("type_", node.args[0])
        if self.depth and isinstance(f, ast.Attribute) and f.attr == "sort" and isinstance(f.ctx, ast.Load) and not _uses_super(f):
            return ast.Call(func=_rt("sort_", f.value), args=node.args, keywords=node.keywords)
        if self.depth and isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(f.ctx, ast.Load) and not _uses_super(f):
            return ast.Call(func=_rt("join_", f.value), args=node.args, keywords=node.keywords)
        return node

    # -- comprehensions with one generator and plain targets
    def _comp(self, node, kind):
        if not self.depth or len(node.generators) != 1 or _has(node, BAD) or _uses_super(node):
            return self.generic_visit(node)
        g = node.generators[0]
        if g.is_async:
            return self.generic_visit(node)
        t = g.target
        if isinstance(t, ast.Name):
            names, tup = [t.id], False
        elif isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts):
            names, tup = [x.id for x in t.elts], True
            names = [n if n not in names[i + 1:] else "_vc_u%d_" % i for i, n in enumerate(names)]    # the last one binds
        else:
            return self.generic_visit(node)
        self.generic_visit(node)

        def lam(e):
            args = [ast.arg(arg=n) for n in names]
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[],
                                                 kw_defaults=[], defaults=[]), body=e)
        conds = ast.Tuple(elts=[lam(c) for c in g.ifs], ctx=ast.Load())
        if kind == "dict":
            elt = ast.Tuple(elts=[lam(node.key), lam(node.value)], ctx=ast.Load())
        else:
            elt = lam(node.elt)
        return _rt("comp", ast.Constant(kind), g.iter, conds, elt, ast.Constant(tup))

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_SetComp(self, n):
        return self._comp(n, "set")

    def visit_DictComp(self, n):
        return self._comp(n, "dict")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = _name("Exception")
        return node

    # -- imports
    SHIM = {"numpy", "math", "heapq", "random", "bisect", "statistics", "functools", "itertools", "operator"}

    def visit_Import(self, node):
        out = [node]
        for a in node.names:
            if a.name.split(".")[0] in self.SHIM and (a.asname or "." not in a.name):
                nm = a.asname or a.name
                out.append(ast.Assign(targets=[_name(nm, ast.Store())], value=_rt("shim", _name(nm))))
        return out

    def visit_ImportFrom(self, node):
        out = [node]
        if node.module and node.level == 0 and node.module.split(".")[0] in self.SHIM:
            for a in node.names:
                if a.name == "*":
                    continue
                nm = a.asname or a.name
                out.append(ast.Assign(targets=[_name(nm, ast.Store())],
                                      value=_rt("shim_attr", ast.Constant(node.module), ast.Constant(a.name), _name(nm))))
        return out


def instrument(src, modname, filename):
    tree = ast.parse(src, filename)
    tr = Instr(modname)
    tree.body = tr._body(tree.body)
    # keep `from __future__` first
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")
