"""Loads the current source of /repo/solidspy into the verifier.

The text that is verified is the text that runs: every module file is parsed
on every run, mechanically instrumented (see Instr) and executed by CPython over
symbolic values.  What the instrumentation changes:
  * `for` loops inside functions take their iterator through `__vf.it`, which
    hands concrete iterables back unchanged and summarises symbolic ones;
  * comprehensions over one iterable and list/dict/set displays go through
    `__vf` constructors with the same meaning;
  * imports are resolved to the models in vf/symnp.py (NumPy), vf/stubs.py
    (SciPy, Matplotlib, datetime, meshio) or to other instrumented modules;
  * the builtins that would force a symbolic value are replaced by versions
    that accept it;
  * bare `except:` becomes `except Exception:` so that engine signals pass.
Docstrings, `if __name__ == "__main__"` blocks and type annotations have no
effect on the result.  Nothing else is dropped.
"""
import ast
import builtins
import functools
import importlib
import itertools
import math
import numbers
import os
import types

from vf import terms as tm, symnp
from vf.terms import T, Unsupported, R, I, B
from vf.symnp import NP, JArr, conv

REPO = os.environ.get("VF_REPO", "/repo")
_code = {}


def _own(node):
    """the nodes of a function's body, those of inner functions left out"""
    todo = list(node.body)
    while todo:
        x = todo.pop(0)
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(x))


class Instr(ast.NodeTransformer):
    def __init__(self):
        self.fstack = []
        self.lstack = []
        self.loopno = 0
        self.n = 0

    # ---- functions
    def _locals(self, node):
        names, glob = [], set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            names.append(x.arg)

        class V(ast.NodeVisitor):
            def visit_FunctionDef(s, n):
                names.append(n.name)

            visit_AsyncFunctionDef = visit_FunctionDef

            def visit_ClassDef(s, n):
                names.append(n.name)

            def visit_Lambda(s, n):
                pass

            def _comp(s, n):
                pass
            visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.append(n.id)

            def visit_Global(s, n):
                glob.update(n.names)

            def visit_Nonlocal(s, n):
                glob.update(n.names)

            def visit_ExceptHandler(s, n):
                if n.name:
                    glob.add(n.name)
                s.generic_visit(n)

            def visit_Import(s, n):
                glob.update((x.asname or x.name).split(".")[0] for x in n.names)
            visit_ImportFrom = visit_Import
        v = V()
        for st in node.body:
            v.visit(st)
        return sorted(set(names) - glob)

    def _eager(self, node):
        """a generator function whose yields are statements becomes a function of the list of its values"""
        own = list(_own(node))
        ys = [x for x in own if isinstance(x, (ast.Yield, ast.YieldFrom))]
        st = [x for x in own if isinstance(x, ast.Expr) and isinstance(x.value, (ast.Yield, ast.YieldFrom))]
        if not ys or len(st) != len(ys) or any(isinstance(x, ast.While) for x in own) or any(
                isinstance(x, ast.Return) and x.value is not None for x in own):
            return
        def name(ctx):
            return ast.copy_location(ast.Name(id="__vf_gen", ctx=ctx), node)
        for x in st:
            y = x.value
            v = y.value or ast.copy_location(ast.Constant(value=None), y)
            f = "append" if isinstance(y, ast.Yield) else "extend"
            x.value = ast.copy_location(ast.Call(func=ast.copy_location(ast.Attribute(
                value=name(ast.Load()), attr=f, ctx=ast.Load()), y), args=[v], keywords=[]), y)
        fin = lambda: self._call("gen", [name(ast.Load())], node)
        for x in own:
            if isinstance(x, ast.Return):
                x.value = fin()
        node.body = [ast.copy_location(ast.Assign(targets=[name(ast.Store())], value=ast.copy_location(
            ast.List(elts=[], ctx=ast.Load()), node)), node)] + node.body + [
            ast.copy_location(ast.Return(value=fin()), node)]

    def visit_FunctionDef(self, node):
        self._eager(node)
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _own(node))
        loc = self._locals(node)
        self.n += 1
        tag = "%d" % self.n
        self.fstack.append((tag, [False], isgen))
        decos = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        body = []
        for st in node.body:
            r = self.visit(st)
            body += r if isinstance(r, list) else [r]
        used = self.fstack.pop()[1][0]
        node.decorator_list = decos
        node.returns = None
        for x in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            x.annotation = None
        if used:
            doc = []
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                doc, body = body[:1], body[1:]
            src = "def __vf_get%s():\n    __vf_d = {}\n" % tag
            for v in loc:
                src += "    try:\n        __vf_d[%r] = %s\n    except NameError:\n        pass\n" % (v, v)
            src += "    return __vf_d\n"
            src += "def __vf_set%s(__vf_d):\n    %s\n" % (tag, "nonlocal " + ", ".join(loc) if loc else "pass")
            for v in loc:
                src += ("    if %r in __vf_d:\n        %s = __vf_d[%r]\n    else:\n        try:\n            del %s\n"
                        "        except NameError:\n            pass\n") % (v, v, v, v)
            pre = ast.parse(src).body
            for p in pre:
                for x in ast.walk(p):
                    if hasattr(x, "lineno"):
                        x.lineno = x.end_lineno = node.lineno
            body = doc + pre + body
        node.body = body
        return node

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        self.fstack.append(("lambda", [False], False))
        self.generic_visit(node)
        self.fstack.pop()
        return node

    def visit_ClassDef(self, node):
        self.fstack.append(("class", [False], False))
        self.generic_visit(node)
        self.fstack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))

    # ---- starred targets: a, *b, c = x  ->  a, b, c = __vf.unstar(x, 1, 1)
    def visit_Assign(self, node):
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)) and sum(
                isinstance(e, ast.Starred) for e in t.elts) == 1:
            k = [isinstance(e, ast.Starred) for e in t.elts].index(True)
            n = len(t.elts)
            t.elts[k] = t.elts[k].value
            node.value = self._call("unstar", [node.value, ast.copy_location(ast.Constant(value=k), node),
                                               ast.copy_location(ast.Constant(value=n - k - 1), node)], node)
            ast.fix_missing_locations(node)
        self.generic_visit(node)
        return node

    # ---- loops
    def visit_For(self, node):
        if isinstance(node.target, (ast.Tuple, ast.List)) and any(isinstance(e, ast.Starred) for e in node.target.elts):
            nm = "__vf_s%d" % node.lineno
            node.body.insert(0, ast.copy_location(ast.Assign(targets=[node.target], value=ast.Name(
                id=nm, ctx=ast.Load())), node))
            node.target = ast.copy_location(ast.Name(id=nm, ctx=ast.Store()), node)
            ast.fix_missing_locations(node)
        if not self.fstack or self.fstack[-1][0] in ("lambda", "class"):
            self.generic_visit(node)
            return node
        tag, used, isgen = self.fstack[-1][:3]
        self.loopno += 1
        no = self.loopno
        node.iter = self.visit(node.iter)
        self.lstack.append((len(self.fstack), no))
        node.body = self._stmts(node.body)
        self.lstack.pop()
        node.orelse = self._stmts(node.orelse)
        if isgen:
            return node
        used[0] = True
        node.iter = ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name(id="__vf", ctx=ast.Load()), attr="it", ctx=ast.Load()),
            args=[node.iter, ast.Name(id="__vf_get" + tag, ctx=ast.Load()),
                  ast.Name(id="__vf_set" + tag, ctx=ast.Load()), ast.Constant(value=no),
                  ast.Constant(value=node.lineno)], keywords=[]), node.iter)
        return node

    def _stmts(self, body):
        out = []
        for st in body:
            r = self.visit(st)
            out += r if isinstance(r, list) else [r]
        return out

    def visit_While(self, node):
        f = counting_while(node)
        if f is not None and self.fstack and self.fstack[-1][0] not in ("lambda", "class"):
            v, hi = f
            body = node.body[:-1] or [ast.copy_location(ast.Pass(), node)]
            nm = "__vf_w%d" % node.lineno
            def name(x, ctx):
                return ast.copy_location(ast.Name(id=x, ctx=ctx), node)
            first = ast.copy_location(ast.Assign(targets=[name(nm, ast.Store())], value=name(v, ast.Load())), node)
            rng = self._call("wrange", [name(nm, ast.Load()), hi], node)
            loop = ast.copy_location(ast.For(target=name(v, ast.Store()), iter=rng, body=body, orelse=[]), node)
            after = ast.copy_location(ast.Assign(targets=[name(v, ast.Store())], value=self._call(
                "wend", [name(nm, ast.Load()), hi], node)), node)
            return [first, self.visit(loop), after]
        node.test = self.visit(node.test)
        self.lstack.append((len(self.fstack), None))
        node.body = self._stmts(node.body)
        self.lstack.pop()
        node.orelse = self._stmts(node.orelse)
        return node

    def _inloop(self):
        return [no for d, no in self.lstack if d == len(self.fstack) and no is not None]

    def visit_Break(self, node):
        if not self.lstack or self.fstack[-1][2] or self.lstack[-1][1] is None or not self._inloop():
            return node
        return [self._sig("brk", self.lstack[-1][1], node), node]

    def visit_Return(self, node):
        self.generic_visit(node)
        if not self.fstack or self.fstack[-1][0] in ("lambda", "class") or self.fstack[-1][2] or not self._inloop():
            return node
        if node.value is None:
            return [self._sig("ret", 0, node), node]
        nm = "__vf_r"
        a = ast.copy_location(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=node.value), node)
        r = ast.copy_location(ast.Return(value=ast.Name(id=nm, ctx=ast.Load())), node)
        return [a, self._sig("ret", 0, node), r]

    def _sig(self, what, no, node):
        tag = self.fstack[-1][0]
        return ast.copy_location(ast.Expr(ast.Call(
            func=ast.Attribute(value=ast.Name(id="__vf", ctx=ast.Load()), attr=what, ctx=ast.Load()),
            args=[ast.Name(id="__vf_get" + tag, ctx=ast.Load()), ast.Constant(value=no)], keywords=[])), node)

    # ---- displays
    def _call(self, attr, args, node):
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name(id="__vf", ctx=ast.Load()), attr=attr, ctx=ast.Load()),
            args=args, keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "zip" and len(node.args) == 1 and isinstance(
                node.args[0], ast.Starred) and not node.keywords:
            return self._call("zipstar", [node.func, node.args[0].value], node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self._call("list", [node], node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            return self._call("dictd", [node], node)
        prs = ast.copy_location(ast.List(elts=[ast.copy_location(ast.Tuple(elts=[k, v], ctx=ast.Load()), node)
                                               for k, v in zip(node.keys, node.values)], ctx=ast.Load()), node)
        return self._call("dict", [prs], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call("set", [ast.copy_location(ast.List(elts=node.elts, ctx=ast.Load()), node)], node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and (isinstance(node.left, ast.JoinedStr) or isinstance(
                node.left, ast.Constant) and isinstance(node.left.value, str)):
            return self._call("fmt", [node.left, node.right], node)
        return node

    def _comp(self, node, kind):
        self.generic_visit(node)
        if any(g.is_async for g in node.generators):
            return node
        if kind == "dict":
            elt = ast.copy_location(ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node)
        else:
            elt = node.elt
        for depth, g in enumerate(reversed(node.generators)):
            def lam(body):
                return ast.copy_location(ast.Lambda(
                    args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="__vf_x")], kwonlyargs=[],
                                       kw_defaults=[], defaults=[]),
                    body=self._bindto(g.target, body)), node)
            conds = ast.copy_location(ast.List(elts=[lam(c) for c in g.ifs], ctx=ast.Load()), node)
            elt = self._call("comp", [g.iter, lam(elt), conds, ast.copy_location(
                ast.Constant(value=depth > 0), node)], node)
        return self._call("fincomp", [elt, ast.copy_location(ast.Constant(value=kind), node)], node)

    def _bindto(self, target, body):
        """expression: body with target bound to __vf_x"""
        if isinstance(target, ast.Name):
            return ast.copy_location(ast.Call(func=ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=target.id)], kwonlyargs=[],
                                   kw_defaults=[], defaults=[]), body=body),
                args=[ast.Name(id="__vf_x", ctx=ast.Load())], keywords=[]), body)
        if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(t, ast.Name) for t in target.elts):
            return ast.copy_location(ast.Call(func=ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=t.id) for t in target.elts], kwonlyargs=[],
                                   kw_defaults=[], defaults=[]), body=body),
                args=[ast.Starred(value=ast.Call(
                    func=ast.Attribute(value=ast.Name(id="__vf", ctx=ast.Load()), attr="unpack", ctx=ast.Load()),
                    args=[ast.Name(id="__vf_x", ctx=ast.Load()), ast.Constant(value=len(target.elts))],
                    keywords=[]), ctx=ast.Load())], keywords=[]), body)
        # nested targets: recursive lambdas
        names = []
        exprs = []

        def walk(t, e):
            if isinstance(t, ast.Name):
                names.append(t.id)
                exprs.append(e)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for i, s in enumerate(t.elts):
                    walk(s, ast.Subscript(value=ast.Call(
                        func=ast.Attribute(value=ast.Name(id="__vf", ctx=ast.Load()), attr="unpack", ctx=ast.Load()),
                        args=[e, ast.Constant(value=len(t.elts))], keywords=[]),
                        slice=ast.Constant(value=i), ctx=ast.Load()))
            else:
                raise Unsupported("comprehension target")
        walk(target, ast.Name(id="__vf_x", ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[],
                               kw_defaults=[], defaults=[]), body=body), args=exprs, keywords=[]), body)

    def _hasyield(self, node):
        return any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(node))

    def visit_ListComp(self, node):
        return node if self._hasyield(node) else self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return node if self._hasyield(node) else self._comp(node, "gen")

    def visit_SetComp(self, node):
        return node if self._hasyield(node) else self._comp(node, "set")

    def visit_DictComp(self, node):
        return node if self._hasyield(node) else self._comp(node, "dict")

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.copy_location(ast.Name(id="Exception", ctx=ast.Load()), node)
        return node

    CATCHERS = {"Exception", "BaseException", "LookupError", "IndexError", "KeyError", "ArithmeticError", "ZeroDivisionError",
                "FloatingPointError", "OverflowError"}

    def visit_Try(self, node):
        """an error the model states as an obligation (index in range, divisor not zero) must
        not be one the handlers catch"""
        self.generic_visit(node)
        if any(isinstance(x, ast.Name) and x.id in self.CATCHERS or isinstance(x, ast.Attribute)
               for h in node.handlers for x in ast.walk(h.type)):
            call = ast.Call(ast.Attribute(ast.Name("__vf", ast.Load()), "guarded", ast.Load()), [], [])
            node.body = [ast.copy_location(ast.With([ast.withitem(call, None)], node.body), node.body[0])]
            ast.fix_missing_locations(node)
        return node

    def visit_If(self, node):
        if not self.fstack and isinstance(node.test, ast.Compare) and isinstance(node.test.left, ast.Name) \
                and node.test.left.id == "__name__":
            return ast.copy_location(ast.Pass(), node)
        self.generic_visit(node)
        return node


def source(name):
    with open(os.path.join(REPO, "solidspy", name + ".py"), encoding="utf-8") as f:
        return f.read()


def code(name):
    c = _code.get(name)
    if c is None:
        try:
            tree = ast.parse(source(name))
        except (OSError, SyntaxError) as e:
            raise Unsupported("module %s: %s" % (name, e))
        tree = Instr().visit(tree)
        ast.fix_missing_locations(tree)
        c = _code[name] = compile(tree, os.path.join(REPO, "solidspy", name + ".py"), "exec")
    return c


# ------------------------------------------------------------------ builtins
class VDict(dict):
    """dictionary whose keys may be looked up with symbolic values"""
    def __getitem__(self, k):
        return self._find(k, None)

    def _find(self, k, default, has=False):
        if isinstance(k, JArr) or type(k).__name__ in ("SArr", "VList"):
            raise TypeError("unhashable type")
        k = _const(k)
        if isinstance(k, T) or (isinstance(k, tuple) and any(isinstance(x, T) for x in k)):
            for q in self.keys():
                if keyeq(k, q):
                    return True if has else dict.__getitem__(self, q)
            if has:
                return False
            if default is None:
                raise KeyError(k)
            return default[0]
        for q in self.keys():
            if isinstance(q, T) and keyeq(k, q):
                return True if has else dict.__getitem__(self, q)
        if has:
            return dict.__contains__(self, k)
        if default is None:
            return dict.__getitem__(self, k)
        return dict.get(self, k, default[0])

    def get(self, k, d=None):
        return self._find(k, (d,))

    def __contains__(self, k):
        return self._find(k, None, True)

    def __setitem__(self, k, v):
        k = _const(k)
        if LOOPS:
            raise Unsupported("dictionary updated inside a symbolic loop")
        if isinstance(k, T):
            for q in self.keys():
                if keyeq(k, q):
                    dict.__setitem__(self, q, v)
                    return
        dict.__setitem__(self, k, v)

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def pop(self, *a):
        raise Unsupported("dict.pop")

    popitem = clear = __delitem__ = __ior__ = pop

    def update(self, *a, **k):
        for x in a:
            for q, v in (x.items() if isinstance(x, dict) else x):
                self[q] = v
        for q, v in k.items():
            self[q] = v


LOOPS = []


def _const(k):
    if isinstance(k, T) and k.op == "const":
        q = k.args[0]
        return int(q) if q.denominator == 1 else float(q)
    return k


def keyeq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(keyeq(x, y) for x, y in zip(a, b))
    if isinstance(a, T) or isinstance(b, T):
        return bool(tm._co(a) == b) if tm._co(a) is not None and tm._co(b) is not None else False
    return a == b


def _int(x=0, *a):
    if isinstance(x, (T, JArr)):
        return conv(x, "i")
    return int(x, *a)


def _float(x=0.0):
    if isinstance(x, (T, JArr)):
        return conv(x, "f")
    return float(x)


def _boolf(x=False):
    return bool(x)


def _issub(x, cls):
    from vf.symarr import SArr
    cl = cls if isinstance(cls, tuple) else (cls,)
    for c in cl:
        if isinstance(c, tuple):
            if _issub(x, c):
                return True
        elif c in (float, _FLOAT) or c is numbers.Real or c is numbers.Number:
            if isinstance(x, float) or (isinstance(x, T) and (x.sort == R or c in (numbers.Real, numbers.Number))):
                return True
            if c in (numbers.Real, numbers.Number) and isinstance(x, int):
                return True
        elif c in (int, _INT) or c is numbers.Integral:
            if isinstance(x, int) or (isinstance(x, T) and x.sort == I):
                return True
        elif isinstance(c, symnp.DtCls):
            if isinstance(x, T):
                if {R: "f", I: "i", B: "b"}[x.sort] == c.k:
                    return True
        elif c is JArr:
            if isinstance(x, (JArr, SArr)):
                return True
        elif isinstance(c, _Cls) and c.real in (set, frozenset):
            if type(x).__name__ in ("VSet", "SSet") or isinstance(x, c.real):
                return True
        elif c is list or c is _LIST:
            if isinstance(x, list) or type(x).__name__ == "VList":
                return True
        elif isinstance(c, type):
            if isinstance(x, c):
                return True
        else:
            raise Unsupported("isinstance against %r" % (c,))
    return False


class _Cls:
    """callable stand-in for a builtin type"""
    def __init__(self, real, f):
        self.real, self.f = real, f
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)

    def __getattr__(self, k):
        return getattr(self.real, k)


_INT = _Cls(int, _int)
_FLOAT = _Cls(float, _float)
_BOOL = _Cls(bool, _boolf)


def _mklist(*a):
    from vf.symarr import VList
    if not a:
        return VList([])
    x = a[0]
    if hasattr(x, "to_vlist"):
        return x.to_vlist()
    return VList(list(x))


_LIST = _Cls(list, _mklist)


def _type(x, *a):
    if a:
        raise Unsupported("type() with three arguments")
    if isinstance(x, T):
        return {R: float, I: int, B: bool}[x.sort]
    if type(x).__name__ == "VList":
        return list
    if type(x).__name__ == "SArr":
        return JArr
    if type(x).__name__ == "CooMat":
        from vf import symarr
        return getattr(symarr, x.fmt)
    return type(x)


def _len(x):
    if hasattr(x, "slen"):
        return x.slen()
    return len(x)


def _range(*a):
    if any(isinstance(x, T) and x.op != "const" for x in a):
        from vf.symarr import SRange
        return SRange(*a)
    return range(*[x.__index__() for x in a])


def _enumerate(x, start=0):
    if hasattr(x, "sym_enumerate"):
        return x.sym_enumerate(start)
    return enumerate(x, start)


def _zip(*xs, **k):
    if any(hasattr(x, "sym_len") for x in xs):
        from vf.symarr import szip
        return szip(xs)
    return zip(*xs)


def _minmax(which):
    def f(*a, key=None, default=None):
        if key is not None:
            return (min if which == "min" else max)(*a, key=key)
        xs = a[0] if len(a) == 1 else a
        if hasattr(xs, "sym_len"):
            from vf import symarr
            return symarr.extreme(xs, None, which)
        xs = list(xs)
        if not xs:
            if default is not None:
                return default
            raise ValueError("%s() arg is an empty sequence" % which)
        if any(isinstance(x, T) for x in xs):
            g = symnp.smin if which == "min" else symnp.smax
            return functools.reduce(g, xs)
        return (min if which == "min" else max)(xs)
    return f


def _sum(x, start=0):
    if hasattr(x, "sym_len"):
        from vf import symarr
        return symarr.sum_(x, 0 if getattr(x, "ndim", 1) > 1 else None) + start
    s = start
    for v in x:
        s = s + v
    return s


def _any(x):
    if hasattr(x, "sym_len"):
        from vf import symarr
        return symarr.quant(x, None, "any")
    for v in x:
        if v:
            return True
    return False


def _all(x):
    if hasattr(x, "sym_len"):
        from vf import symarr
        return symarr.quant(x, None, "all")
    for v in x:
        if not v:
            return False
    return True


def _mkset(*a):
    from vf import symarr
    if a and isinstance(a[0], symarr.VSet):
        return a[0].copy()
    if a and isinstance(a[0], symarr.VList):
        r = symarr.VSet()
        r.lst = a[0].copy()
        if r.lst.mode == "list":
            r = symarr.mkset(list(list.__iter__(r.lst)))
        return r
    if a and hasattr(a[0], "sym_len"):
        return symarr.SSet.of(a[0])
    return symarr.mkset(list(a[0]) if a else [])


def _mkdict(*a, **k):
    d = VDict()
    if a:
        src = a[0].items() if isinstance(a[0], dict) else a[0]
        for x, y in src:
            d[x] = y
    for x, y in k.items():
        d[x] = y
    return d


def _mktuple(x=()):
    if hasattr(x, "sym_len"):
        raise Unsupported("tuple of symbolic length")
    return tuple(x)


def _sorted(x, key=None, reverse=False):
    if hasattr(x, "sym_len"):
        from vf import symarr
        return symarr.sorted_(x, key, reverse)
    xs = list(x)
    if any(isinstance(v, T) and v.op != "const" for v in xs):
        raise Unsupported("sorting symbolic values")
    from vf.symarr import VList
    return VList(sorted(xs, key=key, reverse=reverse))


def _reversed(x):
    if hasattr(x, "sym_reversed"):
        return x.sym_reversed()
    if hasattr(x, "sym_len"):
        raise Unsupported("reversed of symbolic length")
    return reversed(list(x))


def _map(f, *xs):
    if any(hasattr(x, "sym_len") for x in xs):
        if len(xs) == 1:
            return VF.fincomp(VF.comp(xs[0], f, [], False), "gen")
        raise Unsupported("map over symbolic sequences")
    return map(f, *xs)


def _filter(f, x):
    if hasattr(x, "sym_len"):
        raise Unsupported("filter over symbolic sequences")
    return filter(f, x)


def _print(*a, **k):
    pass


def _abs(x):
    return abs(x)


def _open(*a, **k):
    raise Unsupported("open()")


def _str(*a):
    if a and isinstance(a[0], T):
        return "<sym%d>" % a[0].id
    return str(*a)


def _repr(x):
    return _str(x)


def _isin(x, cls):
    return _issub(x, cls)


def _pow(a, b, *m):
    return pow(a, b, *m)


def _divmod(a, b):
    return a // b, a % b


SHIM = dict(int=_INT, float=_FLOAT, bool=_BOOL, list=_LIST, isinstance=_isin, len=_len, range=_range,
            enumerate=_enumerate, zip=_zip, min=_minmax("min"), max=_minmax("max"), sum=_sum, any=_any,
            all=_all, dict=_mkdict, tuple=_Cls(tuple, _mktuple), sorted=_sorted,
            reversed=_reversed, map=_map, filter=_filter, print=_print, type=_type, open=_open,
            divmod=_divmod, set=_Cls(set, _mkset), frozenset=_Cls(frozenset, _mkset),
            str=_Cls(str, _str), repr=_repr, exec=_open, eval=_open, input=_open)
symnp.SHIMS.update(int=_INT, float=_FLOAT, bool=_BOOL)


def counting_while(node):
    """while v < hi: ...; v += 1   with v, hi otherwise unchanged, no break or continue  ->  (v, hi)"""
    t = node.test
    if node.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return None
    v, hi = t.left, t.comparators[0]
    if isinstance(t.ops[0], ast.Gt):
        v, hi = hi, v
    elif not isinstance(t.ops[0], ast.Lt):
        return None
    if not isinstance(v, ast.Name) or not node.body:
        return None
    last = node.body[-1]
    one = lambda x: isinstance(x, ast.Constant) and x.value == 1 and type(x.value) is int
    isv = lambda x: isinstance(x, ast.Name) and x.id == v.id
    if isinstance(last, ast.AugAssign):
        ok = isv(last.target) and isinstance(last.op, ast.Add) and one(last.value)
    else:
        ok = (isinstance(last, ast.Assign) and len(last.targets) == 1 and isv(last.targets[0])
              and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add)
              and (isv(last.value.left) and one(last.value.right) or one(last.value.left) and isv(last.value.right)))
    if not ok:
        return None
    pure = (ast.Name, ast.Load, ast.Constant, ast.BinOp, ast.operator, ast.Attribute, ast.Subscript, ast.Call,
            ast.UnaryOp, ast.unaryop)
    names = set()
    for n in ast.walk(hi):
        if not isinstance(n, pure):
            return None
        if isinstance(n, ast.Name):
            names.add(n.id)
        if isinstance(n, ast.Attribute) and n.attr not in ("shape", "size"):
            return None
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1
                                            and isinstance(n.args[0], ast.Name) and not n.keywords):
            return None
        if isinstance(n, ast.Subscript) and not (isinstance(n.value, ast.Attribute) and n.value.attr == "shape"):
            return None
    if v.id in names:
        return None

    def walk(stmts, depth):
        for st in stmts:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Global, ast.Nonlocal, ast.Try,
                               ast.Match, ast.With)):
                return False
            if isinstance(st, (ast.Break, ast.Continue)) and depth == 0:
                return False
            for n in ast.iter_child_nodes(st):
                if isinstance(n, ast.stmt):
                    continue
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load) and (x.id in names or x.id == v.id):
                        return False
                    if isinstance(x, (ast.NamedExpr, ast.Lambda)):
                        return False
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(
                            x.func.value, ast.Name) and x.func.value.id in names - {"len"}:
                        return False
            inner = isinstance(st, (ast.For, ast.While))
            for fld in ("body", "orelse", "finalbody"):
                if not walk(getattr(st, fld, []) or [], depth + (1 if inner and fld == "body" else 0)):
                    return False
        return True
    return (v.id, hi) if walk(node.body[:-1], 0) else None


class Guarded:
    """body of a try statement whose handlers catch errors of indexing or division"""
    def __enter__(self):
        from vf import exec as ex
        self.n = len(ex.CURRENT.sides) if ex.CURRENT is not None else 0

    def __exit__(self, et, e, tb):
        from vf import exec as ex
        from vf import smt
        if ex.CURRENT is None or et is not None and issubclass(et, (Unsupported, tm.PathAbort)):
            return False
        for f, taken, lf in ex.CURRENT.sides[self.n:]:
            if smt.check(ex.CURRENT.assume + list(taken) + list(lf) + [tm.not_(f)], 400)[0] != "unsat":
                raise Unsupported("an operation that may fail inside try")
        return False


class VF:
    """runtime of the instrumented code"""
    @staticmethod
    def guarded():
        return Guarded()

    @staticmethod
    def wrange(a, b):
        for x in (a, b):
            if not isinstance(x, (int, T)) or getattr(x, "sort", I) != I:
                raise Unsupported("while loop over a real range")
        return _range(a, b)

    @staticmethod
    def wend(a, b):
        return SHIM["max"](a, b)

    @staticmethod
    def gen(x):
        """what a generator function returns: its values, to be iterated once"""
        return VF.fincomp(x, "gen") if getattr(x, "mode", "list") != "list" else iter(list(list.__iter__(x)))

    @staticmethod
    def fmt(s, x):
        """text % values: symbolic values are written by their identity"""
        xs = list(x) if isinstance(x, tuple) else [x]
        if any(isinstance(y, T) and y.op != "const" for y in xs):
            import re
            s = re.sub(r"%[-+ #0]*[0-9.]*[diouxXeEfFgGcrsa]", "%s", s)
            x = tuple(_str(y) for y in xs)
        return s % x

    @staticmethod
    def symbolic(x):
        from vf import loops
        return loops.tree(x) is not None or hasattr(x, "sym_iter")

    @staticmethod
    def it(x, get, set_, no, line):
        if VF.symbolic(x):
            from vf import loops, symarr
            ps = symarr.pieces(x)
            if ps is not None:
                return VF.chain(ps, get, set_, no, line)
            segs = loops.tree(x)
            if segs is not None:
                return loops.run_tree(segs, get, set_, no, line)
            return loops.run(x, get, set_, no, line)
        return iter(x)

    @staticmethod
    def chain(ps, get, set_, no, line):
        from vf import loops, symarr
        for p in ps:
            if isinstance(p, symarr.VList):
                yield from loops.run(p, get, set_, no, line)
            else:
                yield p

    @staticmethod
    def brk(get, no):
        if LOOPS and LOOPS[-1].get is get and LOOPS[-1].no == no:
            LOOPS[-1].leave("break")

        elif LOOPS and LOOPS[-1].get is get and LOOPS[-1].no == -1 - no:
            raise Unsupported("break in a loop over a nested symbolic list")

    @staticmethod
    def ret(get, no):
        if LOOPS and LOOPS[-1].get is get:
            LOOPS[-1].leave("return")

    @staticmethod
    def list(x):
        from vf.symarr import VList
        return VList(x)

    @staticmethod
    def dict(prs):
        d = VDict()
        for k, v in prs:
            k = _const(k)
            if isinstance(k, T):
                d[k] = v
            else:
                dict.__setitem__(d, k, v)
        return d

    @staticmethod
    def dictd(x):
        return _mkdict(x)

    @staticmethod
    def set(x):
        return _mkset(x)

    @staticmethod
    def zipstar(f, x):
        """zip(*x): the columns of a sequence of rows"""
        if f is not _zip or not VF.symbolic(x):
            return f(*x)
        from vf import loops, symarr
        if isinstance(x, symarr.SArr):
            if x.ndim != 2 or symarr.issym(x.shape_[1]):
                raise Unsupported("zip of the rows of a symbolic array")
            width, n = x.shape_[1], x.shape_[0]
        else:
            widths = set()

            def width_of(t, *_):
                widths.add(len(t) if isinstance(t, (tuple, list)) else None)
                return 0
            loops.comp(x, width_of, [], False)
            if len(widths) != 1 or None in widths:
                raise Unsupported("zip of rows of different lengths")
            width, n = widths.pop(), tm._co(x.sym_len)
        if bool(tm.eq(tm._co(n), tm.const(0))):
            # (nothing to unpack: whether this case matters is left to run time)
            raise Unsupported("zip of no rows")
        
        def col(i):
            return loops.comp(x, lambda t, *_: t[i], [], False)
        return tuple(col(i) for i in range(width))

    @staticmethod
    def unstar(x, k, m):
        """x split as the targets of  k names, *rest, m names"""
        from vf import symarr
        if isinstance(x, (symarr.SArr, symarr.VList)):
            n = x.shape_[0] if isinstance(x, symarr.SArr) else symarr.dim(x.slen())
            if symarr.issym(n):
                if not symarr.known(tm.le(tm.const(k + m), n)):
                    raise Unsupported("starred unpacking of a sequence of unknown length")
                first = [x[i] for i in range(k)]
                rest = x[k:n - m] if m else x[k:]
                return (*first, _mklist(rest), *[x[n - m + i] for i in range(m)])
        x = list(x)
        if len(x) < k + m:
            raise ValueError("not enough values to unpack (expected at least %d, got %d)" % (k + m, len(x)))
        return (*x[:k], _mklist(x[k:len(x) - m]), *x[len(x) - m:])

    @staticmethod
    def unpack(x, n):
        x = tuple(x)
        if len(x) != n:
            raise ValueError("not enough values to unpack (expected %d, got %d)" % (n, len(x)))
        return x

    @staticmethod
    def comp(x, elt, conds, flat):
        if VF.symbolic(x):
            from vf import loops
            return loops.comp(x, elt, conds, flat)
        out = []
        for v in x:
            if all(bool(c(v)) for c in conds):
                e = elt(v)
                if flat:
                    if not isinstance(e, list):
                        raise Unsupported("nested symbolic comprehension")
                    out += e
                else:
                    out.append(e)
        return out

    @staticmethod
    def fincomp(x, kind):
        from vf.symarr import VList
        if isinstance(x, VList):
            if kind == "set":
                from vf.symarr import VSet
                r = VSet()
                r.lst = x
                return r
            if kind in ("list", "gen"):
                return x
            raise Unsupported("symbolic dict comprehension")
        if not isinstance(x, list):
            if kind in ("list", "gen"):
                return x
            if kind == "set":
                return _mkset(x)
            raise Unsupported("symbolic dict comprehension")
        if kind == "list":
            return VList(x)
        if kind == "gen":
            return iter(x)
        if kind == "set":
            return _mkset(x)
        return VF.dict(x)


class MathShim:
    pi, e = math.pi, math.e
    inf, nan = math.inf, math.nan

    def __getattr__(self, k):
        if k in ("sqrt", "sin", "cos", "exp", "hypot"):
            return getattr(NP, k)
        if k == "atan2":
            return NP.arctan2
        if k == "fabs":
            return NP.absolute
        if k == "floor":
            return lambda x: _floor(x)
        if k == "ceil":
            return lambda x: -_floor(-x)
        if k == "trunc":
            return lambda x: symnp.trunc(x) if isinstance(x, T) and x.op != "const" else math.trunc(_const(x))
        if k == "isclose":
            def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
                a, b = tm._co(a), tm._co(b)
                return tm.le(tm.absv(tm.add(a, tm.neg(b))),
                             symnp.smax(symnp.smax(tm.absv(a), tm.absv(b))*rel_tol, tm._co(abs_tol)))
            return isclose
        if k in ("gcd", "factorial", "comb", "isqrt", "log", "log2", "log10", "tan", "pow", "copysign",
                 "isfinite", "isnan", "isinf", "prod"):
            def f(*a):
                if any(isinstance(x, T) and x.op != "const" for x in a):
                    if k == "isfinite":
                        return True
                    if k in ("isnan", "isinf"):
                        return False
                    if k == "pow":
                        return a[0]**a[1]
                    raise Unsupported("math." + k)
                a = [_const(x) for x in a]
                return getattr(math, k)(*a)
            return f
        raise Unsupported("math." + k)


def _floor(x):
    if isinstance(x, T) and x.op != "const":
        if x.sort == I:
            return x
        return tm.floor(x)
    return math.floor(_const(x))


class FunctoolsShim:
    reduce = staticmethod(functools.reduce)
    partial = staticmethod(functools.partial)
    wraps = staticmethod(functools.wraps)

    @staticmethod
    def lru_cache(maxsize=128, typed=False):
        def deco(f):
            store = VDict()

            @functools.wraps(f)
            def g(*a, **k):
                key = (tuple(a), tuple(sorted(k.items())))
                for x in a:
                    if isinstance(x, JArr) or type(x).__name__ in ("SArr", "VList", "VDict"):
                        raise TypeError("unhashable type: 'numpy.ndarray'")
                for q, v in list(store.items()):
                    if q[1] == key[1] and keyeq(q[0], key[0]):
                        return v
                r = f(*a, **k)
                dict.__setitem__(store, _HKey(key), r)
                return r
            g.cache_clear = store.clear
            return g
        if callable(maxsize):
            f, maxsize = maxsize, 128
            return deco(f)
        return deco

    cache = lru_cache

    def __getattr__(self, k):
        raise Unsupported("functools." + k)


class _HKey(tuple):
    __hash__ = object.__hash__


class ItertoolsShim:
    @staticmethod
    def product(*a, repeat=1):
        a = a*repeat
        if any(hasattr(x, "sym_len") for x in a):
            from vf import symarr
            return symarr.product(a)
        return itertools.product(*a)

    chain = itertools.chain
    combinations = staticmethod(lambda x, n: itertools.combinations(_conc(x), n))
    permutations = staticmethod(lambda x, *n: itertools.permutations(_conc(x), *n))
    repeat = itertools.repeat
    count = itertools.count
    accumulate = staticmethod(lambda x, *a, **k: itertools.accumulate(_conc(x), *a, **k))
    islice = staticmethod(lambda x, *a: itertools.islice(_conc(x), *a))
    zip_longest = itertools.zip_longest

    def __getattr__(self, k):
        raise Unsupported("itertools." + k)


def _conc(x):
    if hasattr(x, "sym_len"):
        raise Unsupported("itertools over a symbolic sequence")
    return x


class World:
    """a fresh set of loaded modules; stubs: {"femutil.elast_diff_2d": callable}"""
    def __init__(self, stubs=None, ext=None):
        self.mods = {}
        self.stubs = dict(stubs or {})
        self.ext = dict(ext or {})
        self.frames = []
        self.called = set()     # contracts used by the code that ran
        from vf import exec as ex
        if ex.CURRENT is not None:
            ex.CURRENT.worlds.append(self)

    def _counted(self, k, w):
        import functools

        @functools.wraps(w)
        def f(*a, **kw):
            self.called.add(k)
            return w(*a, **kw)
        return f

    def mod(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        m = types.ModuleType("solidspy." + name)
        self.mods[name] = m
        b = dict(vars(builtins))
        b.update(SHIM)
        b["__import__"] = self.imp
        m.__dict__.update(__builtins__=b, __name__="solidspy." + name, __vf=VF,
                          __file__=os.path.join(REPO, "solidspy", name + ".py"))
        exec(code(name), m.__dict__)
        for k, f in self.stubs.items():
            mo, fn = k.split(".")
            if mo == name:
                if not hasattr(m, fn):
                    raise Unsupported("%s is not defined (contract has nothing to attach to)" % k)
                orig = getattr(m, fn)
                w = f(orig, self) if getattr(f, "wants_orig", False) else f
                if isinstance(w, types.FunctionType):
                    w = self._counted(k, w)
                # default arguments that captured the original
                setattr(m, fn, w)
                for q in list(vars(m).values()):
                    if isinstance(q, types.FunctionType) and q.__defaults__ and any(d is orig for d in q.__defaults__):
                        q.__defaults__ = tuple(w if d is orig else d for d in q.__defaults__)
        return m

    def __getattr__(self, k):
        alias = {"fem": "femutil", "gau": "gaussutil", "uel": "uelutil", "ass": "assemutil",
                 "sol": "solutil", "pos": "postprocesor", "pre": "preprocesor",
                 "gui": "solids_GUI", "blo": "blochutil"}
        if k in alias:
            from vf import frame
            return frame.Probe(self, self.mod(alias[k]))
        raise AttributeError(k)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            name = ("solidspy." + name).rstrip(".")
        if name == "solidspy" or name.startswith("solidspy."):
            parts = name.split(".")
            pkg = types.SimpleNamespace()
            if len(parts) == 1:
                for f in fromlist or ():
                    setattr(pkg, f, self.mod(f))
                return pkg
            m = self.mod(parts[1])
            if fromlist:
                return m
            setattr(pkg, parts[1], m)
            return _Pkg(self)
        top = name.split(".")[0]
        if name in self.ext:
            return self.ext[name]
        if top == "numpy":
            if name == "numpy":
                return NP
            if name == "numpy.linalg":
                return NP.linalg if fromlist else NP
            raise Unsupported("import " + name)
        if top == "__future__":
            return __import__(name)
        if name == "math":
            return MathShim()
        if name == "functools":
            return FunctoolsShim()
        if name == "itertools":
            return ItertoolsShim()
        if top in ("scipy", "matplotlib", "datetime", "sys", "os", "easygui", "meshio", "time", "warnings",
                   "contextlib", "mpl_toolkits"):
            from vf import stubs
            return stubs.module(self, name, fromlist)
        if top in ("collections", "operator", "typing", "abc", "enum", "dataclasses", "numbers", "copy", "re",
                   "string", "fractions", "textwrap", "logging"):
            return _Guarded(name, __import__(name, fromlist=fromlist or ("x",)))
        raise Unsupported("import %s" % name)


class _Pkg:
    def __init__(self, w):
        self._w = w

    def __getattr__(self, k):
        return self._w.mod(k)


class _Guarded:
    """stdlib module whose callables refuse symbolic arguments"""
    SAFE = {"namedtuple", "dataclass", "field", "deepcopy", "copy"}

    def __init__(self, name, m):
        self.__dict__.update(_name=name, _m=m)

    def __getattr__(self, k):
        v = getattr(self._m, k)
        if k in ("defaultdict", "OrderedDict", "Counter", "deque"):
            return _Missing(self._name + "." + k)
        return v


_Missing = symnp._Missing
