"""Loads /repo/pxmcmc/*.py into the verifier: a mechanical AST pass, then exec by CPython.

What the pass changes (and nothing else):
  * for/while loops in functions: the body becomes a closure that the loop engine calls (loops.py)
  * `while True: if C: break; ...` becomes `while not C: ...`, `for i in itertools.count(): if C: break; ...` likewise, with its own counter
  * list/generator comprehensions: the element becomes a closure
  * float/complex literals become exact numerals, list displays the list model, `/` and `**` of two python ints exact
  * bare `except:` becomes `except Exception:`; `super()` inside a loop body gets its arguments spelled out
  * every function starts with a call that records that it was executed
Docstrings and comments have no effect.  Imports resolve to the models of the dependencies (npshim, extshim).
"""
import ast
import copy
import os
import types
from . import core, loops
from .core import Unsupported

REPO = os.environ.get("PXV_REPO", "/repo")


# ------------------------------------------------------------------ AST pass
def stored_names(nodes):
    """names bound by these statements in the enclosing function's scope (nested scopes excluded)"""
    out = []

    def add(n):
        if n not in out:
            out.append(n)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                add((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    for n in nodes:
        walk(n)
    return out


def has_yield(nodes):
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                return True
    return False


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def call(f, *args):
    return ast.Call(func=name(f), args=list(args), keywords=[])


def leading_break(n):
    b = n.body[0]
    return (not n.orelse and isinstance(b, ast.If) and len(b.body) == 1 and isinstance(b.body[0], ast.Break) and not b.orelse
            and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(b.test)))


def nots(t):
    """`not` in a while condition, as a function (so that a symbolic condition stays one)"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return ast.copy_location(call("_pxv_not", nots(t.operand)), t)
    return t


class BodyRewrite(ast.NodeTransformer):
    """break/continue/return of one loop body"""

    def visit_FunctionDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_For(self, n):
        raise AssertionError("inner loops are rewritten first")

    def visit_Break(self, n):
        return ast.copy_location(ast.Return(value=name("_pxv_BRK")), n)

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=name("_pxv_CNT")), n)

    def visit_Return(self, n):
        if getattr(n, "pxv_done", False):
            return n
        return ast.copy_location(ast.Return(value=ast.Tuple(elts=[name("_pxv_RET"), n.value or ast.Constant(value=None)], ctx=ast.Load())), n)


class Pass(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.func = []          # stack of dicts
        self.cls = []
        self.k = 0
        self.loops = {}

    # -- scopes
    def visit_FunctionDef(self, n):
        qual = ".".join([self.mod] + self.cls + [f["name"] for f in self.func] + [n.name])
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
            a.annotation = None
        gl = [x for s in ast.walk(n) if isinstance(s, ast.Global) for x in s.names]
        first = n.args.args[0].arg if n.args.args else None
        loads = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                loads[x.id] = loads.get(x.id, 0) + 1
        self.func.append(dict(name=n.name, globals=set(gl), first=first, loads=loads, gen=has_yield(n.body)))
        cls, self.cls = self.cls, self.cls
        n.body = self.block(n.body)
        self.func.pop()
        self.cls = cls
        n.body.insert(0, ast.Expr(value=call("_pxv_enter", ast.Constant(value=qual))))
        return n

    def visit_Lambda(self, n):
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.body = self.visit(n.body)
        return n

    def visit_ClassDef(self, n):
        self.cls = self.cls + [n.name]
        f, self.func = self.func, []
        n.body = [self.visit(s) for s in n.body]
        self.func = f
        self.cls = self.cls[:-1]
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                new = []
                for x in v:
                    if isinstance(x, ast.AST):
                        r = self.visit(x)
                        if isinstance(r, list):
                            new += r
                        elif r is not None:
                            new.append(r)
                    else:
                        new.append(x)
                setattr(n, f, new)
            elif isinstance(v, ast.AST):
                setattr(n, f, self.visit(v))
        return n

    # -- loops
    def visit_For(self, n):
        c = self.counting(n)
        if c is not None:
            out = self.block(c[:-1])
            r = self.visit(c[-1])
            return out + (r if isinstance(r, list) else [r])
        return self.loop(n, True)

    def visit_While(self, n):
        if isinstance(n.test, ast.Constant) and n.test.value and leading_break(n):
            n.test = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=n.body[0].test), n.test)
            n.body = n.body[1:] or [ast.copy_location(ast.Pass(), n)]
        return self.loop(n, False)

    def counting(self, n):
        """for i in itertools.count(...): if C: break; rest  ->  c = start; while not C[c/i]: i = c; c = i + step; rest"""
        f = n.iter.func if isinstance(n.iter, ast.Call) else None
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if nm != "count" or not isinstance(n.target, ast.Name) or not leading_break(n) or not self.func or self.func[-1]["gen"] or has_yield(n.body):
            return None
        i = n.target.id
        inside = sum(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id == i for b in n.body for x in ast.walk(b))
        if self.func[-1]["loads"].get(i, 0) > inside:
            return None
        self.k += 1
        it_, c = f"_pxv_it{self.k}", f"_pxv_cnt{self.k}"
        test = n.body[0].test
        for x in ast.walk(test):
            if isinstance(x, ast.Name) and x.id == i:
                x.id = c
        pre = ast.parse(f"{it_} = _pxv_count(0)\n{c} = {it_}.start").body
        pre[0].value.args = [n.iter]
        step = ast.parse(f"{i} = {c}\n{c} = {c} + {it_}.step").body
        w = ast.While(test=ast.UnaryOp(op=ast.Not(), operand=test), body=step + n.body[1:], orelse=[])
        out = pre + [w]
        for s in out:
            for x in ast.walk(s):
                if isinstance(x, (ast.expr, ast.stmt)) and (not hasattr(x, "lineno") or s in pre or x in step or x is w):
                    ast.copy_location(x, n)
        return [ast.fix_missing_locations(s) for s in out]

    def loop(self, n, is_for):
        if not self.func or self.func[-1]["gen"] or has_yield(n.body):
            return self.generic_visit(n)
        self.k += 1
        k = self.k
        fn = self.func[-1]
        names = stored_names(n.body + ([n.target] if is_for else []))
        if not is_for:
            for x in ast.walk(n.test):
                if isinstance(x, ast.NamedExpr) and x.target.id not in names:
                    names.append(x.target.id)
        local = [x for x in names if x not in fn["globals"]]
        glob = [x for x in names if x in fn["globals"]]
        inner = {}
        for b in n.body + ([n.target] if is_for else [n.test]):
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    inner[x.id] = inner.get(x.id, 0) + 1
        live = [x for x in local if fn["loads"].get(x, 0) > inner.get(x, 0)]
        lineno = n.lineno
        self.loops[k] = dict(line=lineno, names=local, live=live, qual=".".join([self.mod] + self.cls + [f["name"] for f in self.func]), kind="for" if is_for else "while")
        # super() needs its arguments inside the closure
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" and not x.args and self.cls and fn["first"]:
                x.args = [name("__class__"), name(fn["first"])]
        body = self.block(n.body)
        orelse = self.block(n.orelse)
        br = BodyRewrite()
        body = [br.visit(s) for s in body]
        decl = []
        if local:
            decl.append(ast.Nonlocal(names=list(local)))
        if glob:
            decl.append(ast.Global(names=list(glob)))
        pre = []
        if is_for:
            pre = [ast.Assign(targets=[n.target], value=name("_pxv_item"))]
        bodyfn = ast.FunctionDef(name=f"_pxv_body_{k}", args=_args(["_pxv_item"] if is_for else []),
                                 body=copy.deepcopy(decl) + pre + body + [ast.Return(value=name("_pxv_CNT"))], decorator_list=[], type_params=[])
        getb = [ast.Assign(targets=[name("_pxv_d", ast.Store())], value=ast.Dict(keys=[], values=[]))]
        for x in local:
            getb.append(ast.parse(f"try:\n _pxv_d[{x!r}] = {x}\nexcept NameError:\n pass").body[0])
        getb.append(ast.Return(value=name("_pxv_d")))
        getfn = ast.FunctionDef(name=f"_pxv_get_{k}", args=_args([]), body=getb, decorator_list=[], type_params=[])
        setb = copy.deepcopy(decl[:1]) if local else []
        for x in local:
            setb.append(ast.parse(f"if {x!r} in _pxv_d:\n {x} = _pxv_d[{x!r}]\nelse:\n {x} = None\n del {x}").body[0])
        setb.append(ast.Pass())
        setfn = ast.FunctionDef(name=f"_pxv_set_{k}", args=_args(["_pxv_d"]), body=setb, decorator_list=[], type_params=[])
        src = self.visit(n.iter) if is_for else ast.Lambda(args=_args([]), body=self.visit(nots(n.test)))
        if not is_for and any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
            raise Unsupported("assignment expression in a while condition")
        run = ast.Assign(targets=[name(f"_pxv_r{k}", ast.Store())],
                         value=ast.Call(func=name("_pxv_for" if is_for else "_pxv_while"),
                                        args=[ast.Constant(value=(self.mod, k)), src, name(f"_pxv_body_{k}"), name(f"_pxv_get_{k}"), name(f"_pxv_set_{k}"),
                                              ast.Call(func=name("_pxv_locals"), args=[], keywords=[])], keywords=[]))
        ret = ast.Return(value=ast.Subscript(value=name(f"_pxv_r{k}"), slice=ast.Constant(value=1), ctx=ast.Load()))
        ret.pxv_done = False
        after = [ast.If(test=ast.Call(func=name("_pxv_isret"), args=[name(f"_pxv_r{k}")], keywords=[]), body=[ret], orelse=[])]
        if orelse:
            after.append(ast.If(test=ast.Compare(left=name(f"_pxv_r{k}"), ops=[ast.IsNot()], comparators=[name("_pxv_BRK")]), body=orelse, orelse=[]))
        bind = [ast.If(test=ast.Constant(value=False), body=[ast.Assign(targets=[name(x, ast.Store()) for x in local], value=ast.Constant(value=None))], orelse=[])] if local else []
        out = bind + [bodyfn, getfn, setfn, run] + after
        for o in out:
            for x in ast.walk(o):
                if not hasattr(x, "lineno") and isinstance(x, (ast.expr, ast.stmt, ast.arg, ast.excepthandler)):
                    x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = lineno, 0, lineno, 0
        return out

    # -- comprehensions
    def comp(self, n, kind):
        if len(n.generators) != 1 or n.generators[0].is_async:
            return self.generic_visit(n)
        g = n.generators[0]
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            return self.generic_visit(n)
        elt = self.visit(n.elt)
        it = self.visit(g.iter)
        ifs = [self.visit(i) for i in g.ifs]
        cond = None
        if ifs:
            cond = ifs[0] if len(ifs) == 1 else ast.BoolOp(op=ast.And(), values=ifs)
        tgt = g.target
        if isinstance(tgt, ast.Name):
            mk = lambda b: ast.Lambda(args=_args([tgt.id]), body=b)  # noqa
        elif isinstance(tgt, ast.Tuple) and all(isinstance(e, ast.Name) for e in tgt.elts):
            mk = lambda b: ast.Call(func=name("_pxv_star"), args=[ast.Lambda(args=_args([e.id for e in tgt.elts]), body=b), ast.Constant(value=len(tgt.elts))], keywords=[])  # noqa
        else:
            n.elt, g.iter, g.ifs = elt, it, ifs
            return n
        return ast.copy_location(ast.Call(func=name("_pxv_comp"), args=[mk(elt), it, mk(cond) if cond is not None else ast.Constant(value=None), ast.Constant(value=kind)], keywords=[]), n)

    def visit_ListComp(self, n):
        return self.comp(n, "list")

    def visit_GeneratorExp(self, n):
        return self.comp(n, "gen")

    # -- expressions
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(call("_pxv_lit", ast.Constant(value=repr(n.value))), n)
        if isinstance(n.value, complex):
            return ast.copy_location(call("_pxv_lit", ast.Constant(value=repr(n.value.real)), ast.Constant(value=repr(n.value.imag))), n)
        return n

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(call("_pxv_list", n), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)):
            return ast.copy_location(call("_pxv_div" if isinstance(n.op, ast.Div) else "_pxv_pow", n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign(targets=[n.target], value=call("_pxv_idiv", name(n.target.id), n.value)), n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = name("Exception")
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.Pass() if not self.cls or self.func else n
        if self.func:
            return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))
        return self.generic_visit(n)


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[])


_cache = {}


def compiled(modname):
    path = os.path.join(REPO, *modname.split(".")) + ".py"
    if not os.path.exists(path):
        path = os.path.join(REPO, *modname.split("."), "__init__.py")
    if not os.path.exists(path):
        return None
    src = open(path).read()
    key = (path, src)
    if key not in _cache:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src)
            ps = Pass(modname)
            tree = ps.visit(tree)
            ast.fix_missing_locations(tree)
            _cache[key] = (compile(tree, path, "exec"), ps.loops, src)
    return _cache[key]


# ------------------------------------------------------------------ module world
class Module(types.ModuleType):
    pass


class World:
    """one fresh instance of the instrumented package for one path"""

    def __init__(self, stubs=None, shims=None):
        from . import pybuiltins, extshim
        self.mods = {}
        self.stubs = dict(stubs or {})
        self.shims = extshim.modules(self)
        if shims:
            self.shims.update(shims)
        self.builtins = pybuiltins.table(self)
        self.builtins["__import__"] = self._import

    def _import(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = (globals or {}).get("__package__") or "pxmcmc"
            nm = base + ("." + nm if nm else "")
        if nm == "pxmcmc" or nm.startswith("pxmcmc."):
            m = self.load(nm)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and compiled(nm + "." + f) is not None:
                        setattr(m, f, self.load(nm + "." + f))
                return m
            top = self.load("pxmcmc")
            return top
        if nm in self.shims:
            m = self.shims[nm]
            if m is None:
                raise ModuleNotFoundError(f"No module named '{nm}'")
            if fromlist:
                return m
            return self.shims[nm.split(".")[0]]
        raise Unsupported(f"import of {nm}")

    def load(self, nm):
        if nm in self.mods:
            return self.mods[nm]
        c = compiled(nm)
        if c is None:
            raise ModuleNotFoundError(f"No module named '{nm}'")
        code, lps, _ = c
        m = Module(nm)
        self.mods[nm] = m
        d = m.__dict__
        d["__builtins__"] = self.builtins
        d["__name__"] = nm
        d["__package__"] = "pxmcmc"
        d["__file__"] = code.co_filename
        for k, info in lps.items():
            loops.LOOPINFO[(nm, k)] = info
        exec(code, d)
        if "." in nm:
            par = self.load(nm.rsplit(".", 1)[0])
            setattr(par, nm.rsplit(".", 1)[1], m)
        short = nm.split(".")[-1]
        for k, (params, fn) in self.stubs.items():
            parts = k.split(".")
            if parts[0] != short:
                continue
            tgt = m
            for q in parts[1:-1]:
                tgt = getattr(tgt, q, None)
                if tgt is None:
                    break
            if tgt is None:
                continue
            orig = tgt.__dict__.get(parts[-1])
            if isinstance(orig, types.FunctionType) and [a for a in orig.__code__.co_varnames[:orig.__code__.co_argcount]] == list(params):
                setattr(tgt, parts[-1], make_stub(k, orig, fn))
        return m


def make_stub(name, orig, fn):
    def stub(*a, **k):
        core.cur().task.stubs_used.add(name)
        return fn(orig, *a, **k)
    stub.__name__ = orig.__name__
    stub.__defaults__ = None
    stub.pxv_orig = orig
    stub.pxv_defaults = orig.__defaults__
    return stub
