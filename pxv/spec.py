"""Helpers the contracts are written with."""
import linecache
import os
import z3
from . import core, loader, npshim, extshim
from .core import (Unsupported, PathEnd, cur, numval, t_add, t_sub, t_mul, t_div, t_neg, t_cmp, t_ite, t_and, t_or, t_not, t_sqrt, t_abs,
                   t_exp, t_log, t_cos, t_sin, t_pi, t_pow, t_divmod, to_real, Task, num)
from .values import (Sc, PList, lift, cast, mkscalar, sym_int, sym_real, sym_bool, sym_cplx, it, ival, rterm, ZERO, e_mul, e_add, e_sub, e_abs, e_div, binop, is_num)
from . import arrays
from .arrays import SArr, sym_arr, mat, sum_term, as_arr, Mask, get_mask, I0, I1
from .npshim import opaque_arr
from .extshim import SpM

R = z3.RealVal
TASKS = {}


def task(prop, name, budget=240, **params):
    """register a contract; the harness gets (p, **params)"""
    def deco(fn):
        TASKS.setdefault(prop, []).append((name, fn, params, budget))
        return fn
    return deco


def variants(prop, name, dims, budget=240):
    """one task per combination of the values in dims"""
    def deco(fn):
        combos = [{}]
        for k, vs in dims.items():
            combos = [dict(c, **{k: v}) for c in combos for v in vs]
        for c in combos:
            nm = name + "[" + ",".join(f"{k}={v}" for k, v in c.items()) + "]"
            TASKS.setdefault(prop, []).append((nm, fn, c, budget))
        return fn
    return deco


def world(stubs=None):
    return loader.World(stubs=stubs)


class Raised:
    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f"{type(self.exc).__name__}: {self.exc}"


def attempt(fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:      # the code under verification raised
        if core.DEBUG:
            import traceback
            traceback.print_exc()
        if internal(e):
            raise Unsupported(f"verifier: {type(e).__name__}: {e}") from e
        return Raised(e)


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def internal(e):
    """an error of the verifier itself, not one that the code under verification (or the model of a library) raises"""
    if isinstance(e, (z3.Z3Exception, RecursionError)):
        return True
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None:
        return False
    f = tb.tb_frame.f_code.co_filename
    if not os.path.abspath(f).startswith(HERE + os.sep):
        return False
    return "raise " not in linecache.getline(f, tb.tb_lineno)


def ok(p, name, r):
    """the call returned normally; ends the path otherwise"""
    if isinstance(r, Raised):
        p.prove(name + ": returns without raising", z3.BoolVal(False), detail=repr(r))
        raise PathEnd("raised")
    return r


def refused(p, name, r, *types):
    good = isinstance(r, Raised) and isinstance(r.exc, types)
    p.prove(name, z3.BoolVal(good), detail="" if good else f"got {r!r}")
    return good


def elem(a, idx):
    """complex element (re, im) of an array/scalar"""
    if isinstance(a, SArr):
        return cast(a.read(tuple(idx)), a.kind, "c")
    s = lift(a)
    return cast(s.e, s.kind, "c")


def prove_arr(p, name, got, shape, fn, ckind=None):
    """got is an array of this shape whose entries are fn(idx) -> real term or (re, im)"""
    if isinstance(got, PList):
        got = arrays.from_list(got)
    if not isinstance(got, SArr):
        if not shape and lift(got) is not None:
            return prove_num(p, name, got, fn(()))
        p.prove(name + ": is an array", z3.BoolVal(False), detail=f"got {type(got).__name__}")
        return False
    shape = [it(s) for s in shape]
    if got.ndim != len(shape):
        p.prove(name + ": number of dimensions", z3.BoolVal(False), detail=f"got {got.ndim}")
        return False
    if not p.prove(name + ": shape", t_and(*[g == s for g, s in zip(got.shp, shape)])):
        return False
    idx = tuple(p.generic(s) for s in shape)
    want = fn(idx)
    want = want if isinstance(want, tuple) else (want, ZERO)
    e = elem(got, idx)
    r = True
    for c, part in enumerate(("", " (imaginary part)")):
        r = p.prove(name + ": entry" + part, e[c] == to_real(want[c])) and r
    return r


def prove_num(p, name, got, want):
    s = lift(got)
    if s is None:
        if isinstance(got, SArr) and all(numval(d) == 1 for d in got.shp):
            s = Sc(got.kind, got.read(tuple(I0 for _ in got.shp)))
        else:
            p.prove(name + ": is a number", z3.BoolVal(False), detail=f"got {type(got).__name__}")
            return False
    want = want if isinstance(want, tuple) else (want, ZERO)
    e = cast(s.e, s.kind, "c")
    a = p.prove(name, e[0] == to_real(want[0]))
    b = p.prove(name + " (imaginary part)", e[1] == to_real(want[1])) if s.kind == "c" or numval(want[1]) != 0 else True
    return a and b


class Frame:
    """inputs that must be left unmodified"""

    def __init__(self, **vals):
        self.items = {}
        for k, v in vals.items():
            if v is not None:
                self.add(k, v)

    def add(self, k, v):
        if isinstance(v, SArr):
            self.items[k] = (v, v.snap(), tuple(v.shp), v.kind)
        elif isinstance(v, PList):
            self.items[k] = (v, v.copy_state(), None, None)
        elif hasattr(v, "__dict__") and not isinstance(v, Sc):
            self.items[k] = (v, dict(v.__dict__), None, None)
            for a, w in v.__dict__.items():
                if isinstance(w, (SArr, PList)):
                    self.add(k + "." + a, w)
        return self

    def check(self, p, prefix=""):
        for k, (v, st, shp, kind) in self.items.items():
            nm = f"{prefix}{k} is left unmodified"
            if isinstance(v, SArr):
                if v.snap() is st or (v.vmap is None and v.buf.ef is st):
                    p.prove(nm, z3.BoolVal(True))
                    continue
                idx = tuple(p.generic(s) for s in shp)
                p.prove(nm, z3.And(*[a == b for a, b in zip(v.read(idx), st(idx))]))
            elif isinstance(v, PList):
                now = v.copy_state()
                same = len(now[0]) == len(st[0]) and all(same_obj(p, a, b) for a, b in zip(now[0], st[0])) and (now[1] is st[1]) and len(now[2]) == len(st[2])
                p.prove(nm, z3.BoolVal(same))
            else:
                now = v.__dict__
                bad = [a for a in set(now) | set(st) if a not in now or a not in st or not same_obj(p, now[a], st[a])]
                p.prove(nm, z3.BoolVal(not bad), detail=f"changed: {bad}")


def same_obj(p, a, b):
    if a is b:
        return True
    la, lb = lift(a) if is_num(a) else None, lift(b) if is_num(b) else None
    if la is not None and lb is not None:
        return la.kind == lb.kind and p.holds(z3.And(*[x == y for x, y in zip(la.e, lb.e)]))
    if isinstance(a, SArr) and isinstance(b, SArr):     # another array with the same content
        if a.ndim != b.ndim or a.kind != b.kind or not all(x.eq(y) or p.quick(x == y) for x, y in zip(a.shp, b.shp)):
            return False
        idx = tuple(p.generic(s) for s in a.shp)
        return p.holds(z3.And(*[x == y for x, y in zip(a.read(idx), b.read(idx))]))
    if isinstance(a, (str, type(None), bool)) or isinstance(b, (str, type(None), bool)):
        return a == b
    return False


class VFun:
    """abstract vector-valued operator of the environment: pure, deterministic, depends on its argument only"""

    def __init__(self, name, n_out, kind, n_in=None, calls=None):
        self.name, self.n_out, self.kind, self.n_in, self.calls = name, n_out, kind, n_in, calls

    def spec(self, x):
        return opaque_arr(self.name, [x], [self.n_out], self.kind)

    def __call__(self, x):
        if not isinstance(x, SArr):
            raise Unsupported(f"{self.name} applied to {type(x).__name__}")
        if self.n_in is not None:
            if x.ndim != 1 or not arrays.dim_eq(x.shp[0], it(self.n_in)):
                raise ValueError(f"{self.name}: wrong input shape")
        return self.spec(x)


class Obj:
    """plain object with the given attributes (functions are not bound)"""
    pxv_state = True

    def __init__(self, **k):
        self.__dict__.update(k)


def cmul(a, b):
    return e_mul(a, b)


def cconj(a):
    return (a[0], t_neg(a[1]))


def csum(n, f):
    """sum over i of complex-valued f(i)"""
    return (sum_term(it(n), lambda i: f(i)[0]), sum_term(it(n), lambda i: f(i)[1]))


def vec(a):
    """complex element function i -> (re, im) of the present content of a vector"""
    f, k = a.snap(), a.kind
    return lambda i: cast(f((i,)), k, "c")


def modulus(z):
    """|z| of a complex element; exact |re| when the imaginary part is literally zero"""
    return e_abs(z, "c")[0]


def lemma(p, name, hyps, goal):
    """valid formula, independent of the code"""
    p.prove(name, z3.Implies(z3.And(*hyps), goal) if hyps else goal)
