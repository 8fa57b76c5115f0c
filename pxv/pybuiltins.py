"""Models of the Python builtins the package uses."""
import sys
import builtins as B
import z3
from fractions import Fraction
from . import core, loops
from .core import Unsupported, cur, numval, t_add, t_mul, t_sub, t_cmp, t_ite
from .values import Sc, PList, mkscalar, lift, cast, it, ival, is_num, sym_int
from .arrays import SArr


class _Meta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __repr__(cls):
        return f"<class '{cls.__name__}'>"


class float_(metaclass=_Meta):
    _check = staticmethod(lambda x: isinstance(x, (float, Fraction)) or (isinstance(x, Sc) and x.kind == "f"))

    @staticmethod
    def _make(x=0):
        if isinstance(x, str):
            return B.float(x)
        s = lift(x)
        if s is None:
            if isinstance(x, SArr) and all(numval(d) == 1 for d in x.shp):
                s = lift(x.item())
            else:
                raise TypeError("float() argument must be a string or a real number")
        if s.kind == "c":
            if not s.np:
                raise TypeError("can't convert complex to float")
        return Sc("f", cast(s.e, s.kind, "f"))


class int_(metaclass=_Meta):
    _check = staticmethod(lambda x: isinstance(x, B.int) or (isinstance(x, Sc) and (x.kind == "i" or x.kind == "b") and not x.np))

    @staticmethod
    def _make(x=0, *a):
        if isinstance(x, str):
            return B.int(x, *a)
        s = lift(x)
        if s is None:
            raise TypeError("int() argument must be a string, a bytes-like object or a real number")
        if s.kind == "c":
            raise TypeError("can't convert complex to int")
        return mkscalar("i", cast(s.e, s.kind, "i"))


class complex_(metaclass=_Meta):
    _check = staticmethod(lambda x: isinstance(x, B.complex) or (isinstance(x, Sc) and x.kind == "c"))

    @staticmethod
    def _make(x=0, y=0):
        a, b = lift(x), lift(y)
        a, b = cast(a.e, a.kind, "c"), cast(b.e, b.kind, "c")
        return Sc("c", (core.t_sub(a[0], b[1]), core.t_add(a[1], b[0])))


class bool_(metaclass=_Meta):
    _check = staticmethod(lambda x: isinstance(x, B.bool) or (isinstance(x, Sc) and x.kind == "b" and not x.np))

    @staticmethod
    def _make(x=False):
        s = lift(x)
        if s is not None:
            return mkscalar("b", cast(s.e, s.kind, "b"))
        return B.bool(x)


class list_(metaclass=_Meta):
    _check = staticmethod(lambda x: isinstance(x, (B.list, PList)))

    @staticmethod
    def _make(x=()):
        return to_plist(x)


class tuple_(metaclass=_Meta):
    _check = staticmethod(lambda x: isinstance(x, B.tuple))

    @staticmethod
    def _make(x=()):
        s = loops.to_seq(x)
        if not s.concrete():
            raise Unsupported("tuple of symbolic length")
        return B.tuple(s.items())


def to_plist(x):
    s = loops.to_seq(x)
    if s.concrete():
        return PList(s.items())
    return PList([], (s.n, s.item))


def len_(x):
    if isinstance(x, SArr):
        return ival(x.slen())
    if isinstance(x, PList):
        return ival(x.length())
    if isinstance(x, loops.Seq):
        return ival(x.n)
    if hasattr(x, "pxv_len"):
        return x.pxv_len()
    if isinstance(x, Sc):
        raise TypeError("object of type 'float' has no len()")
    return B.len(x)


def range_(*a):
    a = [x.const() if isinstance(x, Sc) and x.const() is not None and x.kind == "i" else x for x in a]
    if all(isinstance(x, B.int) for x in a):
        return B.range(*[B.int(x) for x in a])
    for x in a:
        if isinstance(x, Sc) and x.kind not in "ib" or isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if isinstance(step, Sc):
        raise Unsupported("range with a symbolic step")
    s, e = it(start), it(stop)
    p = cur()
    if step == 1:
        n = z3.simplify(t_sub(e, s))
    elif step == -1:
        n = z3.simplify(t_sub(s, e))
    elif step > 0:
        n = core.t_divmod(t_add(t_sub(e, s), z3.IntVal(step - 1)), z3.IntVal(step))[0]
    elif step < 0:
        n = core.t_divmod(t_add(t_sub(s, e), z3.IntVal(-step - 1)), z3.IntVal(-step))[0]
    else:
        raise ValueError("range() arg 3 must not be zero")
    if not p.quick(n >= 0):
        n = t_ite(n >= 0, n, z3.IntVal(0))
    r = loops.Seq(n, lambda k: ival(t_add(s, t_mul(z3.IntVal(step), k))))
    r.is_range = (s, e, step)
    return r


def _not(x):
    if isinstance(x, Sc):
        t = z3.simplify(cast(x.e, x.kind, "b")[0])
        if not (z3.is_true(t) or z3.is_false(t)):
            return mkscalar("b", (z3.Not(t),))
    return not x


def _counter(x):
    from .extshim import _Count
    if not isinstance(x, _Count):
        raise Unsupported("count()")
    return x


def enumerate_(x, start=0):
    s = loops.to_seq(x)
    if s.concrete():
        return B.list(B.enumerate(s.items(), start)) if isinstance(start, int) else [(start + i, v) for i, v in B.enumerate(s.items())]
    return loops.Seq(s.n, lambda k: (ival(t_add(it(start), k)), s.item(k)))


def zip_(*xs, strict=False):
    ss = [loops.to_seq(x) for x in xs]
    if all(s.concrete() for s in ss):
        return B.list(B.zip(*[s.items() for s in ss]))
    p = cur()
    n = ss[0].n
    for s in ss[1:]:
        if not (s.n.eq(n) or p.quick(s.n == n)):
            n = n if p.quick(n <= s.n) else s.n if p.quick(s.n <= n) else t_ite(n <= s.n, n, s.n)
    return loops.Seq(n, lambda k: tuple(s.item(k) for s in ss))


def reversed_(x):
    s = loops.to_seq(x)
    if s.concrete():
        return B.list(B.reversed(s.items()))
    return loops.Seq(s.n, lambda k: s.item(t_sub(t_sub(s.n, z3.IntVal(1)), k)))


def map_(f, *xs):
    if len(xs) == 1:
        return loops.comp(f, xs[0], None, "list")
    return loops.comp(lambda t: f(*t), zip_(*xs), None, "list")


def filter_(f, x):
    return loops.comp(lambda v: v, x, f if f is not None else (lambda v: v), "list")


def sum_(x, start=0):
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        r = x.sum(axis=0)
        return r if isinstance(start, int) and start == 0 else r + start
    s = loops.to_seq(x)
    if s.concrete():
        r = start
        for v in s.items():
            r = r + v
        return r
    from .npshim import asarray
    r = asarray(to_plist(x)).sum(axis=0)
    return r if isinstance(start, int) and start == 0 else r + start


def _ext(which, a, k):
    if "key" in k or "default" in k:
        raise Unsupported("min/max with key")
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SArr):
            if x.ndim != 1:
                raise ValueError("The truth value of an array with more than one element is ambiguous")
            return x.max() if which == "max" else x.min()
        s = loops.to_seq(x)
        if not s.concrete():
            from .npshim import asarray
            y = asarray(to_plist(x))
            return y.max() if which == "max" else y.min()
        a = s.items()
        if not a:
            raise ValueError("max() arg is an empty sequence")
    r = a[0]
    for v in a[1:]:
        lr, lv = lift(r), lift(v)
        if lr is None or lv is None:
            raise Unsupported("min/max of non-scalars")
        c = lift(v > r if which == "max" else v < r)
        # keep symbolic: no fork
        from .values import ite_val
        r = ite_val(c.t, v, r)
    return r


def max_(*a, **k):
    return _ext("max", a, k)


def min_(*a, **k):
    return _ext("min", a, k)


def any_(x):
    if isinstance(x, SArr):
        return x.any()
    for v in x:
        if v:
            return True
    return False


def all_(x):
    if isinstance(x, SArr):
        return x.all()
    for v in x:
        if not v:
            return False
    return True


def sorted_(x, **k):
    s = loops.to_seq(x)
    if s.concrete() and not B.any(isinstance(v, Sc) for v in s.items()):
        return PList(B.sorted(s.items(), **k))
    raise Unsupported("sorted")


def print_(*a, **k):
    for x in a:
        str(x)
    return None


def round_(x, n=None):
    if isinstance(x, (Sc, SArr)):
        if isinstance(x, Sc) and x.kind == "i":
            return x
        raise Unsupported("round")
    return B.round(x, n)


def isinstance_(x, t):
    if isinstance(t, tuple):
        return B.any(isinstance_(x, u) for u in t)
    return isinstance(x, t)


def type_(*a):
    if len(a) != 1:
        return B.type(*a)
    x = a[0]
    if isinstance(x, Sc):
        if x.np:
            raise Unsupported("type() of a numpy scalar")
        return {"b": bool_, "i": int_, "f": float_, "c": complex_}[x.kind]
    if isinstance(x, bool):
        return bool_
    if isinstance(x, B.int):
        return int_
    if isinstance(x, float):
        return float_
    if isinstance(x, B.complex):
        return complex_
    if isinstance(x, (PList, B.list)):
        return list_
    if isinstance(x, B.tuple):
        return tuple_
    if isinstance(x, SArr):
        from .npshim import ndarray
        return ndarray
    return B.type(x)


def divmod_(a, b):
    return a // b, a % b


def pow_(a, b):
    return py_pow(a, b)


def unsupported(nm):
    def f(*a, **k):
        raise Unsupported(f"builtin {nm}")
    return f


# ---- helpers the AST pass calls
def lit(re, im=None):
    if im is None:
        return Sc("f", (z3.RealVal(Fraction(re)),))
    return Sc("c", (z3.RealVal(Fraction(re)), z3.RealVal(Fraction(im))))


def py_div(a, b):
    if isinstance(a, B.int) and isinstance(b, B.int):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return Sc("f", (z3.RealVal(Fraction(a, b)),))
    return a / b


def py_idiv(a, b):
    if isinstance(a, SArr):
        a /= b
        return a
    return py_div(a, b)


def py_pow(a, b):
    if isinstance(a, B.int) and isinstance(b, B.int):
        if b < 0:
            return Sc("f", (z3.RealVal(Fraction(a) ** b),))
        return a ** b
    return a ** b


def star(f, n):
    def g(x):
        if isinstance(x, tuple) and len(x) == n:
            return f(*x)
        return f(*[x[i] for i in range(n)])
    return g


MAXREC = 9


def enter(q):
    core.cur().task.funcs.add(q)
    f = sys._getframe(1)
    c, n, f = f.f_code, 0, f.f_back
    while f is not None:
        if f.f_code is c:
            n += 1
            if n > MAXREC:
                raise core.Unsupported(f"recursion of {q} without a contract for the recursive call")
        f = f.f_back


def plist(x):
    return PList(x)


def table(world):
    t = {}
    for n in ("abs", "object", "property", "staticmethod", "classmethod", "super", "hasattr", "getattr", "setattr", "delattr", "callable", "id",
              "repr", "str", "dict", "set", "frozenset", "iter", "next", "None", "True", "False", "Ellipsis", "NotImplemented", "__build_class__", "__name__",
              "vars", "dir", "format", "slice", "chr", "ord", "hash", "bytes", "issubclass", "locals", "globals", "__debug__"):
        t[n] = B.__dict__[n]
    for n, v in B.__dict__.items():
        if isinstance(v, type) and issubclass(v, BaseException):
            t[n] = v
    t.update(float=float_, int=int_, complex=complex_, bool=bool_, list=list_, tuple=tuple_, len=len_, range=range_, enumerate=enumerate_, zip=zip_,
             reversed=reversed_, map=map_, filter=filter_, sum=sum_, max=max_, min=min_, any=any_, all=all_, sorted=sorted_, print=print_,
             round=round_, isinstance=isinstance_, type=type_, divmod=divmod_, pow=pow_, open=unsupported("open"), input=unsupported("input"),
             exec=unsupported("exec"), eval=unsupported("eval"), compile=unsupported("compile"))
    t.update(_pxv_lit=lit, _pxv_div=py_div, _pxv_idiv=py_idiv, _pxv_pow=py_pow, _pxv_list=plist, _pxv_star=star, _pxv_enter=enter,
             _pxv_comp=loops.comp, _pxv_for=loops.run_for, _pxv_while=loops.run_while, _pxv_count=_counter, _pxv_not=_not, _pxv_BRK=loops.BRK, _pxv_CNT=loops.CNT, _pxv_RET=loops.RET,
             _pxv_isret=loops.isret, _pxv_locals=B.locals)
    return t
