"""Model of the numpy functions the package uses (or a refactoring of it plausibly would).

Every function here is part of the trusted base: it states, for arrays of symbolic shape, what numpy computes over the
reals.  Anything not listed raises Unsupported, which makes the obligation undecided, never discharged.
"""
import z3
from fractions import Fraction
from . import core
from .core import (Unsupported, cur, numval, t_add, t_sub, t_mul, t_div, t_cmp, t_ite, t_and, t_or, t_not, t_neg,
                   t_divmod, to_real, INT, REAL)
from .values import (Sc, PList, mkscalar, lift, cast, promote, binop, e_abs, e_exp, e_mul, it, ival, is_num, ZERO, rterm)
from . import arrays as A
from .arrays import (SArr, mat, as_arr, arr0, from_list, const_arr, dim_eq, simp, sum_term, I0, I1, view, total)


# ---------------------------------------------------------------- dtypes
class Dtype:
    def __init__(self, kind, tag=None):
        self.kind_, self.tag = kind, tag

    @property
    def kind(self):
        return self.kind_

    @property
    def char(self):
        return {"f": "d", "c": "D", "i": "l", "b": "?"}[self.kind_]

    @property
    def name(self):
        return self.tag or {"f": "float64", "c": "complex128", "i": "int64", "b": "bool"}[self.kind_]

    @property
    def itemsize(self):
        return {"b": 1, "i": 8, "f": 8, "c": 16}[self.kind_]

    @property
    def type(self):
        return {"f": float64, "c": complex128, "i": int64, "b": np_bool}[self.kind_]

    def __eq__(self, o):
        try:
            d = as_dtype(o)
        except (Unsupported, TypeError):
            return False
        return d.kind_ == self.kind_ and d.tag == self.tag

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.kind_, self.tag))

    def __repr__(self):
        return f"dtype('{self.name}')"


def dtype_of(kind, tag=None):
    return Dtype(kind, tag)


_STR = {"float": "f", "float64": "f", "f8": "f", "d": "f", "<f8": "f", "complex": "c", "complex128": "c", "c16": "c", "D": "c", "<c16": "c",
        "int": "i", "int64": "i", "i8": "i", "l": "i", "<i8": "i", "bool": "b", "?": "b"}


def as_dtype(dt):
    from . import pybuiltins as P
    if isinstance(dt, Dtype):
        return dt
    for cls, k in ((P.float_, "f"), (P.int_, "i"), (P.complex_, "c"), (P.bool_, "b"), (float, "f"), (int, "i"), (complex, "c"), (bool, "b")):
        if dt is cls:
            return Dtype(k)
    if isinstance(dt, type) and hasattr(dt, "_npkind"):
        return Dtype(dt._npkind, dt._tag)
    if isinstance(dt, str):
        if dt in _STR:
            return Dtype(_STR[dt])
        if dt in ("float32", "f4", "single", "f"):
            return Dtype("f", "float32")
        raise Unsupported(f"dtype {dt}")
    if dt is None:
        return Dtype("f")
    raise Unsupported(f"dtype {dt!r}")


class _NpMeta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)


def _nptype(nm, kinds, kind=None, tag=None):
    def chk(x):
        return isinstance(x, Sc) and x.np and x.kind in kinds

    def make(x=0, *a):
        if kind is None or tag is not None:
            raise Unsupported(f"numpy.{nm}()")
        if isinstance(x, SArr) and x.ndim:
            return x.astype(kind_dtype[kind])
        s = lift(x)
        if s is None:
            return asarray(x).astype(kind_dtype[kind])
        return Sc(kind, cast(s.e, s.kind, kind), True)
    d = dict(_check=staticmethod(chk), _make=staticmethod(make))
    if kind:
        d.update(_npkind=kind, _tag=tag)
    return _NpMeta(nm, (), d)


kind_dtype = {k: Dtype(k) for k in "bifc"}
float64 = _nptype("float64", "f", "f")
complex128 = _nptype("complex128", "c", "c")
int64 = _nptype("int64", "i", "i")
np_bool = _nptype("bool_", "b", "b")
float32 = _nptype("float32", "", "f", "float32")
generic = _nptype("generic", "bifc")
number = _nptype("number", "ifc")
floating = _nptype("floating", "f")
inexact = _nptype("inexact", "fc")
integer = _nptype("integer", "i")
complexfloating = _nptype("complexfloating", "c")


class ndarray(metaclass=_NpMeta):
    _check = staticmethod(lambda x: isinstance(x, SArr))

    @staticmethod
    def _make(*a, **k):
        raise Unsupported("numpy.ndarray()")


# ---------------------------------------------------------------- construction
def shape_of(s):
    if is_num(s) or isinstance(s, z3.ArithRef):
        return (it(s),)
    if isinstance(s, SArr):
        s = s.tolist()
    r = []
    for x in s:
        r.append(it(x))
    return tuple(r)


def _nonneg(shp):
    for s in shp:
        v = numval(s)
        if v is not None:
            if v < 0:
                raise ValueError("negative dimensions are not allowed")
        elif not cur().quick(s >= 0):
            if not cur().fork(s >= 0):
                raise ValueError("negative dimensions are not allowed")
    return shp


def _const(shape, dtype, v, dflt="f"):
    d = as_dtype(dtype) if dtype is not None else Dtype(dflt)
    s = lift(v)
    return mat(_nonneg(shape_of(shape)), d.kind, lambda idx: cast(s.e, s.kind, d.kind), dt=d.tag)


def zeros(shape, dtype=None, order="C"):
    return _const(shape, dtype, 0)


def ones(shape, dtype=None, order="C"):
    return _const(shape, dtype, 1)


def full(shape, fill_value, dtype=None, order="C"):
    if isinstance(fill_value, SArr) and fill_value.ndim:
        r = empty(shape, dtype or fill_value.dtype)
        r[...] = fill_value
        return r
    return _const(shape, dtype, fill_value, lift(fill_value).kind)


def empty(shape, dtype=None, order="C"):
    d = as_dtype(dtype) if dtype is not None else Dtype("f")
    return A.fresh_arr("hv!empty", _nonneg(shape_of(shape)), d.kind)


def _like(a, dtype):
    a = as_arr(a)
    return a, (as_dtype(dtype) if dtype is not None else Dtype(a.kind, a.buf.dt))


def zeros_like(a, dtype=None, **k):
    a, d = _like(a, dtype)
    return _const([ival(s) for s in a.shp], d, 0)


def ones_like(a, dtype=None, **k):
    a, d = _like(a, dtype)
    return _const([ival(s) for s in a.shp], d, 1)


def empty_like(a, dtype=None, **k):
    a, d = _like(a, dtype)
    return empty([ival(s) for s in a.shp], d)


def full_like(a, v, dtype=None, **k):
    a, d = _like(a, dtype)
    return full([ival(s) for s in a.shp], v, d)


def _isobj(dtype):
    from . import pybuiltins as P
    return dtype in (object, list, P.list_, "object", "O")


def array(x, dtype=None, copy=True, order=None, ndmin=0, **k):
    if dtype is not None and not isinstance(dtype, Dtype) and _isobj(dtype):
        from .pybuiltins import to_plist
        return to_plist(x)
    if hasattr(x, "toarray") and not isinstance(x, SArr):
        raise Unsupported("np.array of a sparse matrix")
    from . import loops
    if isinstance(x, loops.Seq):
        from .pybuiltins import to_plist
        x = to_plist(x)
    a = as_arr(x)
    if dtype is not None:
        r = a.astype(dtype)
    else:
        r = a.copy()
    for _ in range(ndmin - r.ndim):
        r = r[None]
    return r


def asarray(x, dtype=None, order=None, **k):
    if isinstance(x, SArr) and (dtype is None or as_dtype(dtype).kind == x.kind):
        return x
    return array(x, dtype)


def copy(a, order="K"):
    return as_arr(a).copy()


def atleast_1d(*xs):
    r = [as_arr(x) if as_arr(x).ndim else as_arr(x).reshape(1) for x in xs]
    return r[0] if len(r) == 1 else r


def atleast_2d(x):
    a = as_arr(x)
    if a.ndim >= 2:
        return a
    return a.reshape(1, 1) if a.ndim == 0 else a[None, :]


def arange(*a, dtype=None):
    from .pybuiltins import range_
    if any(isinstance(x, float) or (isinstance(x, Sc) and x.kind == "f") for x in a):
        raise Unsupported("arange of floats")
    r = range_(*a)
    from .loops import to_seq
    s = to_seq(r)
    if s.concrete():
        out = from_list(list(s.items())) if len(s.items()) else zeros(0, Dtype("i"))
    else:
        out = mat((s.n,), "i", lambda idx: lift(s.item(idx[0])).e)
    return out if dtype is None else out.astype(dtype)


def linspace(a, b, num=50, endpoint=True, **k):
    n = it(num)
    a, b = rterm(a), rterm(b)
    den = t_sub(n, I1) if endpoint else n
    return mat((n,), "f", lambda idx: (t_add(a, t_div(t_mul(t_sub(b, a), to_real(idx[0])), to_real(den))),))


def eye(n, m=None, k=0, dtype=None, **kw):
    d = as_dtype(dtype) if dtype is not None else Dtype("f")
    m = n if m is None else m
    return mat((it(n), it(m)), d.kind, lambda idx: cast((t_cmp("eq", t_add(idx[0], it(k)), idx[1]),), "b", d.kind))


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def diag(v, k=0):
    v = as_arr(v)
    f, kd = v.snap(), v.kind
    if v.ndim == 1 and k == 0:
        z = cast((z3.IntVal(0),), "i", kd)
        return mat((v.shp[0], v.shp[0]), kd, lambda idx: tuple(t_ite(t_cmp("eq", idx[0], idx[1]), x, y) for x, y in zip(f((idx[0],)), z)))
    if v.ndim == 2 and k == 0 and v.shp[0].eq(v.shp[1]):
        return mat((v.shp[0],), kd, lambda idx: f((idx[0], idx[0])))
    raise Unsupported("np.diag")


# ---------------------------------------------------------------- elementwise
def _scalar_or(a):
    return a


def ew1f(x, fn, kind):
    """fn(elem, kind)->elem; result kind given by kind(k)"""
    a = as_arr(x)
    ka = a.kind
    k = kind(ka)
    if a.ndim == 0:
        return mkscalar(k, fn(a.read(()), ka), True)
    f = a.snap()
    return mat(a.shp, k, lambda idx: fn(f(idx), ka))


def _nokw(k):
    if any(v is not None for v in k.values()):
        raise Unsupported("ufunc keyword arguments")


def abs_(x, **k):
    _nokw(k)
    if isinstance(x, Sc) or is_num(x):
        s = lift(x)
        r = abs(s)
        s2 = lift(r)
        return Sc(s2.kind, s2.e, True)
    return abs(as_arr(x))


def _tofl(k):
    return "c" if k == "c" else "f"


def sqrt(x, **k):
    _nokw(k)

    def fn(e, kd):
        if kd == "c":
            raise Unsupported("complex sqrt")
        return (core.t_sqrt(cast(e, kd, "f")[0]),)
    return ew1f(x, fn, lambda kd: "f")


def exp(x, **k):
    _nokw(k)
    return ew1f(x, lambda e, kd: e_exp(e, kd), _tofl)


def _real1(fn):
    def f(x, **k):
        _nokw(k)

        def g(e, kd):
            if kd == "c":
                raise Unsupported("complex argument")
            return (fn(cast(e, kd, "f")[0]),)
        return ew1f(x, g, lambda kd: "f")
    return f


log, cos, sin = _real1(core.t_log), _real1(core.t_cos), _real1(core.t_sin)
tan = _real1(lambda t: t_div(core.t_sin(t), core.t_cos(t)))


def _log10(t):
    r = core.F_log10(t)
    cur().axiom(("log10", t), z3.Implies(t > 0, z3.And((t < 1) == (r < 0), (t == 1) == (r == 0))))
    return r


log10 = _real1(_log10)
degrees = _real1(lambda t: t_div(t_mul(t, z3.RealVal(180)), core.t_pi()))
radians = _real1(lambda t: t_div(t_mul(t, core.t_pi()), z3.RealVal(180)))
floor = _real1(lambda t: to_real(core.t_floor(t)))
ceil = _real1(lambda t: t_neg(to_real(core.t_floor(t_neg(t)))))


def square(x, **k):
    return x * x if not isinstance(x, (PList, list, tuple)) else from_list(x) ** 2


def real(x):
    return as_arr(x).real if not is_num(x) else npsc(lift(x).real)


def imag(x):
    return as_arr(x).imag if not is_num(x) else npsc(lift(x).imag)


def npsc(x):
    s = lift(x)
    return Sc(s.kind, s.e, True)


def conj(x, **k):
    return as_arr(x).conj() if not is_num(x) else npsc(lift(x).conjugate())


def sign(x, **k):
    def g(e, kd):
        if kd == "c":
            raise Unsupported("complex sign")
        z = z3.IntVal(0) if kd == "i" else ZERO
        mk = (lambda v: z3.IntVal(v)) if kd == "i" else (lambda v: z3.RealVal(v))
        return (t_ite(t_cmp("gt", e[0], z), mk(1), t_ite(t_cmp("lt", e[0], z), mk(-1), mk(0))),)
    return ew1f(x, g, lambda kd: kd)


def _op(nm):
    def f(a, b, **k):
        _nokw(k)
        return A.ew2(nm, a, b) if isinstance(a, SArr) or isinstance(b, SArr) else A.ew2(nm, as_arr(a), as_arr(b))
    return f


def angle(z):
    raise Unsupported("np.angle")


def isnan(x, **k):
    return ew1f(x, lambda e, kd: (z3.BoolVal(False),), lambda kd: "b")


def isfinite(x, **k):
    return ew1f(x, lambda e, kd: (z3.BoolVal(True),), lambda kd: "b")


def logical_not(x, **k):
    return ew1f(x, lambda e, kd: (t_not(cast(e, kd, "b")[0]),), lambda kd: "b")


def _logic(op):
    def f(a, b, **k):
        _nokw(k)
        a, b = as_arr(a), as_arr(b)
        ka, kb = a.kind, b.kind
        return A.ew(lambda es: (op(cast(es[0], ka, "b")[0], cast(es[1], kb, "b")[0]),), "b", a, b)
    return f


logical_and, logical_or = _logic(t_and), _logic(t_or)


def where(c, *ab):
    if not ab:
        return nonzero(c)
    return A.where3(c, *ab)


def clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = _op("max")(r, lo)
    if hi is not None:
        r = _op("min")(r, hi)
    return r


def nan_to_num(x, **k):
    return as_arr(x).copy()


# ---------------------------------------------------------------- reductions
def sum_(a, axis=None, dtype=None, keepdims=False, **k):
    from . import loops
    if isinstance(a, loops.Seq):
        from .pybuiltins import to_plist
        a = to_plist(a)
    return A.reduce_sum(as_arr(a), axis, keepdims)


def mean(a, axis=None, **k):
    a = as_arr(a)
    if axis is None and a.ndim == 1:
        p = cur()
        if not p.quick(a.shp[0] > 0):
            p.fork(a.shp[0] > 0)       # an empty mean is nan with a warning
    return a.mean(axis)


def prod(a, axis=None, **k):
    a = as_arr(a)
    n = numval(total(a.shp))
    if n is None or a.ndim != 1:
        raise Unsupported("np.prod")
    r = 1
    for i in range(int(n)):
        r = r * a[i]
    return r


def _ax(which):
    def f(a, axis=None, **k):
        return A.reduce_ext(as_arr(a), which, axis)
    return f


def any_(a, axis=None, **k):
    return A.reduce_any(as_arr(a), axis)


def all_(a, axis=None, **k):
    return as_arr(a).all(axis)


def count_nonzero(a, axis=None):
    a = as_arr(a)
    if axis is not None:
        raise Unsupported("count_nonzero(axis)")
    k = a.kind
    m = A.get_mask(A.ew1(lambda e: cast(e, k, "b"), a, "b"))
    return mkscalar("i", (m.cnt,), True)


def argmax(a, axis=None):
    a = as_arr(a)
    if axis is not None and not (a.ndim == 1 and axis in (0, -1)):
        if a.ndim == 2 and axis in (1, -1):
            f, n, kd = a.snap(), a.shp[1], a.kind
            return mat((a.shp[0],), "i", lambda idx: (_argmax(n, lambda j: f((idx[0], j)), kd),))
        raise Unsupported("argmax(axis)")
    if a.ndim != 1:
        a = A.ravel(a)
    p = cur()
    if not p.quick(a.shp[0] > 0) and not p.fork(a.shp[0] > 0):
        raise ValueError("attempt to get argmax of an empty sequence")
    f = a.snap()
    return mkscalar("i", (_argmax(a.shp[0], lambda j: f((j,)), a.kind),), True)


def _argmax(n, f, kind):
    p = cur()
    b = p.bound(n)
    body = list(f(b))
    if kind == "c" and numval(body[1]) == 0:        # real numbers in complex dress: the order is that of the real parts
        body, kind = body[:1], "f"
    if kind == "b":
        body = [cast((body[0],), "b", "i")[0]]
    r = p.opaque("argmax", [(n, b)], body, sort="i")
    if p.once(("argmax", r)):
        p.add(z3.Implies(n > 0, z3.And(r >= 0, r < n)))
        if kind in "if":
            p.idx_terms.append(r)
            p.qfacts.append((1, lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(f(j)[0] <= f(r)[0], z3.Implies(j < r, f(j)[0] < f(r)[0])))))
    return r


def argmin(a, axis=None):
    return argmax(-as_arr(a), axis)


def nonzero(a):
    a = as_arr(a)
    k = a.kind
    b = a if k == "b" else A.ew1(lambda e: cast(e, k, "b"), a, "b")
    m = A.get_mask(b)
    r = tuple(mat((m.cnt,), "i", lambda idx, d=d: (m.at_sel(idx[0])[d],)) for d in range(a.ndim))
    if a.ndim == 1:
        f = b.snap()
        r[0].lastnz = (a.shp[0], lambda i: f((i,))[0], r[0].buf.ef)
    return r


def flatnonzero(a):
    return nonzero(A.ravel(as_arr(a)))[0]


def opaque_arr(name, args, out_shape, kind, extra=()):
    """array whose entries are an uninterpreted function of the (whole) argument arrays and the scalar terms"""
    p = cur()
    dims, bodies = [], []
    for a in args:
        a = as_arr(a)
        bs = tuple(p.bound(s) for s in a.shp)
        e = a.read(bs)
        dims += list(zip(a.shp, bs))
        bodies += list(cast(e, a.kind, "c") if a.kind in "fi" else e)
    n = len(out_shape)
    extra = list(extra)
    out_shape = tuple(simp(it(s)) for s in out_shape)
    nc = 2 if kind == "c" else 1
    srt = {"c": "f"}.get(kind, kind)
    ds = [p.opaque_decl(name + ("_re", "_im")[c] if nc == 2 else name, dims, bodies, extra, out_shape, srt) for c in range(nc)]

    def fn(idx):
        return tuple(d(*ps, *idx) if isinstance(d, z3.FuncDeclRef) else d for d, ps in ds)
    return mat(out_shape, kind, fn)


def sort(a, axis=-1, **k):
    if any(v is not None for v in k.values()):
        raise Unsupported("sort keywords")
    a = as_arr(a)
    if a.ndim != 1 or a.kind == "c":
        raise Unsupported("sort")
    r = opaque_arr("sort", [a], a.shp, "f" if a.kind == "f" else "f")
    p = cur()
    n = a.shp[0]
    f = r.snap()
    p.qfacts.append((2, lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j < n), f((i,))[0] <= f((j,))[0])))
    return r


def quantile(a, q, axis=None, method="linear", interpolation=None, **k):
    if method != "linear" or interpolation not in (None, "linear") or any(v not in (None, False) for v in k.values()):
        raise Unsupported("quantile method")
    a = as_arr(a)
    if a.kind == "c":
        raise TypeError("a must be an array of real numbers")
    p = cur()
    if axis is None:
        if a.ndim != 1:
            a = A.ravel(a)
        axis = 0
    ax = axis % a.ndim
    f, n, ka = a.snap(), a.shp[ax], a.kind
    rest = a.shp[:ax] + a.shp[ax + 1:]
    if not p.quick(n > 0) and not p.fork(n > 0):
        raise IndexError("index -1 is out of bounds for axis 0 with size 0")
    qa = as_arr(q)

    for ii in _allidx(qa):
        t = cast(qa.read(ii), qa.kind, "f")[0]
        if not p.quick(z3.And(t >= 0, t <= 1)):
            if not p.fork(z3.And(t >= 0, t <= 1)):
                raise ValueError("Quantiles must be in the range [0, 1]")
    qf, qk, qn = qa.snap(), qa.kind, qa.ndim

    def elem(idx):
        qt = cast(qf(tuple(idx[:qn])), qk, "f")[0]
        r = idx[qn:]
        return (_quant(n, lambda b: cast(f(tuple(r[:ax]) + (b,) + tuple(r[ax:])), ka, "f")[0], qt),)
    out = mat(qa.shp + rest, "f", elem)
    return out if out.ndim else mkscalar("f", out.read(()), True)


def _allidx(a):
    dims = [numval(s) for s in a.shp]
    if any(d is None for d in dims):
        raise Unsupported("array of quantile levels of symbolic length")
    out = [()]
    for d in dims:
        out = [o + (z3.IntVal(j),) for o in out for j in range(int(d))]
    return out


def _quant(n, f, q):
    """q-quantile of f(0..n-1): monotone in q and between the extremes"""
    p = cur()
    b = p.bound(n)
    q = z3.simplify(q)
    r = p.opaque("quantile", [(n, b)], [to_real(f(b))], extra=[q])
    if not p.has_bound(r) and p.once(("quant", r)):
        lst = p.ghost.setdefault("_quants", [])
        for (n2, f2, q2, r2) in lst:
            if n2.eq(n):
                c = p.bound(n)
                x, y = to_real(f(c)), to_real(f2(c))
                if x.eq(y) or p.equal_terms(x, y):
                    p.add(z3.And(z3.Implies(q <= q2, r <= r2), z3.Implies(q >= q2, r >= r2)))
        lst.append((n, f, q, r))
        w = z3.Int(p.fresh("g!w"))
        v = z3.Int(p.fresh("g!w"))
        p.idx_terms += [w, v]
        p.add(z3.Implies(n > 0, z3.And(w >= 0, w < n, v >= 0, v < n, to_real(f(w)) <= r, r <= to_real(f(v)))))
        p.qfacts.append((1, lambda j: z3.Implies(z3.And(0 <= j, j < n, q == 1), to_real(f(j)) <= r)))
        p.qfacts.append((1, lambda j: z3.Implies(z3.And(0 <= j, j < n, q == 0), to_real(f(j)) >= r)))
    return r


def percentile(a, q, axis=None, **k):
    qa = as_arr(q)
    q2 = A.ew2("div", qa, 100) if qa.ndim else qa.item() / 100
    return quantile(a, q2, axis=axis, **k)


def median(a, axis=None, **k):
    return quantile(a, Sc("f", (z3.RealVal("1/2"),)), axis=axis)


def diff(a, n=1, axis=-1, **k):
    a = as_arr(a)
    if n != 1 or k:
        raise Unsupported("np.diff")
    ax = axis % a.ndim
    hi = a[tuple([slice(None)] * ax + [slice(1, None)])]
    lo = a[tuple([slice(None)] * ax + [slice(None, -1)])]
    return hi - lo


def ptp(a, axis=None, **k):
    return _ax("max")(a, axis) - _ax("min")(a, axis)


def cumsum(a, axis=None, **k):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum")
    f, kd = a.snap(), a.kind
    if kd == "c":
        raise Unsupported("complex cumsum")
    return mat(a.shp, "f" if kd != "i" else "f", lambda idx: (sum_term(t_add(idx[0], I1), lambda b: to_real(cast(f((b,)), kd, "f")[0])),))


# ---------------------------------------------------------------- linear algebra
def vdot(a, b):
    a, b = as_arr(a), as_arr(b)
    a = A.ravel(a) if a.ndim != 1 else a
    b = A.ravel(b) if b.ndim != 1 else b
    if not dim_eq(a.shp[0], b.shp[0]):
        raise ValueError("cannot reshape array")
    return _dot1(a.conj(), b)


def _dot1(a, b):
    ka, kb = a.kind, b.kind
    k = promote(ka, kb)
    fa, fb = a.snap(), b.snap()
    if k == "b":
        raise Unsupported("dot of bools")
    n = a.shp[0]

    def el(i):
        return e_mul(cast(fa((i,)), ka, k), cast(fb((i,)), kb, k))
    es = tuple(sum_term(n, lambda i, c=c: to_real(el(i)[c])) for c in range(2 if k == "c" else 1))
    return mkscalar("f" if k == "i" else k, es, True)


def matmul(a, b, **kw):
    from .extshim import SpM
    if isinstance(a, SpM):
        return a @ b
    if isinstance(b, SpM):
        return b.__rmatmul__(a)
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim == 1 and b.ndim == 1:
        if not dim_eq(a.shp[0], b.shp[0]):
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
        return _dot1(a, b)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("stacked matmul")
    if not dim_eq(a.shp[-1], b.shp[0]):
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    ka, kb = a.kind, b.kind
    k = promote(ka, kb, "f")
    fa, fb, n = a.snap(), b.snap(), a.shp[-1]
    na, nb = a.ndim, b.ndim

    def fn(idx):
        i = idx[:na - 1]
        j = idx[na - 1:]

        def el(c):
            return e_mul(cast(fa(tuple(i) + (c,)), ka, k), cast(fb((c,) + tuple(j)), kb, k))
        return tuple(sum_term(n, lambda c, q=q: el(c)[q]) for q in range(2 if k == "c" else 1))
    return mat(a.shp[:-1] + b.shp[1:], k, fn)


def dot(a, b, out=None):
    from .extshim import SpM
    if is_num(a) or is_num(b):
        return a * b
    if isinstance(a, SpM) or isinstance(b, SpM):
        raise Unsupported("np.dot of a sparse matrix")
    return matmul(a, b)


def outer(a, b, out=None):
    a, b = A.ravel(as_arr(a)), A.ravel(as_arr(b))
    return A.ew2("mul", a[:, None], b[None, :])


def lnorm(x, ord=None, axis=None, **k):
    if axis is not None:
        raise Unsupported("norm(axis)")
    a = as_arr(x)
    if ord == 1 and a.ndim == 1:
        return A.reduce_sum(abs(a))
    if ord not in (None, 2, "fro") or (ord == 2 and a.ndim != 1):
        raise Unsupported("norm")
    k = a.kind
    sq = A.ew1(lambda e: ((t_add(t_mul(e[0], e[0]), t_mul(e[1], e[1])),) if k == "c" else (t_mul(to_real(cast(e, k, "f")[0]), to_real(cast(e, k, "f")[0])),)), a, "f")
    return sqrt(A.reduce_sum(sq))


def inv(a):
    a = as_arr(a)
    if a.ndim != 2:
        raise Unsupported("inv")
    if not dim_eq(a.shp[0], a.shp[1]):
        raise ValueError("Last 2 dimensions of the array must be square")   # LinAlgError is a ValueError
    return opaque_arr("matinv", [a], a.shp, "c" if a.kind == "c" else "f")


# ---------------------------------------------------------------- joining and shaping
def _pieces(xs):
    from . import loops
    if isinstance(xs, SArr):
        xs = xs if numval(xs.shp[0]) is not None else PList([], (xs.shp[0], lambda k: loops.basic_view_at(xs, k)))
    if isinstance(xs, loops.Seq):
        from .pybuiltins import to_plist
        xs = to_plist(xs)
    if isinstance(xs, PList):
        return xs
    return PList(list(xs))


def concatenate(xs, axis=0, **k):
    xs = _pieces(xs)
    if axis is None:
        raise Unsupported("concatenate(axis=None)")
    if not xs.concrete():
        return concat_seg(xs)
    items = [as_arr(x) for x in xs.items]
    if not items:
        raise ValueError("need at least one array to concatenate")
    if any(x.ndim == 0 for x in items):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    ax = axis % items[0].ndim
    for x in items[1:]:
        if x.ndim != items[0].ndim:
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        for d in range(x.ndim):
            if d != ax and not dim_eq(x.shp[d], items[0].shp[d]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    kind = promote(*[x.kind for x in items])
    sn = [(x.snap(), x.kind, x.shp[ax]) for x in items]
    n = I0
    offs = []
    for _, _, s in sn:
        offs.append(n)
        n = simp(t_add(n, s))
    shp = list(items[0].shp)
    shp[ax] = n

    def fn(idx):
        i = idx[ax]
        r = None
        for (f, kd, s), o in reversed(list(zip(sn, offs))):
            if numval(s) == 0:
                continue
            e = cast(f(tuple(idx[:ax]) + (simp(t_sub(i, o)),) + tuple(idx[ax + 1:])), kd, kind)
            r = e if r is None else tuple(t_ite(t_cmp("lt", i, simp(t_add(o, s))), x, y) for x, y in zip(e, r))
        return r if r is not None else cast((ZERO,), "f", kind)
    return mat(shp, kind, fn)


def has_decl(t, d):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_app(x):
            if x.decl().eq(d):
                return True
            st += x.children()
    return False


def offsets(n, lenf):
    """Off(j) = sum of the first j lengths, with Off(0)=0, Off(j+1)=Off(j)+len(j) instantiated where it occurs; and
    the piece index P(x) with Off(P(x)) <= x < Off(P(x)+1)"""
    p = cur()
    b = p.bound(n)
    d, ps = p.opaque_decl("off", [(n, b)], [lenf(b)], (), (n,), "i")
    P, ps2 = p.opaque_decl("piece", [(n, b)], [lenf(b)], (), (n,), "i")
    off = lambda j: d(*ps, j)  # noqa
    pc = lambda x: P(*ps2, x)  # noqa
    if p.once(("offs", d) + tuple(ps)):
        np_ = len(ps)

        def same(args):
            return t_and(*[x == y for x, y in zip(args[:np_], ps) if not x.eq(y)])

        def t_off(args):
            j = args[np_]
            fs = [off(I0) == 0, z3.Implies(z3.And(j >= 0, j < n), z3.And(off(t_add(j, I1)) == off(j) + lenf(j), lenf(j) >= 0, off(j) >= 0, off(t_add(j, I1)) <= off(n))),
                  z3.Implies(z3.And(j >= 1, j <= n), z3.And(off(j) == off(t_sub(j, I1)) + lenf(t_sub(j, I1)), off(j) >= 0, off(t_sub(j, I1)) >= 0))]
            return z3.Implies(same(args), z3.And(*fs))

        def t_piece(args):
            x = args[np_]
            q = pc(x)
            f = z3.Implies(t_and(same(args), x >= 0, x < off(n)), z3.And(q >= 0, q < n, off(q) <= x, x < off(q) + lenf(q), off(t_add(q, I1)) == off(q) + lenf(q)))
            # the blocks are disjoint (lengths are non-negative): the block x lies in is piece(x)
            js = [I0] + [j for j in p.idx_terms if not j.eq(x) and not has_decl(j, P)]
            return z3.And(f, *[z3.Implies(t_and(same(args), j >= 0, j < n, off(j) <= x, x < off(j) + lenf(j)), q == j) for j in js])
        p.trigs.append((d.name(), t_off))
        p.trigs.append((P.name(), t_piece))
    return off, pc


def concat_seg(xs):
    """concatenation of a symbolic number of vectors"""
    p = cur()
    st = PList(*xs.copy_state())
    n, fn = st.seg
    p.nofork += 1
    try:
        probe = as_arr(fn(p.bound(n)))
    finally:
        p.nofork -= 1
    if probe.ndim != 1:
        raise Unsupported("concatenation of a symbolic number of matrices")
    cache = {}

    def piece(k):
        return as_arr(fn(k))
    kind = promote(probe.kind, *[as_arr(x).kind for x in st.items + st.tail])
    if not p.has_bound(probe.shp[0]):
        # pieces of one common length
        ln = probe.shp[0]

        def elu(idx):
            q, r = core.t_divmod(idx[0], ln)
            pp = piece(q)
            return cast(pp.read((r,)), pp.kind, kind)
        if not p.quick(n >= 0):
            raise Unsupported("concatenation of a list of unknown length")
        mid_list = [as_arr(x) for x in st.items] + [mat((simp(t_mul(n, ln)),), kind, elu)] + [as_arr(x) for x in st.tail]
        return mid_list[0] if len(mid_list) == 1 else concatenate(mid_list)
    off, pc = offsets(n, lambda j: piece(j).shp[0])

    def el(idx):
        x = idx[0]
        q = pc(x)
        pp = piece(q)
        return cast(pp.read((t_sub(x, off(q)),)), pp.kind, kind)
    if not p.quick(n >= 1):
        p.fork(n >= 1)
    mid = mat((off(n),), kind, el)
    p.add(off(n) >= 0)
    p.add(off(I0) == 0)
    mid_list = [as_arr(x) for x in st.items] + [mid] + [as_arr(x) for x in st.tail]
    if len(mid_list) == 1:
        return mid
    return concatenate(mid_list)


def hstack(xs, **k):
    xs = _pieces(xs)
    if not xs.concrete():
        return concat_seg(xs)
    items = [atleast_1d(x) for x in xs.items]
    return concatenate(items, axis=0 if items[0].ndim == 1 else 1)


def vstack(xs, **k):
    xs = _pieces(xs)
    if not xs.concrete():
        raise Unsupported("vstack of a symbolic list")
    return concatenate([atleast_2d(x) for x in xs.items], axis=0)


def stack(xs, axis=0, **k):
    xs = _pieces(xs)
    if axis == 0:
        return from_list(xs)
    if axis in (1, -1):
        a = from_list(xs)
        if a.ndim == 2:
            return A.transpose(a).copy()
    raise Unsupported("stack")


def append(a, v, axis=None):
    if axis is None:
        a, v = as_arr(a), as_arr(v)
        return concatenate([A.ravel(a) if a.ndim != 1 else a, atleast_1d(v if v.ndim <= 1 else A.ravel(v))])
    return concatenate([a, v], axis=axis)


def insert(a, i, v, axis=None):
    a = as_arr(a)
    if a.ndim == 1 and isinstance(i, int) and i == 0 and is_num(v):
        return concatenate([from_list([v]), a])
    raise Unsupported("np.insert")


def ravel(a, order="C"):
    return A.ravel(as_arr(a), order)


def reshape(a, shape, order="C", **k):
    return A.reshape(as_arr(a), shape_of(shape), order)


def transpose(a, axes=None):
    return A.transpose(as_arr(a)) if axes is None else A.transpose(as_arr(a), *axes)


def squeeze(a, axis=None):
    return as_arr(a).squeeze(axis)


def expand_dims(a, axis):
    a = as_arr(a)
    ax = axis % (a.ndim + 1)
    return a[tuple([slice(None)] * ax + [None])]


def broadcast_to(a, shape, **k):
    a = as_arr(a)
    shp = shape_of(shape)
    full_, maps = A.bcast([shp, a.shp])
    f, m = a.snap(), maps[1]
    r = mat(shp, a.kind, lambda idx: f(m(idx)))
    r.buf.readonly = True
    return r


def repeat(a, n, axis=None):
    a = as_arr(a)
    if isinstance(n, (SArr, PList, list, tuple)):
        raise Unsupported("repeat with a vector of counts")
    if axis is None:
        a = A.ravel(a) if a.ndim != 1 else a
        b = broadcast_to(a[:, None], (a.shape[0], n))
        return A.reshape(b.copy(), (t_mul(a.shp[0], it(n)),))
    if a.ndim == 2 and axis in (1, -1) and numval(a.shp[1]) == 1:
        return broadcast_to(a, (a.shape[0], n)).copy()
    if a.ndim == 2 and axis == 0 and numval(a.shp[0]) == 1:
        return broadcast_to(a, (n, a.shape[1])).copy()
    raise Unsupported("repeat(axis)")


def tile(a, reps):
    a = as_arr(a)
    if a.ndim == 1 and is_num(reps):
        return A.reshape(broadcast_to(a[None, :], (reps, a.shape[0])).copy(), (t_mul(it(reps), a.shp[0]),))
    if a.ndim == 1 and isinstance(reps, tuple) and len(reps) == 2 and reps[1] == 1:
        return broadcast_to(a[None, :], (reps[0], a.shape[0])).copy()
    raise Unsupported("tile")


def meshgrid(x, y, indexing="xy", **k):
    x, y = as_arr(x), as_arr(y)
    if indexing == "xy":
        return PList([broadcast_to(x[None, :], (y.shape[0], x.shape[0])).copy(), broadcast_to(y[:, None], (y.shape[0], x.shape[0])).copy()])
    return PList([broadcast_to(x[:, None], (x.shape[0], y.shape[0])).copy(), broadcast_to(y[None, :], (x.shape[0], y.shape[0])).copy()])


def flip(a, axis=None):
    a = as_arr(a)
    if a.ndim == 1:
        return a[::-1]
    raise Unsupported("flip")


def roll(a, shift, axis=None):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("roll")
    n, f = a.shp[0], a.snap()
    s = it(shift)

    def fn(idx):
        _, r = t_divmod(t_sub(idx[0], s), n)
        return f((r,))
    return mat(a.shp, a.kind, fn)


def _half(n):
    q, _ = t_divmod(n, z3.IntVal(2))
    return q


def fftshift(x, axes=None):
    a = as_arr(x)
    if a.ndim != 1:
        raise Unsupported("fftshift")
    n, f = a.shp[0], a.snap()
    h = t_sub(n, _half(n))     # out[i] = x[(i - n//2) mod n] = x[i + (n - n//2)] or wrapped

    def fn(idx):
        j = t_add(idx[0], h)
        return f((t_ite(t_cmp("lt", j, n), j, t_sub(j, n)),))
    return mat(a.shp, a.kind, fn)


def ifftshift(x, axes=None):
    a = as_arr(x)
    if a.ndim != 1:
        raise Unsupported("ifftshift")
    n, f = a.shp[0], a.snap()
    h = _half(n)

    def fn(idx):
        j = t_add(idx[0], h)
        return f((t_ite(t_cmp("lt", j, n), j, t_sub(j, n)),))
    return mat(a.shp, a.kind, fn)


def fft(x, n=None, axis=-1, norm=None):
    a = as_arr(x)
    if a.ndim != 1 or n is not None or norm not in (None, "backward"):
        raise Unsupported("fft")
    return opaque_arr("fft", [a.astype(kind_dtype["c"])], a.shp, "c")


def ifft(x, n=None, axis=-1, norm=None):
    a = as_arr(x)
    if a.ndim != 1 or n is not None or norm not in (None, "backward"):
        raise Unsupported("ifft")
    return opaque_arr("ifft", [a.astype(kind_dtype["c"])], a.shp, "c")


def hfft(x, n=None):
    raise Unsupported("hfft")


# ---------------------------------------------------------------- queries
def iscomplexobj(x):
    if hasattr(x, "kind") and isinstance(x, (SArr, Sc)):
        return x.kind == "c"
    if hasattr(x, "dtype"):
        return x.dtype.kind == "c"
    if isinstance(x, (list, tuple, PList)):
        return from_list(x).kind == "c"
    return isinstance(x, complex)


def isrealobj(x):
    return not iscomplexobj(x)


def isscalar(x):
    return is_num(x) or isinstance(x, str)


def ndim(x):
    if is_num(x):
        return 0
    if isinstance(x, (list, tuple, PList)):
        return from_list(x).ndim
    try:
        return x.ndim
    except AttributeError:
        return as_arr(x).ndim


def shape(x):
    return as_arr(x).shape


def size(x, axis=None):
    a = as_arr(x)
    return a.size if axis is None else a.shape[axis]


def array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim or not all(dim_eq(x, y) for x, y in zip(a.shp, b.shp)):
        return False
    return all_(A.ew2("eq", a, b))


def _unsup(nm):
    def f(*a, **k):
        raise Unsupported(f"numpy.{nm}")
    return f


class NS:
    """module stand-in; unknown names make the run Unsupported"""

    def __init__(self, nm, d):
        self.__dict__["_nm"] = nm
        self.__dict__.update(d)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"{self._nm}.{k}")

    def __setattr__(self, k, v):
        raise Unsupported(f"assignment to {self._nm}.{k}")


# ---------------------------------------------------------------- random draws
# Each draw of a distribution is a member of one family of independent variates, numbered by a ghost counter:
# draw c of the standard normal is the vector  RN(c, 0), RN(c, 1), ...
DRAWS = {d: z3.Function("draw_" + d, INT, INT, REAL) for d in ("normal", "laplace", "uniform")}


def draw(dist, size):
    p = cur()
    g = "rng_" + dist
    c = it(p.ghost.get(g, 0))
    p.ghost[g] = ival(t_add(c, I1))
    return draw_at(dist, size, c)


def draw_at(dist, size, c):
    F = DRAWS[dist]

    def el(i):
        r = F(c, i)
        if dist == "uniform":
            p2 = cur()
            p2.axiom(("unif", r), z3.And(r > 0, r < 1))
        return (r,)
    if size is None:
        return mkscalar("f", el(I0), True)
    shp = _nonneg(shape_of(size))
    if len(shp) == 1:
        return mat(shp, "f", lambda idx: el(idx[0]))
    return mat(shp, "f", lambda idx: el(A.flat_index(idx, shp)))


def randn(*n):
    return draw("normal", None if not n else n)


def standard_normal(size=None):
    return draw("normal", size)


def normal(loc=0, scale=1, size=None):
    r = draw("normal", size)
    if not (is_num(scale) and isinstance(scale, int) and scale == 1):
        r = scale * r
    if not (is_num(loc) and isinstance(loc, int) and loc == 0):
        r = loc + r
    return r


def rand(*n):
    return draw("uniform", None if not n else n)


def random_(size=None):
    return draw("uniform", size)


def uniform(low=0, high=1, size=None):
    r = draw("uniform", size)
    if not (isinstance(low, int) and low == 0 and isinstance(high, int) and high == 1):
        r = low + (high - low) * r
    return r


def laplace(loc=0, scale=1, size=None):
    r = draw("laplace", size)
    if not (isinstance(scale, int) and scale == 1):
        r = scale * r
    if not (isinstance(loc, int) and loc == 0):
        r = loc + r
    return r


class _Errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def module():
    rnd = NS("numpy.random", dict(randn=randn, standard_normal=standard_normal, normal=normal, rand=rand, random=random_, random_sample=random_,
                                  uniform=uniform, laplace=laplace))
    lin = NS("numpy.linalg", dict(norm=lnorm, inv=inv, LinAlgError=ValueError))
    ff = NS("numpy.fft", dict(fft=fft, ifft=ifft, fftshift=fftshift, ifftshift=ifftshift))
    d = dict(
        zeros=zeros, ones=ones, full=full, empty=empty, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like,
        array=array, asarray=asarray, ascontiguousarray=asarray, asanyarray=asarray, copy=copy, atleast_1d=atleast_1d, atleast_2d=atleast_2d, arange=arange,
        linspace=linspace, eye=eye, identity=identity, diag=diag, abs=abs_, absolute=abs_, fabs=abs_, sqrt=sqrt, exp=exp, log=log, cos=cos, sin=sin, tan=tan,
        log10=log10, degrees=degrees, rad2deg=degrees, radians=radians, deg2rad=radians, floor=floor, ceil=ceil, square=square, real=real, imag=imag,
        conj=conj, conjugate=conj, sign=sign, isnan=isnan, isfinite=isfinite, logical_not=logical_not, logical_and=logical_and, logical_or=logical_or,
        where=where, clip=clip, nan_to_num=nan_to_num, sum=sum_, mean=mean, prod=prod, max=_ax("max"), min=_ax("min"), amax=_ax("max"), amin=_ax("min"),
        any=any_, all=all_, count_nonzero=count_nonzero, argmax=argmax, argmin=argmin, nonzero=nonzero, flatnonzero=flatnonzero, sort=sort,
        quantile=quantile, percentile=percentile, median=median, diff=diff, ptp=ptp, cumsum=cumsum, vdot=vdot, matmul=matmul, dot=dot, outer=outer,
        concatenate=concatenate, hstack=hstack, vstack=vstack, stack=stack, append=append, insert=insert, ravel=ravel, reshape=reshape, transpose=transpose,
        squeeze=squeeze, expand_dims=expand_dims, broadcast_to=broadcast_to, repeat=repeat, tile=tile, meshgrid=meshgrid, flip=flip, roll=roll,
        iscomplexobj=iscomplexobj, isrealobj=isrealobj, isscalar=isscalar, ndim=ndim, shape=shape, size=size, array_equal=array_equal,
        add=_op("add"), subtract=_op("sub"), multiply=_op("mul"), divide=_op("div"), true_divide=_op("div"), power=_op("pow"), maximum=_op("max"),
        minimum=_op("min"), mod=_op("mod"), remainder=_op("mod"), floor_divide=_op("floordiv"), less=_op("lt"), less_equal=_op("le"), greater=_op("gt"), greater_equal=_op("ge"),
        equal=_op("eq"), not_equal=_op("ne"), negative=lambda x: -as_arr(x), newaxis=None, ndarray=ndarray, dtype=as_dtype, float64=float64,
        complex128=complex128, int64=int64, intp=int64, bool_=np_bool, float32=float32, generic=generic, number=number, floating=floating, inexact=inexact,
        integer=integer, complexfloating=complexfloating, errstate=_Errstate, random=rnd, linalg=lin, fft=ff)
    m = NS("numpy", d)

    class WithPi(NS):
        @property
        def pi(self):
            return Sc("f", (core.t_pi(),))
    return WithPi("numpy", d), rnd, lin, ff
