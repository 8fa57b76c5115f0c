"""Models of the other dependencies: scipy.sparse, scipy.stats.laplace, pyssht, pys2let, h5py, astropy, healpy, stdlib.

The spherical harmonic and wavelet transforms are uninterpreted functions of (whole input map, parameters); only their
input requirements and output shapes are modelled.  The MW sample positions are modelled exactly.
"""
import z3
import contextlib as _ctx
import functools as _ft
import itertools as _itt
import operator as _oper
import os as _os
from . import core, npshim
from .core import (Unsupported, cur, numval, t_add, t_sub, t_mul, t_div, t_cmp, t_ite, t_and, t_neg, to_real, INT, REAL)
from .values import Sc, PList, mkscalar, lift, cast, promote, e_mul, it, ival, is_num, ZERO, rterm
from . import arrays as A
from .arrays import SArr, mat, as_arr, dim_eq, simp, sum_term, I0, I1
from .npshim import NS, opaque_arr, as_dtype, draw


# ---------------------------------------------------------------- sparse matrices
class SpM:
    """sparse matrix as a dense element function; diag: element function of a diagonal matrix"""
    __array_priority__ = 2000

    def __init__(self, n, m, kind, f, diag=None):
        self.n, self.m, self.kind, self.f, self.diagf = simp(n), simp(m), kind, f, diag

    @classmethod
    def diagonal_(cls, n, m, kind, d):
        z = cast((z3.IntVal(0),), "i", kind)
        return cls(n, m, kind, lambda i, j: tuple(t_ite(t_cmp("eq", i, j), x, y) for x, y in zip(d(i), z)), d)

    @property
    def shape(self):
        return (ival(self.n), ival(self.m))

    @property
    def ndim(self):
        return 2

    @property
    def dtype(self):
        return npshim.Dtype(self.kind)

    def get_shape(self):
        return self.shape

    def pxv_len(self):
        raise TypeError("sparse array length is ambiguous; use getnnz()")

    def __len__(self):
        raise TypeError("sparse array length is ambiguous; use getnnz()")

    def toarray(self, order=None, out=None):
        f = self.f
        return mat((self.n, self.m), self.kind, lambda idx: f(*idx))

    @property
    def A(self):
        return self.toarray()

    def copy(self):
        return SpM(self.n, self.m, self.kind, self.f, self.diagf)

    def astype(self, dt, **k):
        d, k0, f = as_dtype(dt), self.kind, self.f
        df = self.diagf
        return SpM(self.n, self.m, d.kind, lambda i, j: cast(f(i, j), k0, d.kind), None if df is None else (lambda i: cast(df(i), k0, d.kind)))

    def tocsr(self, copy=False): return self
    tocsc = tocoo = tolil = todia = asformat = tocsr

    def transpose(self, axes=None, copy=False):
        f = self.f
        return SpM(self.m, self.n, self.kind, lambda i, j: f(j, i), self.diagf)

    @property
    def T(self):
        return self.transpose()

    def conj(self, copy=True):
        if self.kind != "c":
            return self.copy()
        f, d = self.f, self.diagf
        c = lambda e: (e[0], t_neg(e[1]))  # noqa
        return SpM(self.n, self.m, "c", lambda i, j: c(f(i, j)), None if d is None else (lambda i: c(d(i))))

    conjugate = conj

    def getH(self):
        return self.transpose().conj()

    @property
    def H(self):
        return self.getH()

    def diagonal(self, k=0):
        f = self.f
        n = self.n if self.n.eq(self.m) else t_ite(self.n <= self.m, self.n, self.m)
        return mat((n,), self.kind, lambda idx: f(idx[0], idx[0]))

    def scaled(self, s, op="mul"):
        s = lift(s)
        k = promote(self.kind, s.kind, "f" if op == "div" else "i")
        from .values import binop
        f, d, k0 = self.f, self.diagf, self.kind
        g = lambda e: cast(*binop(op, e, k0, s.e, s.kind), k)  # noqa
        return SpM(self.n, self.m, k, lambda i, j: g(f(i, j)), None if d is None else (lambda i: g(d(i))))

    def dot(self, o):
        if is_num(o):
            return self.scaled(o)
        return self @ o

    def multiply(self, o):
        if is_num(o):
            return self.scaled(o)
        raise Unsupported("elementwise sparse product")

    def __mul__(self, o):
        return self.dot(o)

    def __rmul__(self, o):
        if is_num(o):
            return self.scaled(o)
        return self.__rmatmul__(o)

    def __truediv__(self, o):
        if is_num(o):
            return self.scaled(o, "div")
        raise Unsupported("sparse division")

    def __neg__(self):
        return self.scaled(-1)

    def power(self, n):
        raise Unsupported("sparse power")

    def __matmul__(self, o):
        if is_num(o):
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        if isinstance(o, SpM):
            if not dim_eq(self.m, o.n):
                raise ValueError("dimension mismatch")
            k = promote(self.kind, o.kind, "f")
            f, g, n, ka, kb = self.f, o.f, self.m, self.kind, o.kind
            if self.diagf is not None and o.diagf is not None and self.n.eq(self.m) and o.n.eq(o.m):
                d1, d2 = self.diagf, o.diagf
                return SpM.diagonal_(self.n, o.m, k, lambda i: e_mul(cast(d1(i), ka, k), cast(d2(i), kb, k)))
            if self.diagf is not None:
                return SpM(self.n, o.m, k, lambda i, j: self._drow(i, lambda c: cast(g(c, j), kb, k), k))

            def el(i, j):
                return tuple(sum_term(n, lambda c, q=q: e_mul(cast(f(i, c), ka, k), cast(g(c, j), kb, k))[q]) for q in range(2 if k == "c" else 1))
            return SpM(self.n, o.m, k, el)
        x = as_arr(o)
        if x.ndim not in (1, 2):
            raise ValueError("could not interpret dimensions")
        if not dim_eq(self.m, x.shp[0]):
            raise ValueError("dimension mismatch")
        k = promote(self.kind, x.kind, "f")
        ka, kb, f, g, n = self.kind, x.kind, self.f, x.snap(), self.m
        if self.diagf is not None:
            return mat((self.n,) + x.shp[1:], k, lambda idx: self._drow(idx[0], lambda c: cast(g((c,) + tuple(idx[1:])), kb, k), k))

        def el2(idx):
            i, j = idx[0], tuple(idx[1:])
            return tuple(sum_term(n, lambda c, q=q: e_mul(cast(f(i, c), ka, k), cast(g((c,) + j), kb, k))[q]) for q in range(2 if k == "c" else 1))
        return mat((self.n,) + x.shp[1:], k, el2)

    def _drow(self, i, g, k):
        """row i of diag @ vector"""
        r = e_mul(cast(self.diagf(i), self.kind, k), g(i))
        if self.n.eq(self.m):
            return r
        z = cast((ZERO,), "f", k)
        return tuple(t_ite(t_cmp("lt", i, self.m), x, y) for x, y in zip(r, z))

    def __rmatmul__(self, o):
        if isinstance(o, SpM):
            return o @ self
        x = as_arr(o)
        return self.T @ x if x.ndim == 1 else A.transpose(self.T @ A.transpose(x))

    def __add__(self, o):
        if isinstance(o, SpM):
            from .values import binop
            f, g, ka, kb = self.f, o.f, self.kind, o.kind
            if not (dim_eq(self.n, o.n) and dim_eq(self.m, o.m)):
                raise ValueError("inconsistent shapes")
            k = promote(ka, kb)
            return SpM(self.n, self.m, k, lambda i, j: binop("add", f(i, j), ka, g(i, j), kb)[0])
        raise Unsupported("sparse + dense")

    def __sub__(self, o):
        return self + o.scaled(-1)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all().")

    def __getattr__(self, k):
        if k.startswith("__") or k == "size_" or k.startswith("pxv"):
            raise AttributeError(k)
        raise Unsupported(f"sparse matrix attribute {k}")

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and all(is_num(x) for x in k):
            i, j = A.norm_int(k[0], self.n), A.norm_int(k[1], self.m)
            return mkscalar(self.kind, self.f(i, j), True)
        raise Unsupported("sparse indexing")

    def _inplace(self, *a):
        raise Unsupported("in-place change of a sparse matrix")

    __setitem__ = __delitem__ = __iadd__ = __isub__ = __imul__ = __itruediv__ = __imatmul__ = __ipow__ = _inplace

    def model_value(self, model):
        return self.toarray().model_value(model)


def sp_eye(m, n=None, k=0, dtype=None, format=None):
    if k != 0:
        raise Unsupported("sparse.eye offset")
    d = as_dtype(dtype) if dtype is not None else npshim.Dtype("f")
    n = m if n is None else n
    one = cast((z3.IntVal(1),), "i", d.kind)
    return SpM.diagonal_(it(m), it(n), d.kind, lambda i: one)


def sp_identity(n, dtype=None, format=None):
    return sp_eye(n, dtype=dtype)


def sp_diags(v, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(offsets, (list, tuple, PList)):
        if len(offsets) == 1 and offsets[0] == 0:
            v = v[0]
        else:
            raise Unsupported("sparse.diags offsets")
    elif offsets != 0:
        raise Unsupported("sparse.diags offsets")
    v = as_arr(v)
    if v.ndim != 1:
        raise ValueError("diags needs a vector")
    f = v.snap()
    n = v.shp[0]
    if shape is not None:
        a, b = [it(x) for x in shape]
        if not (dim_eq(a, n) and dim_eq(b, n)):
            raise Unsupported("sparse.diags shape")
    r = SpM.diagonal_(n, n, v.kind, lambda i: f((i,)))
    return r if dtype is None else r.astype(dtype)


def csr_matrix(a, shape=None, dtype=None, copy=False):
    if isinstance(a, SpM):
        return a.copy() if dtype is None else a.astype(dtype)
    if isinstance(a, tuple):
        if len(a) == 2 and all(is_num(x) for x in a):
            z = cast((ZERO,), "f", "f")
            return SpM(it(a[0]), it(a[1]), "f", lambda i, j: z)
        raise Unsupported("csr_matrix from coordinates")
    x = as_arr(a)
    f = x.snap()
    if x.ndim == 0:
        x = A.reshape(x, (I1, I1))
        f = x.snap()
    if x.ndim == 1:
        r = SpM(I1, x.shp[0], x.kind, lambda i, j: f((j,)))
    elif x.ndim == 2:
        r = SpM(x.shp[0], x.shp[1], x.kind, lambda i, j: f((i, j)))
    else:
        raise TypeError("expected dimension <= 2 array or matrix")
    return r if dtype is None else r.astype(dtype)


# ---------------------------------------------------------------- pyssht
class ssht_input_error(TypeError):
    pass


class ssht_spin_error(ValueError):
    pass


def _method(Method, Reality=False):
    if Method != "MW" or Reality:
        raise Unsupported("pyssht sampling method / reality")


def ssht_length(L, Method="MW"):
    _method(Method)
    return L * (2 * L - 1)


def ssht_shape(L, Method="MW"):
    _method(Method)
    return (L, 2 * L - 1)


def ssht_positions(L, Method="MW", Grid=False):
    _method(Method)
    n = it(L)
    N = t_sub(t_mul(z3.IntVal(2), n), I1)
    pi = core.t_pi()

    def th(t):
        return t_div(t_mul(to_real(t_add(t_mul(z3.IntVal(2), t), I1)), pi), to_real(N))

    def ph(q):
        return t_div(t_mul(t_mul(z3.RealVal(2), to_real(q)), pi), to_real(N))
    if Grid:
        return (mat((n, N), "f", lambda idx: (th(idx[0]),)), mat((n, N), "f", lambda idx: (ph(idx[1]),)))
    return mat((n,), "f", lambda idx: (th(idx[0]),)), mat((N,), "f", lambda idx: (ph(idx[0]),))


def _img(f, L, nm):
    if not isinstance(f, SArr) or f.ndim != 2:
        raise ssht_input_error("f must be 2D numpy array")
    n = it(L)
    if not (dim_eq(f.shp[0], n) and dim_eq(f.shp[1], simp(t_sub(t_mul(z3.IntVal(2), n), I1)))):
        raise ValueError("operands could not be broadcast together")
    if f.kind in "bi":
        raise ValueError("Buffer dtype mismatch, expected 'double complex'")
    return n


def _coef(flm, L):
    if not isinstance(flm, SArr) or flm.ndim != 1:
        raise ssht_input_error("flm must be 1D numpy array")
    n = it(L)
    if not dim_eq(flm.shp[0], simp(t_mul(n, n))):
        raise ssht_input_error("flm must have size L^2")
    if flm.kind != "c":
        raise ValueError("Buffer dtype mismatch, expected 'double complex'")
    return n


def ssht_forward(f, L, Spin=0, Method="MW", Reality=False, **k):
    _method(Method, Reality)
    n = _img(f, L, "f")
    return opaque_arr("ssht_forward", [f.astype(complex)], (t_mul(n, n),), "c", [n, it(Spin)])


def ssht_inverse_adjoint(f, L, Spin=0, Method="MW", Reality=False, **k):
    _method(Method, Reality)
    n = _img(f, L, "f")
    return opaque_arr("ssht_inverse_adjoint", [f.astype(complex)], (t_mul(n, n),), "c", [n, it(Spin)])


def ssht_inverse(flm, L, Spin=0, Method="MW", Reality=False, **k):
    _method(Method, Reality)
    n = _coef(flm, L)
    return opaque_arr("ssht_inverse", [flm], (n, t_sub(t_mul(z3.IntVal(2), n), I1)), "c", [n, it(Spin)])


def ssht_forward_adjoint(flm, L, Spin=0, Method="MW", Reality=False, **k):
    _method(Method, Reality)
    n = _coef(flm, L)
    return opaque_arr("ssht_forward_adjoint", [flm], (n, t_sub(t_mul(z3.IntVal(2), n), I1)), "c", [n, it(Spin)])


# ---------------------------------------------------------------- pys2let
F_jmax = z3.Function("s2let_j_max", REAL, INT, INT, INT)
F_nwav = {m: z3.Function("s2let_nwav_" + m, REAL, INT, INT, INT, INT, INT, INT) for m in ("px", "lm")}
F_nscal = {m: z3.Function("s2let_nscal_" + m, REAL, INT, INT, INT, INT, INT, INT) for m in ("px", "lm")}


def s2let_j_max(B, L, J_min):
    r = F_jmax(rterm(B), it(L), it(J_min))
    cur().axiom(("jmax", r), r >= it(J_min))
    return ival(r)


def mw_size(L):
    return L * (2 * L - 1)


F_phi = z3.Function("tiling_phi", REAL, INT, INT, INT, INT, INT, REAL)
F_psi = z3.Function("tiling_psi", REAL, INT, INT, INT, INT, INT, INT, REAL)


def wavelet_tiling(B, L, N, J_min, spin, *rest, **k):
    if rest or k:
        raise Unsupported("wavelet_tiling options")
    ps = (rterm(B), it(L), it(N), it(J_min), it(spin))
    J = t_add(t_sub(it(s2let_j_max(B, L, J_min)), it(J_min)), I1)
    n = it(L)
    p = cur()
    phi = mat((n,), "c", lambda idx: (F_phi(*ps, idx[0]), ZERO))
    psi = mat((t_mul(n, n), J), "c", lambda idx: (F_psi(*ps, idx[0], idx[1]), ZERO))
    if p.once(("tiling",) + ps):
        # every scaling/wavelet function has a non-zero axisymmetric coefficient at some degree below L
        w0 = z3.Int(p.fresh("g!w"))
        p.add(z3.And(w0 >= 0, w0 < n, F_phi(*ps, w0) != 0))
        p.idx_terms.append(w0)
        WJ = z3.Function(p.fresh("tiling_w"), INT, INT)

        def trig(args):
            j = args[-1]
            w = WJ(j)
            same = t_and(*[x == y for x, y in zip(args[:5], ps) if not x.eq(y)])
            return z3.Implies(t_and(same, j >= 0, j < J), z3.And(w >= 0, w < n, F_psi(*ps, w * w + w, j) != 0))
        p.trigs.append(("tiling_psi", trig))
        p.witness_of["tiling_psi"] = lambda args: WJ(args[-1])
        p.witness_of["tiling_phi"] = lambda args: w0
        p.ghost["tiling"] = (phi, psi, J, w0, WJ, ps)
    return phi, psi


def _s2let(name, mode, direction):
    """direction 'an': X -> (wav, scal);  'syn': (wav, scal) -> X"""
    def par(B, L, J_min, N, spin, upsample):
        return [rterm(B), it(L), it(J_min), it(N), it(spin), it(upsample)]

    def sizes(ps):
        nw, ns = F_nwav[mode](*ps), F_nscal[mode](*ps)
        cur().axiom(("nwav", nw), z3.And(nw >= 1, ns >= 1))
        n = ps[1]
        npx = t_mul(n, t_sub(t_mul(z3.IntVal(2), n), I1)) if mode == "px" else t_mul(n, n)
        return nw, ns, npx

    def chk(x, n, what):
        if not isinstance(x, SArr):
            raise TypeError(f"Argument '{what}' has incorrect type (expected numpy.ndarray)")
        if x.ndim != 1 or x.kind != "c":
            raise ValueError("Buffer dtype mismatch, expected 'double complex'")
        if not dim_eq(x.shp[0], simp(n)):
            raise Unsupported(f"{name} called with an array of the wrong length (reads out of bounds)")

    def an(f, B, L, J_min, N, spin, upsample):
        ps = par(B, L, J_min, N, spin, upsample)
        nw, ns, npx = sizes(ps)
        chk(f, npx, "f")
        return opaque_arr(name + "_wav", [f], (nw,), "c", ps), opaque_arr(name + "_scal", [f], (ns,), "c", ps)

    def syn(f_wav, f_scal, B, L, J_min, N, spin, upsample):
        ps = par(B, L, J_min, N, spin, upsample)
        nw, ns, npx = sizes(ps)
        chk(f_wav, nw, "f_wav")
        chk(f_scal, ns, "f_scal")
        return opaque_arr(name, [f_wav, f_scal], (npx,), "c", ps)
    r = an if direction == "an" else syn
    r.__name__ = name
    return r


# ---------------------------------------------------------------- h5py
class H5File:
    def __init__(self, path, mode="r", **k):
        p = cur()
        self.path, self.mode, self.closed = path, mode, False
        self.data, self.attrs, self.dtypes, self.extra = {}, H5Attrs(), {}, k
        p.ghost["h5"] = list(p.ghost.get("h5", [])) + [self]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if self.closed or self.mode not in ("w", "a", "w-", "x", "r+"):
            raise ValueError("Unable to create dataset (no write intent on file)")
        if name in self.data:
            raise ValueError("Unable to create dataset (name already exists)")
        if shape is not None or data is None or any(v is not None for q, v in k.items() if q not in ("compression", "chunks", "shuffle", "compression_opts")):
            raise Unsupported("create_dataset options")
        self.data[name], self.dtypes[name] = snapshot(data), dtype
        return self

    def __setitem__(self, name, data):
        self.create_dataset(name, data=data)

    def __contains__(self, name):
        return name in self.data

    def keys(self):
        return list(self.data)

    def flush(self):
        pass


class H5Attrs(dict):
    def create(self, name, data, **k):
        self[name] = data


def _exists(path):
    return cur().fork(z3.Bool(f"exists:{path}"))


def snapshot(v):
    """value of the data at the time of writing"""
    if isinstance(v, SArr):
        return v.copy()
    if isinstance(v, PList):
        return PList(*v.copy_state())
    if isinstance(v, list):
        return PList(list(v))
    return v


# ---------------------------------------------------------------- astropy
F_gal = z3.Function("galactic_latitude_deg", REAL, REAL, REAL)


class SkyCoord:
    def __init__(self, ra, dec, unit=None, frame="icrs", **k):
        if unit != "deg" or frame != "icrs" or k:
            raise Unsupported("SkyCoord options")
        self.ra, self.dec = as_arr(ra), as_arr(dec)

    def transform_to(self, frame):
        if frame != "galactic":
            raise Unsupported("SkyCoord frame")
        return self.galactic

    @property
    def galactic(self):
        a, b = self.ra, self.dec
        ka, kb = a.kind, b.kind
        deg = A.ew(lambda es: (F_gal(cast(es[0], ka, "f")[0], cast(es[1], kb, "f")[0]),), "f", a, b)
        ang = NS("Angle", dict(degree=deg, deg=deg, value=deg, radian=npshim.radians(deg), rad=npshim.radians(deg)))
        return NS("Galactic", dict(b=ang))


# ---------------------------------------------------------------- stdlib
def _pyf(f):
    def g(x):
        r = lift(f(x))
        return Sc(r.kind, r.e, False)
    return g


class _Math(NS):
    @property
    def pi(self):
        return Sc("f", (core.t_pi(),))


def _isqrt(x):
    raise Unsupported("math.isqrt")


def _floor(x):
    s = lift(x)
    return mkscalar("i", (core.t_floor(s.t),))


def _ceil(x):
    s = lift(x)
    return mkscalar("i", (t_neg(core.t_floor(t_neg(s.t))),))


def deep(x, memo=None):
    if isinstance(x, (Sc, int, float, complex, str, bool, type(None))):
        return x
    if isinstance(x, SArr):
        return x.copy()
    if isinstance(x, PList):
        if not x.concrete():
            return PList(*x.copy_state())
        return PList([deep(v) for v in x.items])
    if isinstance(x, tuple):
        return tuple(deep(v) for v in x)
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    if isinstance(x, SpM):
        return x.copy()
    raise Unsupported("deepcopy")


def shallow(x):
    if isinstance(x, (SArr, PList, SpM, dict, list)):
        return x.copy()
    if isinstance(x, (Sc, int, float, str, tuple)):
        return x
    if type(x).__module__.startswith("pxmcmc"):
        r = object.__new__(type(x))
        r.__dict__.update(x.__dict__)
        return r
    raise Unsupported("copy.copy")


def modules(world):
    np_, rnd, lin, ff = npshim.module()
    sp = NS("scipy.sparse", dict(eye=sp_eye, identity=sp_identity, diags=sp_diags, csr_matrix=csr_matrix, csc_matrix=csr_matrix, coo_matrix=csr_matrix,
                                 issparse=lambda x: isinstance(x, SpM), spmatrix=SpM, isspmatrix=lambda x: isinstance(x, SpM)))

    class Lap:
        @staticmethod
        def rvs(loc=0, scale=1, size=None, random_state=None):
            if random_state is not None:
                raise Unsupported("random_state")
            return npshim.laplace(loc, scale, size)
    stats = NS("scipy.stats", dict(laplace=Lap))
    ssht = NS("pyssht", dict(sample_length=ssht_length, sample_shape=ssht_shape, sample_positions=ssht_positions, forward=ssht_forward,
                             inverse=ssht_inverse, inverse_adjoint=ssht_inverse_adjoint, forward_adjoint=ssht_forward_adjoint,
                             ssht_input_error=ssht_input_error))
    s2 = dict(pys2let_j_max=s2let_j_max, mw_size=mw_size, wavelet_tiling=wavelet_tiling)
    for nm, mode, d in (("analysis_px2wav", "px", "an"), ("analysis_adjoint_wav2px", "px", "syn"), ("synthesis_wav2px", "px", "syn"),
                        ("synthesis_adjoint_px2wav", "px", "an"), ("analysis_lm2lmn", "lm", "an"), ("analysis_adjoint_lmn2lm", "lm", "syn"),
                        ("synthesis_lmn2lm", "lm", "syn"), ("synthesis_adjoint_lm2lmn", "lm", "an")):
        s2[nm] = _s2let(nm, mode, d)
    s2let = NS("pys2let", s2)
    path = NS("os.path", dict(join=_os.path.join, exists=_exists, isfile=_exists, splitext=_os.path.splitext, basename=_os.path.basename, dirname=_os.path.dirname, sep="/"))
    os_ = NS("os", dict(path=path, devnull="/dev/null", sep="/", fspath=_os.fspath))
    sys_ = NS("sys", dict(stdout=None, stderr=None))
    math = _Math("math", dict(sqrt=_pyf(npshim.sqrt), exp=_pyf(npshim.exp), log=_pyf(npshim.log), cos=_pyf(npshim.cos), sin=_pyf(npshim.sin),
                              floor=_floor, ceil=_ceil, degrees=_pyf(npshim.degrees), radians=_pyf(npshim.radians), fabs=_pyf(npshim.abs_)))
    warn = NS("warnings", dict(warn=lambda *a, **k: None))
    copy_ = NS("copy", dict(copy=shallow, deepcopy=deep))
    ft = NS("functools", dict(partial=_ft.partial, wraps=_ft.wraps, reduce=_reduce))
    col = NS("collections", dict(namedtuple=_namedtuple, OrderedDict=dict))
    itt = NS("itertools", dict(count=_Count, chain=NS("chain", dict(from_iterable=lambda x: PList([v for y in x for v in y])))))
    ast = NS("astropy", dict(coordinates=NS("astropy.coordinates", dict(SkyCoord=SkyCoord))))
    h5 = NS("h5py", dict(File=H5File))
    hp = NS("healpy", {})
    scipy = NS("scipy", dict(sparse=sp, stats=stats))
    typing = NS("typing", {k: object for k in ("Any", "Optional", "Union", "List", "Tuple", "Dict", "Callable", "Sequence", "Iterable")})
    oper = NS("operator", dict(add=_oper.add, mul=_oper.mul, sub=_oper.sub, attrgetter=_oper.attrgetter, itemgetter=_oper.itemgetter))
    fut = NS("__future__", dict(annotations=None, division=None))
    abc = NS("abc", dict(ABC=object, abstractmethod=lambda f: f))
    meta = NS("importlib.metadata", dict(version=lambda n: "0"))
    return {"importlib": NS("importlib", dict(metadata=meta)), "importlib.metadata": meta, "numpy": np_, "numpy.random": rnd, "numpy.linalg": lin, "numpy.fft": ff, "scipy": scipy, "scipy.sparse": sp, "scipy.stats": stats,
            "pyssht": ssht, "pys2let": s2let, "h5py": h5, "healpy": hp, "astropy": ast, "astropy.coordinates": ast.coordinates, "os": os_, "os.path": path,
            "sys": sys_, "math": math, "warnings": warn, "copy": copy_, "contextlib": _ctx, "functools": ft, "itertools": itt, "collections": col, "typing": typing,
            "operator": oper, "__future__": fut, "abc": abc, "cartopy": None, "cartopy.crs": None}


def _namedtuple(*a, **k):
    import collections
    from .values import PList
    if len(a) == 2 and isinstance(a[1], PList):
        if a[1].seg is not None:
            raise Unsupported("namedtuple fields")
        a = (a[0], a[1].items + a[1].tail)
    k["module"] = "collections"
    return collections.namedtuple(*a, **k)


class _Count:
    """itertools.count: consumed by the `for` loops that the loader rewrites into `while` loops, otherwise unsupported"""

    def __init__(self, start=0, step=1):
        self.start, self.step = start, step

    def __iter__(self):
        raise Unsupported("itertools.count outside a for loop with a leading break")

    __next__ = __iter__


def _reduce(f, xs, *init):
    from .loops import to_seq
    s = to_seq(xs)
    if not s.concrete():
        raise Unsupported("functools.reduce over a symbolic sequence")
    return _ft.reduce(f, s.items(), *init)
