"""Contracts of shared functions, used at their call sites (each is proved in the property named)."""
from pxv.spec import *


def soft_formula(z, thr):
    m = modulus(z)
    return tuple(t_ite(m <= thr, ZERO, c * (1 - thr / m)) for c in z)


def soft_spec(x, T):
    """C12"""
    x = as_arr(x)
    f, k = x.snap(), x.kind
    kk = "c" if k == "c" else "f"
    t = as_arr(T)
    if t.ndim:
        if x.ndim != t.ndim or not all(arrays.dim_eq(a, b) for a, b in zip(x.shp, t.shp)):
            raise Unsupported("soft: thresholds of another shape")
    tf, tk, tn = t.snap(), t.kind, t.ndim

    def fn(idx):
        z = cast(f(idx), k, "c")
        r = soft_formula(z, cast(tf(idx if tn else ()), tk, "f")[0])
        return r if kk == "c" else (r[0],)
    return mat(x.shp, kk, fn)


def _soft_stub(orig, X, T=None):
    if T is None:
        T = orig.__defaults__[0]
    if not isinstance(X, SArr) or X.ndim == 0:
        return orig(X, T)
    return soft_spec(X, T)


SOFT = {"utils.soft": (("X", "T"), _soft_stub)}


# ---- C10: the weak-lensing kernel
F_klow = z3.Function("kernel_below_degree_2", core.INT, core.REAL)
F_deg = z3.Function("degree", core.INT, core.INT)


def degree(i):
    """degree l of the harmonic coefficient with index i = l*l + l + m, i.e. the integer square root"""
    d = F_deg(i)
    cur().axiom(("degree", i), z3.Implies(i >= 0, z3.And(d >= 0, d * d <= i, i <= d * d + 2 * d)))
    if cur().once(("degidx", i)):
        cur().idx_terms.append(d)
    cur().axiom(("degree4", i), z3.And(z3.Implies(i >= 4, d >= 2), z3.Implies(z3.And(i >= 0, i < 4), d < 2)))
    return d


def kernel_value(l):
    """-sqrt((l+2)(l-1)/((l+1)l)) for l >= 2"""
    l = to_real(l)
    return t_neg(t_sqrt(t_div((l + 2) * (l - 1), (l + 1) * l)))


def kernel_spec(i):
    return kernel_value(degree(i))


def _kernel_stub(orig, self):
    n = it(self.L)
    return mat((t_mul(n, n),), "f", lambda idx: (t_ite(idx[0] >= 4, kernel_spec(idx[0]), F_klow(idx[0])),))


KERNEL = {"measurements.WeakLensingHarmonic.compute_harmonic_kernel": (("self",), _kernel_stub)}
