"""C09: identity and path-integral measurements."""
from .common import *


def matrix(p, n, m, kind):
    fs = [z3.Function("M_" + q, core.INT, core.INT, core.REAL) for q in ("re", "im")[: 2 if kind == "c" else 1]]
    M = SpM(it(n), it(m), kind, lambda i, j: tuple(f(i, j) for f in fs))
    return M, (lambda i, j: cast(M.f(i, j), kind, "c"))


@variants("C09", "path integral", dict(M=["f", "c"], x=["f", "c"], which=["forward", "adjoint"]))
def path(p, M, x, which):
    ms = world().load("pxmcmc.measurements")
    n, m = sym_int("ndata", 1), sym_int("npix", 1)
    A, a = matrix(p, n, m, M)
    f0, d0 = A.f, dict(A.__dict__)
    o = ok(p, "PathIntegral(M)", attempt(ms.PathIntegral, A))
    p.prove("ndata, npix", z3.And(it(o.ndata) == n.t, it(o.npix) == m.t))
    v = sym_arr("x", (m if which == "forward" else n,), x)
    fr = Frame(x=v, operator=o)
    ve = vec(v)
    if which == "forward":
        want, ln = (lambda idx: csum(m, lambda j: cmul(a(idx[0], j), ve(j)))), n
    else:
        want, ln = (lambda idx: csum(n, lambda i: cmul(cconj(a(i, idx[0])), ve(i)))), m
    for rep in ("", " again"):
        r = ok(p, which, attempt(getattr(o, which), v))
        prove_arr(p, which + "(x)" + rep, r, (ln,), want)
    fr.check(p)
    p.prove("the matrix is not modified", z3.BoolVal(A.__dict__ == d0 and A.f is f0))


@variants("C09", "identity", dict(x=["f", "c"], which=["forward", "adjoint"]))
def ident(p, x, which):
    ms = world().load("pxmcmc.measurements")
    n, m = sym_int("ndata", 1), sym_int("npix", 1)
    o = ok(p, "Identity(ndata, npix)", attempt(ms.Identity, n, m))
    p.prove("ndata, npix", z3.And(it(o.ndata) == n.t, it(o.npix) == m.t))
    src, dst = (m, n) if which == "forward" else (n, m)
    v = sym_arr("x", (src,), x)
    fr = Frame(x=v, operator=o)
    ve = vec(v)
    for rep in ("", " again"):
        r = ok(p, which, attempt(getattr(o, which), v))
        prove_arr(p, which + "(x)" + rep, r, (dst,), lambda idx: tuple(t_ite(idx[0] < src.t, c, ZERO) for c in ve(idx[0])))
    fr.check(p)


@variants("C09", "wrong length is refused", dict(cls=["PathIntegral", "Identity"], which=["forward", "adjoint"]))
def wrong(p, cls, which):
    ms = world().load("pxmcmc.measurements")
    n, m, k = sym_int("ndata", 1), sym_int("npix", 1), sym_int("k", 0)
    o = ok(p, cls, attempt(ms.PathIntegral, matrix(p, n, m, "f")[0]) if cls == "PathIntegral" else attempt(ms.Identity, n, m))
    p.assume(k.t != (m.t if which == "forward" else n.t))
    refused(p, "refused", attempt(getattr(o, which), sym_arr("x", (k,), "f")), Exception)


@task("C09", "lemma: entrywise conjugate transposition is adjointness")
def lem(p):
    # conj(a x) y = conj(x) (conj(a) y), term by term of the double sum over i and j
    ar, ai, xr, xi, yr, yi = z3.Reals("ar ai xr xi yr yi")
    a, x, y = (ar, ai), (xr, xi), (yr, yi)
    l, r = cmul(cconj(cmul(a, x)), y), cmul(cconj(x), cmul(cconj(a), y))
    lemma(p, "term", [], z3.And(l[0] == r[0], l[1] == r[1]))
