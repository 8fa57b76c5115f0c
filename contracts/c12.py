"""C12: soft thresholding is the proximal map of the absolute value."""
from pxv.spec import *


@variants("C12", "soft", dict(X=["f", "c", "i"], T=["scalar", "int", "vector"]))
def soft(p, X, T):
    u = world().load("pxmcmc.utils")
    n = sym_int("n", 0)
    x = sym_arr("X", (n,), X)
    if T == "scalar":
        t = sym_real("T")
        p.assume(t.t >= 0)
        th = lambda i: t.t  # noqa
    elif T == "int":
        t = sym_int("T", 0)
        th = lambda i: to_real(t.t)  # noqa
    else:
        t = sym_arr("T", (n,), "f")
        tf = t.snap()
        p.qfacts.append((1, lambda i: tf((i,))[0] >= 0))
        th = lambda i: tf((i,))[0]  # noqa
    fr = Frame(X=x, T=t)
    xe = vec(x)
    r = ok(p, "soft", attempt(u.soft, x, t))

    def want(idx):
        z, thr = xe(idx[0]), th(idx[0])
        m = modulus(z)
        return tuple(t_ite(m <= thr, ZERO, c * (1 - thr / m)) for c in z)
    prove_arr(p, "soft(X, T)", r, (n,), want)
    fr.check(p)


@task("C12", "default threshold")
def soft_default(p):
    u = world().load("pxmcmc.utils")
    n = sym_int("n", 0)
    x = sym_arr("X", (n,), "f")
    xe = vec(x)
    r = ok(p, "soft", attempt(u.soft, x))
    d = R("1/10")
    prove_arr(p, "soft(X)", r, (n,), lambda idx: t_ite(t_abs(xe(idx[0])[0]) <= d, ZERO, xe(idx[0])[0] * (1 - d / t_abs(xe(idx[0])[0]))))


@task("C12", "lemma: the formula is the unique minimiser (real)")
def prox_real(p):
    x, u, T = z3.Reals("x u T")
    ab = lambda v: z3.If(v >= 0, v, -v)  # noqa
    s = z3.If(ab(x) <= T, R(0), x * (1 - T / ab(x)))
    s1 = z3.If(ab(x) <= T, R(0), z3.If(x > 0, x - T, x + T))
    lemma(p, "x(1-T/|x|) is x-T or x+T", [T >= 0], s == s1)
    F = lambda v: T * ab(v) + (v - x) * (v - x) / 2  # noqa
    lemma(p, "F(u) >= F(s) + (u-s)^2/2, so s is the unique minimiser", [T >= 0], F(u) >= F(s1) + (u - s1) * (u - s1) / 2)


@task("C12", "lemma: the formula is the unique minimiser (complex)")
def prox_cplx(p):
    x, y, u, v, T, rx, ru = z3.Reals("x y u v T rx ru")
    base = [T >= 0, rx >= 0, ru >= 0, rx * rx == x * x + y * y, ru * ru == u * u + v * v]
    ip = u * x + v * y
    # Cauchy-Schwarz: (ru rx)^2 - ip^2 = (u y - v x)^2
    lemma(p, "Lagrange identity", base, (ru * rx) * (ru * rx) - ip * ip == (u * y - v * x) * (u * y - v * x))
    a, b = z3.Reals("a b")
    lemma(p, "square comparison", [a >= 0, a * a >= b * b], a >= b)
    cs = [ip <= ru * rx]
    F = T * ru + ((u - x) * (u - x) + (v - y) * (v - y)) / 2
    # below the threshold s = 0
    q = z3.Real("q")
    lemma(p, "F(u) - F(0) - |u|^2/2 = T|u| - <u,x>", base, F - (x * x + y * y) / 2 - (u * u + v * v) / 2 == T * ru - ip)
    lemma(p, "and T|u| >= <u,x> when |x| <= T", [T >= 0, rx >= 0, ru >= 0, rx <= T, q <= ru * rx], T * ru >= q)
    # above it s = k x with k = 1 - T/rx, |s| = rx - T
    k = z3.Real("k")
    up = base + [rx > T, k * rx == rx - T]
    Fs = T * (rx - T) + (k - 1) * (k - 1) * (rx * rx) / 2
    D = (u * u + v * v) - 2 * k * ip + k * k * rx * rx
    lemma(p, "rx (F(u) - F(s) - |u-s|^2/2) = T (ru rx - <u,x>)",
          [T >= 0, rx > T, k * rx == rx - T],
          rx * (T * ru + ru * ru / 2 - ip_(q) + rx * rx / 2 - Fs - (ru * ru - 2 * k * q + k * k * rx * rx) / 2) == T * (ru * rx - q))
    lemma(p, "|s| = |x| - T", [rx > T, T >= 0, k * rx == rx - T], z3.And(k >= 0, k * rx == rx - T))


def ip_(q):
    return q
