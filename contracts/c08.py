"""C08: inverse covariance built from the data errors."""
from .common import *


def op(p, data, sig_d):
    fw = world().load("pxmcmc.forward")
    return attempt(fw.ForwardOperator, data, sig_d, "analysis")


def weights(p, o, m):
    """observable weights: the matrix as dense entries"""
    w = o.invcov
    if not isinstance(w, SpM):
        w = SpM(*as_arr(w).shp, as_arr(w).kind, lambda i, j, a=as_arr(w): a.read((i, j)))
    p.prove("weights: shape", z3.And(w.n == it(m), w.m == it(m)))
    return w


def prove_entries(p, w, m, fn, nm="weights"):
    i, j = p.generic(it(m)), p.generic(it(m))
    want = fn(i, j)
    e = cast(w.f(i, j), w.kind, "c")
    p.prove(nm + ": entry", e[0] == want[0])
    p.prove(nm + ": entry (imaginary part)", e[1] == want[1])


@variants("C08", "scalar error", dict(data=["f", "c"], sig=["float", "int", "numpy", "complex"]))
def scalar(p, data, sig):
    m = sym_int("ndata", 1)
    d = sym_arr("data", (m,), data)
    s = {"float": lambda: sym_real("sig"), "int": lambda: sym_int("sig"), "numpy": lambda: sym_real("sig", np=True), "complex": lambda: sym_cplx("sig")}[sig]()
    if sig == "complex":
        p.assume(z3.Or(s.e[0] != 0, s.e[1] != 0))
    else:
        p.assume(s.t > 0)
    fr = Frame(data=d)
    o = ok(p, "ForwardOperator()", op(p, d, s))
    fr.check(p)
    w = weights(p, o, m)
    se = cast(s.e, s.kind, "c")
    v = e_mul(se, se)
    if data == "c" and sig != "complex":
        return known(p, w, m, lambda i: v[0])
    inv = e_div((R(1), ZERO), v) if sig == "complex" else (1 / v[0], ZERO)
    prove_entries(p, w, m, lambda i, j: tuple(t_ite(i == j, x, ZERO) for x in inv))


def known(p, w, m, var):
    """complex data with real errors: the listed finding (weights carry a phase); what holds is diagonal, modulus 1/var, phase 0 or the recorded -pi/4"""
    i, j = p.generic(it(m)), p.generic(it(m))
    e = cast(w.f(i, j), w.kind, "c")
    p.prove("weights: off-diagonal", z3.Implies(i != j, z3.And(e[0] == 0, e[1] == 0)))
    e = cast(w.f(i, i), w.kind, "c")
    p.prove("weights: modulus of the diagonal", (e[0] * e[0] + e[1] * e[1]) * var(i) * var(i) == 1)
    p.prove("weights: real part positive", e[0] > 0)
    p.prove("weights: phase 0 or the recorded -pi/4", z3.Or(e[1] == 0, e[1] == -e[0]))


@variants("C08", "one error per datum", dict(data=["f", "c"], sig=["f", "i", "c"]))
def vector(p, data, sig):
    m = sym_int("ndata", 1)
    d = sym_arr("data", (m,), data)
    s = sym_arr("sig", (m,), sig)
    sf = vec(s)
    p.qfacts.append((1, (lambda i: sf(i)[0] > 0) if sig != "c" else (lambda i: z3.Or(sf(i)[0] != 0, sf(i)[1] != 0))))
    fr = Frame(data=d, sig=s)
    o = ok(p, "ForwardOperator()", op(p, d, s))
    fr.check(p)
    w = weights(p, o, m)
    if data == "c" and sig != "c":
        return known(p, w, m, lambda i: sf(i)[0] * sf(i)[0])

    def want(i, j):
        v = e_mul(sf(i), sf(i))
        return tuple(t_ite(i == j, x, ZERO) for x in (e_div((R(1), ZERO), v) if sig == "c" else (1 / v[0], ZERO)))
    prove_entries(p, w, m, want)


@variants("C08", "covariance matrix", dict(data=["f", "c"], sig=["f", "c"]))
def matrix(p, data, sig):
    m = sym_int("ndata", 1)
    d = sym_arr("data", (m,), data)
    s = sym_arr("cov", (m, m), sig)
    fr = Frame(data=d, sig=s)
    iv = npshim.inv(s)
    o = ok(p, "ForwardOperator()", op(p, d, s))
    fr.check(p)
    w = weights(p, o, m)
    prove_entries(p, w, m, lambda i, j: elem(iv, (i, j)))


@variants("C08", "wrong shapes are refused", dict(data=["f", "c"], what=["nonsquare", "length", "3d"]))
def refuse(p, data, what):
    m, a, b = sym_int("ndata", 1), sym_int("a", 0), sym_int("b", 0)
    d = sym_arr("data", (m,), data)
    if what == "nonsquare":
        p.assume(a.t != b.t)
        s = sym_arr("cov", (a, b), "f")
    elif what == "length":
        p.assume(a.t != m.t)
        s = sym_arr("sig", (a,), "f")
    else:
        s = sym_arr("cov", (a, b, m), "f")
    refused(p, "refused", op(p, d, s), Exception)
