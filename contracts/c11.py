"""C11: weak-lensing pixel operator."""
from .common import *
from pxv import extshim


def setup(p, mask, ngal):
    ms = world(KERNEL).load("pxmcmc.measurements")
    L = sym_int("L", 1)
    N = 2 * L - 1
    m = None if mask == "none" else sym_arr("mask", (L, N), {"bool": "b", "int": "i", "float": "f"}[mask])
    g = None if ngal == "none" else sym_arr("ngal", (L, N), {"float": "f", "int": "i"}[ngal])
    if g is not None:
        gf = g.snap()
        gk = g.kind
        p.qfacts.append((2, lambda i, j: gf((i, j))[0] >= 0))
    kw = {}
    if m is not None:
        kw["mask"] = m
    if g is not None:
        kw["ngal"] = g
    mb = m.astype(bool) if m is not None else mat((L.t, it(N)), "b", lambda idx: (z3.BoolVal(True),))
    M = get_mask(mb)
    o = ok(p, "WeakLensing()", attempt(ms.WeakLensing, L, **kw))

    def weight(idx):
        return R(1) if g is None else t_sqrt(t_div(2 * cast(gf(idx), gk, "f")[0], R("37/100") * R("37/100")))
    return ms, o, L, N, m, g, M, weight


def mapped(x):
    """contract of the harmonic map (C10)"""
    f = x.snap()
    return mat(x.shp, "c", lambda idx: tuple(t_ite(idx[0] < 4, ZERO, t_mul(c, kernel_spec(idx[0]))) for c in f(idx)))


@variants("C11", "forward", dict(mask=["none", "bool", "int", "float"], ngal=["none", "float", "int"], X=["f", "c"], flat=[True, False]), budget=120)
def forward(p, mask, ngal, X, flat):
    if (mask, ngal) not in (("none", "none"), ("bool", "float"), ("int", "none"), ("float", "int"), ("none", "float")):
        return p.prove("covered by other combinations", z3.BoolVal(True))
    ms, o, L, N, m, g, M, weight = setup(p, mask, ngal)
    x = sym_arr("kappa", (ival(t_mul(L.t, it(N))),) if flat else (L, N), X)
    fr = Frame(kappa=x, mask=m, ngal=g, operator=o)
    x2 = x.reshape((L, N)) if flat else x
    gam = extshim.ssht_inverse(mapped(extshim.ssht_forward(x2.astype(complex), L, Spin=0)), L, Spin=2)
    gf = gam.snap()

    def want(idx):
        s = M.at_sel(idx[0])
        return tuple(t_mul(c, weight(s)) for c in gf(s))
    for rep in ("", " again"):
        r = ok(p, "forward", attempt(o.forward, x))
        prove_arr(p, "forward(kappa)" + rep, r, (ival(M.cnt),), want)
    fr.check(p)


@variants("C11", "adjoint", dict(mask=["none", "bool", "int", "float"], ngal=["none", "float", "int"], Y=["f", "c"]), budget=120)
def adjoint(p, mask, ngal, Y):
    if (mask, ngal) not in (("none", "none"), ("bool", "float"), ("int", "none"), ("float", "int"), ("none", "float")):
        return p.prove("covered by other combinations", z3.BoolVal(True))
    ms, o, L, N, m, g, M, weight = setup(p, mask, ngal)
    y = sym_arr("gamma", (ival(M.cnt),), Y)
    fr = Frame(gamma=y, mask=m, ngal=g, operator=o)
    ye = vec(y)

    def scat(idx):
        v = ye(M.at_rank(idx))
        return tuple(t_ite(M.f(idx)[0], t_mul(c, weight(idx)), ZERO) for c in v)
    f = mat((L.t, it(N)), "c", scat)
    k = extshim.ssht_forward_adjoint(mapped(extshim.ssht_inverse_adjoint(f, L, Spin=2)), L, Spin=0)
    kf = k.reshape((ival(t_mul(L.t, it(N))),)).snap()
    for rep in ("", " again"):
        r = ok(p, "adjoint", attempt(o.adjoint, y))
        prove_arr(p, "adjoint(gamma)" + rep, r, (ival(t_mul(L.t, it(N))),), lambda idx: kf(idx))
    fr.check(p)


@variants("C11", "wrong shapes are refused", dict(ngal=["none", "float"], what=["mask rows", "mask columns", "mask flat", "field"]))
def refuse(p, ngal, what):
    ms = world(KERNEL).load("pxmcmc.measurements")
    L = sym_int("L", 1)
    N = 2 * L - 1
    g = sym_arr("ngal", (L, N), "f") if ngal != "none" else None
    if what == "field":
        o = ok(p, "WeakLensing()", attempt(ms.WeakLensing, L, None, g))
        a, b = sym_int("rows", 0), sym_int("columns", 0)
        p.assume(z3.Or(a.t != L.t, b.t != it(N)))
        return refused(p, "mask_forward of the wrong shape", attempt(o.mask_forward, sym_arr("f", (a, b), "c")), ValueError)
    n = sym_int("wrong", 0)
    p.assume(n.t != (it(N) if what == "mask columns" else L.t))
    shape = {"mask rows": (n, N), "mask columns": (L, n), "mask flat": (ival(t_mul(L.t, it(N))),)}[what]
    refused(p, "mask of the wrong shape", attempt(ms.WeakLensing, L, sym_arr("mask", shape, "i"), g), ValueError)


@task("C11", "lemma: the chain of adjoints is the adjoint of the chain")
def lem(p):
    # <A B x, y> = <B x, A* y> = <x, B* A* y>: two applications of the defining identity of an adjoint
    U = z3.DeclareSort("V")
    A, As, B, Bs = [z3.Function(n, U, U) for n in ("A", "Aadj", "B", "Badj")]
    ip = z3.Function("inner", U, U, z3.RealSort())
    x, y = z3.Consts("x y", U)
    lemma(p, "composition", [ip(A(B(x)), y) == ip(B(x), As(y)), ip(B(x), As(y)) == ip(x, Bs(As(y)))], ip(A(B(x)), y) == ip(x, Bs(As(y))))
    # masking (selection) and zero-filled scatter are adjoint, entry by entry; real weights and kernel are self-adjoint
    a, b, c, d, w = z3.Reals("a b c d w")
    l, r = cmul(cconj((w * a, w * b)), (c, d)), cmul(cconj((a, b)), (w * c, w * d))
    lemma(p, "real diagonal", [], z3.And(l[0] == r[0], l[1] == r[1]))
