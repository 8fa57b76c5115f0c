"""C07: forward model and gradient of the data fidelity."""
from .common import *


def setup(p, setting, data, sig):
    fw = world().load("pxmcmc.forward")
    n, npix, m = sym_int("nparams", 1), sym_int("npix", 1), sym_int("ndata", 1)
    k = "c" if data == "c" else "f"
    npx = n if setting == "analysis" else npix
    meas = Obj(forward=VFun("measurement", m, k, npx), adjoint=VFun("measurement_adjoint", npx, k, m))
    tr = Obj(inverse=VFun("inverse", npix, k, n), inverse_adjoint=VFun("inverse_adjoint", n, k, npix),
             forward=VFun("t_forward", n, k, npix), forward_adjoint=VFun("t_forward_adjoint", npix, k, n))
    d = sym_arr("data", (m,), data)
    if sig == "scalar":
        s = sym_real("sig")
        p.assume(s.t > 0)
    elif sig == "vector":
        s = sym_arr("sig", (m,), "f")
        sf = s.snap()
        p.qfacts.append((1, lambda i: sf((i,))[0] > 0))
    else:
        s = sym_arr("cov", (m, m), "f")
    o = ok(p, "ForwardOperator()", attempt(fw.ForwardOperator, d, s, setting, tr, meas, n))
    W = o.invcov
    if sig == "scalar" and data == "f":
        W = SpM.diagonal_(m.t, m.t, "f", lambda i: (1 / (s.t * s.t),))
    elif sig == "vector" and data == "f":
        W = SpM.diagonal_(m.t, m.t, "f", lambda i: (1 / (sf((i,))[0] * sf((i,))[0]),))
    return o, n, m, npx, meas, tr, d, W


@variants("C07", "forward", dict(setting=["analysis", "synthesis"], data=["f", "c"], X=["f", "c"]))
def forward(p, setting, data, X):
    o, n, m, npx, meas, tr, d, W = setup(p, setting, data, "scalar")
    x = sym_arr("X", (n,), X)
    fr = Frame(X=x, data=d, operator=o, measurement=meas, transform=tr)
    want = meas.forward.spec(x if setting == "analysis" else tr.inverse.spec(x))
    for rep in ("forward(X)", "forward(X) again"):
        r = ok(p, rep, attempt(o.forward, x))
        prove_arr(p, rep, r, (m,), lambda idx: elem(want, idx))
    fr.check(p)


@variants("C07", "gradient", dict(setting=["analysis", "synthesis"], data=["f", "c"], sig=["scalar", "vector", "matrix"], preds=["f", "c"]))
def gradient(p, setting, data, sig, preds):
    o, n, m, npx, meas, tr, d, W = setup(p, setting, data, sig)
    q = sym_arr("preds", (m,), preds)
    fr = Frame(preds=q, data=d, operator=o, measurement=meas, transform=tr)
    g = meas.adjoint.spec(W @ (q - d))
    if setting == "synthesis":
        g = tr.inverse_adjoint.spec(g)
    for rep in ("calc_gradg(preds)", "calc_gradg(preds) again"):
        r = ok(p, rep, attempt(o.calc_gradg, q))
        prove_arr(p, rep, r, (n,), lambda idx: elem(g, idx))
    fr.check(p)


@variants("C07", "other settings are refused", dict(setting=["", "Synthesis", "harmonic"]))
def refuse(p, setting):
    fw = world().load("pxmcmc.forward")
    refused(p, "refused", attempt(fw.ForwardOperator, sym_arr("data", (sym_int("m", 1),), "f"), Sc("f", (R(1),)), setting), Exception)


@task("C07", "lemma: that map is the gradient of half the weighted misfit")
def lemma_grad(p):
    # one datum pair i, j of the quadratic form: d/dt of 1/2 (r + t a)' W (r + t a) at t = 0 is a' W r for symmetric W
    r1, r2, a1, a2, w11, w12, w22, t = z3.Reals("r1 r2 a1 a2 w11 w12 w22 t")
    def quad(u, v):
        return (w11 * u * u + 2 * w12 * u * v + w22 * v * v) / 2
    lhs = quad(r1 + t * a1, r2 + t * a2) - quad(r1, r2)
    lin = a1 * (w11 * r1 + w12 * r2) + a2 * (w12 * r1 + w22 * r2)
    lemma(p, "directional derivative", [], lhs == t * lin + t * t * quad(a1, a2))


@variants("C07", "built-in operators", dict(which=["SphericalWaveletTransformOperator", "PathIntegralOperator"], setting=["analysis", "synthesis"], cfg=["default", "full"]))
def builtin(p, which, setting, cfg):
    """the ready-made operators combine the wavelet transform with the identity / path-integral measurement"""
    w = world()
    fw, ms, tf = w.load("pxmcmc.forward"), w.load("pxmcmc.measurements"), w.load("pxmcmc.transforms")
    L, J, m = sym_int("L", 1), sym_int("J_min", 0), sym_int("ndata", 1)
    B = sym_real("B")
    p.assume(B.t > 1)
    d = sym_arr("data", (m,), "c")
    s = sym_cplx("sig")
    p.assume(s.e[0] > 0)
    npix = t_mul(L.t, 2 * L.t - 1)
    N, spin = sym_int("dirs", 1), sym_int("spin", 0)
    kw = dict(dirs=N, spin=spin) if cfg == "full" else {}
    if which == "PathIntegralOperator":
        Mf = [z3.Function("M_re", core.INT, core.INT, core.REAL), z3.Function("M_im", core.INT, core.INT, core.REAL)]
        M = SpM(m.t, npix, "c", lambda i, j: tuple(f(i, j) for f in Mf))
        o = ok(p, which, attempt(fw.PathIntegralOperator, M, d, s, setting, L, B, J, **kw))
        meas = ms.PathIntegral(M)
    else:
        o = ok(p, which, attempt(fw.SphericalWaveletTransformOperator, d, s, setting, L, B, J, **kw))
        meas = ms.Identity(m, ival(npix))
    tr = tf.SphericalWaveletTransform(L, B, J, **(kw or dict(dirs=ival(z3.IntVal(1)), spin=ival(z3.IntVal(0)))))
    n = it(tr.ncoefs) if setting == "synthesis" else npix
    p.prove("nparams", it(o.nparams) == n)
    x = sym_arr("X", (ival(n),), "c")
    want = meas.forward(x if setting == "analysis" else tr.inverse(x))
    prove_arr(p, "forward(X)", ok(p, "forward", attempt(o.forward, x)), (m,), lambda idx: elem(want, idx))
    q = sym_arr("preds", (m,), "c")
    g = meas.adjoint(o.invcov @ (q - d))
    if setting == "synthesis":
        g = tr.inverse_adjoint(g)
    prove_arr(p, "calc_gradg(preds)", ok(p, "calc_gradg", attempt(o.calc_gradg, q)), (ival(n),), lambda idx: elem(g, idx))
