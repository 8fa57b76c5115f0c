"""C20: credible interval ranges."""
from .common import *
from pxv import npshim

F_bl = z3.Function("bandlimit", core.INT, core.INT)


def qdiff(n, col, alpha):
    return t_sub(npshim._quant(n, col, t_sub(R(1), alpha / 2)), npshim._quant(n, col, alpha / 2))


def level(p, a):
    if a == "default":
        return (), R("1/20")
    al = sym_real("alpha")
    p.assume(z3.And(al.t > 0, al.t < 1))
    return (al,), al.t


@variants("C20", "credible_interval_range", dict(alpha=["given", "default"]))
def ci(p, alpha):
    u = world().load("pxmcmc.uncertainty")
    n, m = sym_int("nsamples", 1), sym_int("nparams", 0)
    x = sym_arr("chain", (n, m), "f")
    f = x.snap()
    fr = Frame(chain=x)
    a, at = level(p, alpha)
    r = ok(p, "credible_interval_range", attempt(u.credible_interval_range, x, *a))
    prove_arr(p, "difference of the empirical quantiles of the parameter's own samples", r, (m,), lambda idx: qdiff(n.t, lambda b: f((b, idx[0]))[0], at))
    i = p.generic(m.t)
    p.prove("never negative", elem(r, (i,))[0] >= 0)
    fr.check(p)


def _bl_stub(nsc):
    def fn(orig, L, B, J_min, dirs=1, spin=0):
        p = cur()
        p.ghost["bl_args"] = (L, B, J_min, dirs, spin)
        return mat((nsc.t,), "i", lambda idx: (F_bl(idx[0]),))
    return fn


def _ci_stub(orig, chain, alpha=None):
    """contract proved above"""
    at = R("1/20") if alpha is None else rterm(lift(alpha))
    if not isinstance(chain, SArr) or chain.ndim != 2 or chain.kind != "f":
        return orig(chain, *(() if alpha is None else (alpha,)))
    f, n = chain.snap(), chain.shp[0]
    return mat((chain.shp[1],), "f", lambda idx: (qdiff(n, lambda b: f((b, idx[0]))[0], at),))


@variants("C20", "wavelet_credible_interval_range", dict(alpha=["given", "default"]))
def wci(p, alpha):
    nsc = sym_int("nmaps", 1)
    u = world({"utils._multires_bandlimits": (("L", "B", "J_min", "dirs", "spin"), _bl_stub(nsc)),
               "uncertainty.credible_interval_range": (("chain", "alpha"), _ci_stub)}).load("pxmcmc.uncertainty")
    p.trigs.append(("bandlimit", lambda args: F_bl(args[0]) >= 1))
    L, J, B = sym_int("L", 1), sym_int("J_min", 0), sym_real("B")
    n = sym_int("nsamples", 1)
    ln = lambda j: F_bl(j) * (2 * F_bl(j) - 1)  # noqa
    off, piece = npshim.offsets(nsc.t, lambda j: t_mul(F_bl(j), t_sub(t_mul(z3.IntVal(2), F_bl(j)), I1)))
    x = sym_arr("chain", (n, ival(off(nsc.t))), "f")
    f = x.snap()
    fr = Frame(chain=x)
    a, at = level(p, alpha)
    r = ok(p, "wavelet_credible_interval_range", attempt(u.wavelet_credible_interval_range, x, L, B, J, *a))
    g = p.ghost.get("bl_args")
    p.prove("bandlimits of the requested tiling", z3.BoolVal(g is not None and all(same_obj(p, v, w) for v, w in zip(g, (L, B, J, 1, 0)))), detail=str(g))
    if isinstance(r, tuple):
        r = PList(list(r))
    if not isinstance(r, PList):
        p.prove("a list of maps", z3.BoolVal(False), detail=type(r).__name__)
        return
    p.prove("one map per scale", r.length() == nsc.t)
    j = p.generic(nsc.t)
    m = r.at(j)
    bl = F_bl(j)
    w = t_sub(t_mul(z3.IntVal(2), bl), I1)
    prove_arr(p, "map of the scale", m, (ival(bl), ival(w)), lambda idx: qdiff(n.t, lambda b: f((b, t_add(off(j), p.flat(idx[0], idx[1], w))))[0], at))
    t, q = p.generic(bl), p.generic(w)
    want = qdiff(n.t, lambda b: f((b, t_add(off(j), p.flat(t, q, w))))[0], at)
    p.prove("quantile range of the pixel's own samples", elem(m, (t, q))[0] == want)
    lemma(p, "a quantile range is never negative", [], want >= 0)
    fr.check(p)
    # cover: every coefficient belongs to exactly one (scale, row, column)
    c = p.generic(off(nsc.t))
    s = piece(c)
    p.prove("every coefficient belongs to a scale", z3.And(s >= 0, s < nsc.t, off(s) <= c, c < off(s) + ln(s)))
