"""C25: the survey mask is the union of the two excluded bands."""
from .common import *
from pxv import npshim


@variants("C25", "build_mask", dict(size=["real", "default"]))
def mask(p, size):
    u = world().load("pxmcmc.utils")
    L = sym_int("L", 1)
    n = t_sub(t_mul(z3.IntVal(2), L.t), I1)
    if size == "real":
        w = sym_real("size")
        r = ok(p, "build_mask", attempt(u.build_mask, L, w))
        w = w.t
    else:
        r = ok(p, "build_mask", attempt(u.build_mask, L))
        w = R(20)
    th, ph = extshim.ssht_positions(L)

    def deg(x):
        return t_div(t_mul(x, R(180)), t_pi())

    def want(idx):
        t, f = elem(th, (idx[0],))[0], elem(ph, (idx[1],))[0]
        lat = deg(t) - 90
        lon = deg(f) - 180
        b = extshim.F_gal(lon, lat)
        return t_ite(t_or(t_abs(lat) < w, t_abs(b) < w), ZERO, R(1))
    prove_arr(p, "zero exactly in the two bands, one elsewhere", r, (L, ival(n)), want)
