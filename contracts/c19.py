"""C19: quadrature weights and sphere integral.  The DFT is numpy's (uninterpreted); exactness of the quadrature is McEwen & Wiaux's theorem."""
from .common import *
from pxv import npshim

F_wt = z3.Function("weights_theta", core.INT, core.INT, core.REAL)
F_mw = z3.Function("mw_map_weights", core.INT, core.INT, core.REAL)


def w_spec(m):
    """w(m): 2/(1-m^2) for even m, +-i pi/2 for m = +-1, zero for other odd m"""
    mr = to_real(m)
    even = t_cmp("eq", t_divmod(m, z3.IntVal(2))[1], z3.IntVal(0))
    re = t_ite(even, 2 / (1 - mr * mr), ZERO)
    im = t_ite(t_cmp("eq", m, I1), t_pi() / 2, t_ite(t_cmp("eq", m, z3.IntVal(-1)), -t_pi() / 2, ZERO))
    return re, im


@task("C19", "mw_weights")
def mw(p):
    u = world().load("pxmcmc.utils")
    m = sym_int("m")
    prove_num(p, "mw_weights(m)", ok(p, "mw_weights", attempt(u.mw_weights, m)), w_spec(m.t))


@task("C19", "weights_theta")
def wtheta(p):
    u = world().load("pxmcmc.utils")
    L = sym_int("L", 1)
    n = t_sub(t_mul(z3.IntVal(2), L.t), I1)
    r = ok(p, "weights_theta", attempt(u.weights_theta, L))

    def x(idx):
        # unshifted order: m = i for i <= L-1, i - (2L-1) beyond
        m = t_ite(idx[0] < L.t, idx[0], t_sub(idx[0], n))
        ph = t_neg(t_div(t_mul(to_real(m), t_pi()), to_real(n)))
        return e_mul(w_spec(m), (t_cos(ph), t_sin(ph)))
    F = npshim.fft(mat((n,), "c", x))
    prove_arr(p, "real part of the DFT of the phase-shifted weights times 2 pi/(2L-1)^2", r, (ival(n),), lambda idx: elem(F, idx)[0] * 2 * t_pi() / (to_real(n) * to_real(n)))


def _wt_stub(orig, L):
    n = t_sub(t_mul(z3.IntVal(2), it(L)), I1)
    return mat((n,), "f", lambda idx: (F_wt(it(L), idx[0]),))


WT = {"utils.weights_theta": (("L",), _wt_stub)}


def ring(i, L):
    return t_add(F_wt(L, i), t_ite(i < t_sub(L, I1), F_wt(L, t_sub(t_sub(t_mul(z3.IntVal(2), L), z3.IntVal(2)), i)), ZERO))


@task("C19", "mw_map_weights")
def mapw(p):
    u = world(WT).load("pxmcmc.utils")
    L = sym_int("L", 1)
    n = t_sub(t_mul(z3.IntVal(2), L.t), I1)
    r = ok(p, "mw_map_weights", attempt(u.mw_map_weights, L))
    prove_arr(p, "rings beyond pi folded back, constant along each ring", r, (ival(t_mul(L.t, n)),), lambda idx: ring(t_divmod(idx[0], n)[0], L.t))


def _mw_stub(orig, L):
    n = t_sub(t_mul(z3.IntVal(2), it(L)), I1)
    return mat((t_mul(it(L), n),), "f", lambda idx: (F_mw(it(L), idx[0]),))


MW = {"utils.mw_map_weights": (("L",), _mw_stub)}


@variants("C19", "s2_integrate", dict(f=["f", "c", "i"]))
def integ(p, f):
    u = world(MW).load("pxmcmc.utils")
    L = sym_int("L", 1)
    n = t_mul(L.t, t_sub(t_mul(z3.IntVal(2), L.t), I1))
    x = sym_arr("f", (ival(n),), f)
    xe = vec(x)
    fr = Frame(f=x)
    r = ok(p, "s2_integrate", attempt(u.s2_integrate, x, L))
    want = csum(n, lambda i: e_mul((F_mw(L.t, i), ZERO), xe(i)))
    prove_num(p, "the sum of the weights times the samples", r, want)
    fr.check(p)
