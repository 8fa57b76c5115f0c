"""C26: multiresolution bandlimits are those of the tiling functions."""
from .common import *


def is_bandlimit(p, nm, e, n, coef, witness=None):
    """e is one more than the largest l in [0, n) with coef(l) != 0"""
    if witness is not None:
        p.idx_terms.append(witness)
    p.idx_terms.append(t_sub(e, I1))
    p.prove(nm + ": between 1 and the bandlimit", t_and(e >= 1, e <= n))
    p.prove(nm + ": the coefficient of degree one less is non-zero", coef(t_sub(e, I1)) != 0)
    g = p.generic(n)
    p.prove(nm + ": no coefficient of that degree or above is non-zero", z3.Implies(g >= e, coef(g) == 0))


@variants("C26", "_multires_bandlimits", dict(args=["all", "defaults"]))
def bandlimits(p, args):
    u = world().load("pxmcmc.utils")
    L, J, B = sym_int("L", 1), sym_int("J_min", 0), sym_real("B")
    p.assume(B.t > 1)
    if args == "all":
        N, s = sym_int("dirs", 1), sym_int("spin")
        r = ok(p, "_multires_bandlimits", attempt(u._multires_bandlimits, L, B, J, N, s))
    else:
        N, s = ival(I1), ival(I0)
        r = ok(p, "_multires_bandlimits", attempt(u._multires_bandlimits, L, B, J))
    phi, psi = extshim.wavelet_tiling(B, L, N, J, s)
    nj = psi.shp[1]
    r = as_arr(r)
    p.prove("one entry for the scaling function and one per wavelet scale", t_and(z3.BoolVal(r.ndim == 1), r.shp[0] == t_add(nj, I1)))
    p.prove("the entries are integers", z3.BoolVal(r.kind == "i"), detail=r.kind)
    is_bandlimit(p, "entry 0 (scaling function)", r.read((I0,))[0], L.t, lambda l: elem(phi, (l,))[0])
    j = p.generic(nj)
    e = r.read((t_add(j, I1),))[0]
    is_bandlimit(p, "entry j+1 (wavelet scale j)", e, L.t, lambda l: elem(psi, (t_add(t_mul(l, l), l), j))[0])
