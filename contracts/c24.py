"""C24: hard thresholding keeps the largest entries.  Order statistics are those of numpy's sort."""
from .common import *
from pxv import npshim


@variants("C24", "hard", dict(X=["f", "c", "i"], T=["f", "default"]))
def hard(p, X, T):
    u = world().load("pxmcmc.utils")
    n = sym_int("n", 0)
    x = sym_arr("X", (n,), X)
    x0 = x.copy()
    xe = vec(x0)
    if T == "f":
        t = sym_real("T")
        p.assume(z3.And(t.t >= 0, t.t <= 1))
        r = ok(p, "hard", attempt(u.hard, x, t))
        tt = t.t
    else:
        tt = R("1/10")
        r = ok(p, "hard", attempt(u.hard, x))
    m = core.t_floor(t_mul(tt, to_real(n.t)))
    srt = npshim.sort(npshim.abs_(x0)) if hasattr(npshim, "abs_") else npshim.sort(abs(x0))
    thr = cast(srt.read((t_sub(n.t, m),)), srt.kind, "f")[0]

    def want(idx):
        z = xe(idx[0])
        return tuple(t_ite(t_and(m > 0, modulus(z) >= thr), c, ZERO) for c in z)
    prove_arr(p, "hard(X, T)", r, (n,), want)
