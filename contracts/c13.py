"""C13: the L1 prior and its proximal map agree, in both settings."""
from .common import *


def setup(p, setting, X, T, m=None):
    pr = world(SOFT).load("pxmcmc.prior")
    n, m = sym_int("n", 0), sym_int("m", 0)
    fwd = VFun("fwd", n if setting == "analysis" else m, "c", m if setting == "analysis" else None)
    adj = VFun("adj", m, "c", n if setting == "analysis" else None)
    if T == "scalar":
        t = sym_real("T")
        p.assume(t.t >= 0)
    else:
        t = sym_arr("T", (m if setting == "analysis" else n,), "f")
        tf = t.snap()
        p.qfacts.append((1, lambda i: tf((i,))[0] >= 0))
    x = sym_arr("X", (n,), X)
    fr = Frame(X=x, T=t)
    o = ok(p, "L1()", attempt(pr.L1, setting, fwd, adj, t))
    fr.add("prior object", o)
    return o, x, t, n, m, fwd, adj, fr


@variants("C13", "prior", dict(setting=["synthesis", "analysis"], X=["f", "c"], T=["scalar", "vector"]))
def prior(p, setting, X, T):
    o, x, t, n, m, fwd, adj, fr = setup(p, setting, X, T)
    y = x.copy() if setting == "synthesis" else adj.spec(x)
    ye = vec(y)
    want = sum_term(it(n) if setting == "synthesis" else it(m), lambda i: modulus(ye(i)))
    r = ok(p, "prior", attempt(o.prior, x))
    prove_num(p, "prior(X)", r, want)
    fr.check(p)
    r2 = ok(p, "prior again", attempt(o.prior, x))
    prove_num(p, "a second evaluation agrees", r2, want)


@variants("C13", "proxf", dict(setting=["synthesis", "analysis"], X=["f", "c"], T=["scalar", "vector"]))
def proxf(p, setting, X, T):
    o, x, t, n, m, fwd, adj, fr = setup(p, setting, X, T)
    xe = vec(x)
    if setting == "synthesis":
        s = soft_spec(x, t)
        want = lambda idx: elem(s, idx)  # noqa
    else:
        a = adj.spec(x)
        s = fwd.spec(soft_spec(a, t) - a)
        want = lambda idx: e_add(xe(idx[0]), elem(s, idx))  # noqa
    r = ok(p, "proxf", attempt(o.proxf, x))
    prove_arr(p, "proxf(X)", r, (n,), want)
    fr.check(p)
    prove_arr(p, "a second evaluation agrees", ok(p, "proxf again", attempt(o.proxf, x)), (n,), want)


@variants("C13", "other settings are refused", dict(setting=["", "Analysis", "both", None]))
def refuse(p, setting):
    pr = world(SOFT).load("pxmcmc.prior")
    f = VFun("fwd", sym_int("n", 0), "c")
    refused(p, "refused", attempt(pr.L1, setting, f, f, sym_real("T")), Exception)
