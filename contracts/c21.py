"""C21: credible region threshold and membership.  Quantiles are those of numpy (linear interpolation)."""
from .common import *
from pxv import npshim


@variants("C21", "threshold is the alpha quantile", dict(alpha=["given", "default"]))
def threshold(p, alpha):
    u = world().load("pxmcmc.uncertainty")
    n = sym_int("n", 1)
    x = sym_arr("logpis", (n,), "f")
    fr = Frame(logpis=x)
    if alpha == "given":
        a = sym_real("alpha")
        p.assume(z3.And(a.t > 0, a.t < 1))
        r = attempt(u.credible_region_threshold, x, a)
    else:
        a = Sc("f", (R("1/20"),))
        r = attempt(u.credible_region_threshold, x)
    want = lift(npshim.quantile(x.copy(), a)).e[0]
    prove_num(p, "threshold", ok(p, "credible_region_threshold", r), want)
    fr.check(p)


@task("C21", "membership")
def member(p):
    u = world().load("pxmcmc.uncertainty")
    a, t = sym_real("logpi"), sym_real("threshold")
    r = ok(p, "in_credible_region", attempt(u.in_credible_region, a, t))
    inside = truth(p, r)
    p.prove("inside exactly when the log-posterior is at least the threshold", inside == (a.t >= t.t))
    b = sym_real("raised")
    p.assume(b.t >= a.t)
    r2 = truth(p, ok(p, "in_credible_region", attempt(u.in_credible_region, b, t)))
    p.prove("raising the log-posterior never expels the sample", z3.Implies(inside, r2))


def truth(p, r):
    if isinstance(r, Sc):
        return cast(r.e, r.kind, "b")[0]
    return z3.BoolVal(bool(r))


@task("C21", "the best sample is inside")
def best(p):
    u = world().load("pxmcmc.uncertainty")
    n = sym_int("n", 1)
    x = sym_arr("logpis", (n,), "f")
    f = x.snap()
    a = sym_real("alpha")
    p.assume(z3.And(a.t > 0, a.t < 1))
    b = sym_int("best", 0)
    p.assume(b.t < n.t)
    p.idx_terms.append(b.t)
    p.qfacts.append((1, lambda i: z3.Implies(z3.And(i >= 0, i < n.t), f((i,))[0] <= f((b.t,))[0])))
    th = ok(p, "credible_region_threshold", attempt(u.credible_region_threshold, x, a))
    r = ok(p, "in_credible_region", attempt(u.in_credible_region, x[b], th))
    p.prove("the best sample is in the region", truth(p, r))
