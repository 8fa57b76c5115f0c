"""C05: PxMALA's step-size adaptation."""
from .sampling import *
from .c04 import MHHook


def clamp(x, lm):
    lo, hi = lm * R("1e-8"), lm / 2
    y = z3.If(x < lo, lo, x)
    return z3.If(y > hi, hi, y)


def tuned(h, cut, k, now):
    p, m = cur(), h.m
    d0 = delta_at(h, cut, k)
    d1 = lift(m.sampler.delta)
    if d1 is None:
        p.prove("the step size is a number", z3.BoolVal(False))
        return
    d1 = rterm(d1)
    if m.tuned:
        d1 = z3.substitute(d1, *m.tuned)
    if not m.tune:
        p.prove("tuning off: the step size does not change", z3.And(d1 == d0, d0 == m.delta0.t))
        return
    acc = h.accepted(now)
    if acc is None:
        return
    a = to_real(acc)
    x = d0 * (1 + (a - R("1/2")) / t_pow(to_real(k) + 1, R("3/4")))
    lm = m.lmda.t
    lo, hi = lm * R("1e-8"), lm / 2
    p.prove("the bounds are in order", lo <= hi)
    good = p._ring(z3.simplify(d1), z3.simplify(clamp(x, lm)))
    p.prove("the step size is multiplied by 1 + (a - 1/2)/(i+1)^(3/4) and clamped to [1e-8 lmda, lmda/2]", z3.BoolVal(True) if good else d1 == clamp(x, lm))
    d = z3.Real(p.fresh("unclamped!"))
    p.prove("the clamped step size lies in [1e-8 lmda, lmda/2]", z3.And(clamp(d, lm) >= lo, clamp(d, lm) <= hi))


def run_delta(p, cplx, tune, verbosity=0):
    m = Model(p, "PxMALA", cplx, "c" if cplx else "f", track=["chain"], verbosity=verbosity, tune=tune)
    fr = Frame(params=m.params)
    m.hook = h = MHHook(m, final=tuned)
    ok(p, "PxMALA.run", m.run(h))
    h.known(p, "PxMALA.run")
    fr.check(p)
    tr = getattr(m.sampler, "deltas_trace", None)
    good = isinstance(tr, PList)
    p.prove("the step-size record is a list", z3.BoolVal(good))
    if not good:
        return
    prove_num(p, "the record starts with the initial step", tr[0], m.delta0.t)
    if tune:
        p.prove("the record has one further entry per transition", it(tr.length()) == h.N + 1)
        t = p.generic(h.N)
        prove_num(p, "entry t+1 is the step size after transition t", tr[ival(t_add(t, I1))], m.D.at(t_add(t, I1))[0])
        prove_num(p, "the sampler is left with the last step size", m.sampler.delta, m.D.at(h.N)[0])
    else:
        prove_num(p, "tuning off: the step size at the end is the initial one", m.sampler.delta, m.delta0.t)


for cplx in (False, True):
    for tune in (True, False):
        task("C05", f"run[{'complex' if cplx else 'real'},tuning {'on' if tune else 'off'}]", budget=500, cplx=cplx, tune=tune)(run_delta)
task("C05", "run[any verbosity,tuning on]", budget=500, cplx=False, tune=True, verbosity=None)(run_delta)
