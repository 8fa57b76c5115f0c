"""C03: MYULA transition law."""
from .sampling import *


def law(p, cplx, data, start, verbosity=0):
    m = Model(p, "MYULA", cplx, data, track=["chain"], start=start, verbosity=verbosity)
    c0 = it(p.ghost.get("rng_laplace", ival(I0)))
    h = RunHook(m, final=law_myula)
    ok(p, "MYULA.run", m.run(h))
    h.known(p, "MYULA.run")
    i = p.generic(m.n.t)
    x0 = h.x0
    if start == "given":
        p.prove("the chain starts from the given start point", z3.And(*[a == b for a, b in zip(x0.read((i,)), m.start.read((i,)))]))
    else:
        parts = list(x0.read((i,)))
        prove_noise(p, "start point", i, m.n.t, parts, R(1), "laplace", c0, it(p.ghost.get("rng_laplace", ival(I0))))


for cplx, data in ((False, "f"), (True, "c"), (False, "c"), (True, "f")):
    for start in ("given", "drawn"):
        task("C03", f"run[{'complex' if cplx else 'real'} parameters,{'complex' if data == 'c' else 'real'} data,start {start}]", budget=400, cplx=cplx, data=data, start=start)(law)


@variants("C03", "chain_step", dict(cplx=[False, True]))
def step(p, cplx):
    """the public step function, for arbitrary vectors"""
    m = Model(p, "MYULA", cplx)
    X, P, G = (sym_arr(n, (m.n,), m.kx) for n in ("X", "prox", "grad"))
    fr = Frame(X=X, proxf=P, gradg=G, sampler=m.sampler, params=m.params)
    c0 = it(p.ghost.get("rng_normal", ival(I0)))
    r = ok(p, "chain_step", attempt(m.sampler.chain_step, X, P, G))
    if not isinstance(r, SArr) or r.ndim != 1:
        p.prove("chain_step returns a vector", z3.BoolVal(False))
        return
    p.prove("chain_step returns a vector of the parameters' length", r.shp[0] == m.n.t)
    i = p.generic(m.n.t)
    d, lm = m.delta0.t, m.lmda.t
    e = elem(r, (i,))
    parts = [a - ((1 - d / lm) * x + (d / lm) * q - d * g) for a, x, q, g in zip(e, vec(X)(i), vec(P)(i), vec(G)(i))]
    prove_noise(p, "chain_step", i, m.n.t, parts if cplx else parts[:1], t_sqrt(t_mul(R(2), d)), "normal", c0, it(p.ghost.get("rng_normal", ival(I0))))
    if not cplx:
        p.prove("chain_step: real parameters stay real", parts[1] == 0)
    fr.check(p)
