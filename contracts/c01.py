"""C01: every saved row is self-consistent."""
from .sampling import *

ALL = tuple(QUANT)
SUBSETS = [()] + [(q,) for q in ALL]


def check_rows(p, m, N=None):
    """rows r < nsamples of every tracked quantity describe one and the same state; the others are not stored"""
    o = m.sampler
    for q, a in QUANT.items():
        if q not in m.track:
            p.prove(f"{q} is not stored when not tracked", z3.BoolVal(not hasattr(o, a)))
    r = p.generic(m.ns.t)
    t = F_kappa(r) if m.hook.free else F_trans(r)
    want = {"chain": lambda i: m.S.at(t, i[0]), "preds": lambda i: m.FS.at(t, i[0]), "logPi": lambda i: (m.logpi_of(m.L2.val(t), m.PR.val(t)).e[0],),
            "L2s": lambda i: (m.L2.at(t)[0],), "priors": lambda i: m.PR.at(t)}
    shape = {"chain": (m.ns, m.n), "preds": (m.ns, m.m)}
    for q, a in QUANT.items():
        if q in m.track:
            v = getattr(o, a, None)
            sh = [it(s) for s in shape.get(a, (m.ns,))]
            good = isinstance(v, SArr) and v.ndim == len(sh)
            if not good:
                p.prove(f"{q}: is stored", z3.BoolVal(False))
                continue
            p.prove(f"{q}: one row per sample", t_and(*[x == y for x, y in zip(v.shp, sh)]))
            i = (p.generic(v.shp[1]),) if v.ndim == 2 else ()
            w = cast(want[a](i), "c" if len(want[a](i)) == 2 else "f", "c")
            g = cast(v.read((r,) + i), v.kind, "c")
            p.prove(f"{q}: row r describes the state of row r", g[0] == w[0])
            if a in ("chain", "preds"):
                p.prove(f"{q}: row r describes the state of row r (imaginary part)", g[1] == w[1])


def rows(p, algo, cplx, data, track, verbosity=0):
    m = Model(p, algo, cplx, data, track=list(track), verbosity=verbosity)
    m.hook = RunHook(m, free=True)
    ok(p, f"{algo}.run", m.run(m.hook))
    check_rows(p, m)


for algo in ("MYULA", "PxMALA", "SKROCK"):
    for cplx, data in ((False, "f"), (True, "c"), (False, "c"), (True, "f")):
        task("C01", f"rows[{algo},{'complex' if cplx else 'real'} parameters,{'complex' if data == 'c' else 'real'} data]", budget=500,
             algo=algo, cplx=cplx, data=data, track=ALL)(rows)
    task("C01", f"rows[{algo},any verbosity]", budget=500, algo=algo, cplx=False, data="f", track=ALL, verbosity=None)(rows)
    for tr in SUBSETS:
        task("C01", f"rows[{algo},track={'+'.join(tr) or 'nothing'}]", budget=500, algo=algo, cplx=False, data="f", track=tr)(rows)


@task("C01", "logpi[definition]", cplx=False)
@task("C01", "logpi[definition,complex]", cplx=True)
def logpi(p, cplx):
    """what logpi returns for an arbitrary state: misfit, prior and log-posterior by their definitions"""
    m = Model(p, "MYULA", cplx)
    x, f = sym_arr("X", (m.n,), m.kx), sym_arr("P", (m.m,), m.kd)
    fr = Frame(X=x, preds=f, data=m.data)
    r = ok(p, "logpi", attempt(m.sampler.logpi, x, f))
    X, F_, d, W = vec(x), vec(f), vec(m.data), m.W
    diff = lambda i: tuple(a - b for a, b in zip(d(i), F_(i)))  # noqa
    l2 = csum(m.m, lambda i: cmul(cconj(diff(i)), csum(m.m, lambda j: cmul((W.f(i, j)[0], ZERO), diff(j)))))
    pr = m.prior_of(x).e[0]
    good = isinstance(r, tuple) and len(r) == 3
    p.prove("logpi returns (log-posterior, L2, prior)", z3.BoolVal(good))
    if good:
        prove_num(p, "L2 = conj(data - preds) . W (data - preds)", r[1], l2)
        prove_num(p, "prior is the prior of X", r[2], pr)
        prove_num(p, "log-posterior = -mu prior - L2", r[0], (-m.mu.t * pr - l2[0], -l2[1]))
    fr.check(p)
