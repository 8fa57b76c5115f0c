"""Oracles for the samplers: C01 - C06, C23.  Environment operators are small dense matrices; random draws are recorded."""
import numpy as np
from scipy import sparse, stats
from concrete.lib import oracle, Fail, Skip, same, raises, Frozen, quiet, REC, limit, TooLong

import pxmcmc.mcmc as MC
from pxmcmc.forward import ForwardOperator
from pxmcmc.measurements import Identity
from pxmcmc.transforms import IdentityTransform
from pxmcmc.prior import L1

QUANT = dict(logposterior="logPi", L2="L2s", prior="priors", chain="chain", predictions="preds")


class Env:
    """forward operator of the environment, with a record of the arguments it was given"""

    def __init__(self, c, n, m, cplx, nonlinear=False):
        k = "c" if cplx else "f"
        self.A = c.vec((m, n), k, False) / (1 + np.abs(c.rng.normal()))
        self.A /= np.abs(self.A).max()
        self.data = c.vec(m, k, False)
        self.data /= np.abs(self.data).max()
        self.w = c.rng.uniform(0.3, 2, m)
        self.invcov = sparse.diags(self.w)
        self.nparams = n
        self.nl = nonlinear
        self.calls = []

    def f(self, x):
        p = self.A @ x
        return p + 0.1 * np.sin(p.real) if self.nl else p

    def g(self, p):
        return self.A.conj().T @ (self.w * (p - self.data)) + (0.05 * np.cos(np.abs(p).sum()) if self.nl else 0)

    def forward(self, x):
        self.calls.append(np.array(x))
        return self.f(x)

    def calc_gradg(self, p):
        return self.g(p)

    def snap(self):
        return Frozen(A=self.A, data=self.data, w=self.w, invcov=self.invcov)


class Pri:
    def __init__(self, c, n):
        self.T, self.b = float(c.rng.uniform(0.01, 0.5)), c.rng.uniform(0.5, 2, n)

    def prior(self, x):
        return float(np.sum(self.b * np.abs(x)))

    def proxf(self, x):
        m = np.abs(x)
        return np.where(m <= self.T, 0, x * (1 - self.T / np.where(m > 0, m, 1)))


def setup(c, algo, **fix):
    n, m = c.n(1, 5), c.n(1, 5)
    cplx = fix.pop("cplx", bool(c.rng.random() < 0.4))
    env, pri = Env(c, n, m, cplx, c.rng.random() < 0.3), Pri(c, n)
    tr = [q for q in QUANT if c.rng.random() < 0.6]
    if c.rng.random() < 0.3:
        tr = list(QUANT)
    kw = dict(lmda=float(10 ** c.rng.uniform(-2, 0.5)), mu=float(c.rng.uniform(0.1, 2)), s=int(c.rng.integers(1, 6)),
              nsamples=int(c.rng.integers(1, 9)), nburn=int(c.rng.integers(0, 6)), ngap=int(c.rng.integers(0, 5)), complex=cplx,
              verbosity=c.pick(0, 1, 2, 3, 5, 100), track=tr)
    if c.hint is not None and 0 <= c.hint <= 700:
        k = c.pick("nsamples", "nburn", "ngap", "verbosity", "s", None)
        if k is not None and not (k == "s" and not 1 <= c.hint <= 8) and not (k == "nsamples" and c.hint < 1):
            kw[k] = c.hint
            if k == "ngap":
                kw["nsamples"] = min(kw["nsamples"], 3)
    kw["delta"] = float(kw["lmda"] * 10 ** c.rng.uniform(-2, 0)) if algo == "PxMALA" else float(10 ** c.rng.uniform(-4, -1))
    kw.update(fix)
    p = MC.PxMCMCParams(**kw)
    x0 = c.vec(n, "c" if cplx else "f", False)
    x0 = x0 / max(1.0, np.abs(x0).max())
    c.inp(algo=algo, params=dict(kw), n=n, m=m, x0=x0, A=env.A, data=env.data, w=env.w)
    return env, pri, p, x0


def build(algo, env, pri, p, tune=True):
    if algo == "PxMALA":
        return MC.PxMALA(env, pri, p, tune_delta=tune)
    return getattr(MC, algo)(env, pri, p)


def logpi(env, pri, mu, x):
    p = env.f(x)
    d = env.data - p
    L2 = np.vdot(d, env.w * d)
    pr = pri.prior(x)
    return -mu * pr - L2, L2, pr, p


def grad(env, pri, lm, x):
    return -(x - pri.proxf(x)) / lm - env.g(env.f(x))


def coefs(s):
    w0 = 1 + 0.05 / s ** 2
    T, U = [1.0, w0], [1.0, 2 * w0]
    for _ in range(s + 1):
        T.append(2 * w0 * T[-1] - T[-2])
        U.append(2 * w0 * U[-1] - U[-2])
    w1 = T[s] / (s * U[s - 1])
    mu, nu, ka = [0, w1 / w0], [0, s * w1 / 2], [0, s * w1 / w0]
    for j in range(2, s + 1):
        mu.append(2 * w1 * T[j - 1] / T[j])
        nu.append(2 * w0 * T[j - 1] / T[j])
        ka.append(1 - nu[j])
    return mu, nu, ka


def skrock(env, pri, p, x, z):
    mu, nu, ka = coefs(p.s)
    d = p.delta
    k0, k1 = x, x + mu[1] * d * grad(env, pri, p.lmda, x + nu[1] * np.sqrt(2 * d) * z) + ka[1] * np.sqrt(2 * d) * z
    for j in range(2, p.s + 1):
        k0, k1 = k1, mu[j] * d * grad(env, pri, p.lmda, k1) + nu[j] * k1 + ka[j] * k0
    return k1


def myula(env, pri, lm, d, x, w):
    return (1 - d / lm) * x + d / lm * pri.proxf(x) - d * env.g(env.f(x)) + np.sqrt(2 * d) * w


def logq(env, pri, lm, d, y, x):
    """log density of moving from x to y, up to a constant"""
    mean = (1 - d / lm) * x + d / lm * pri.proxf(x) - d * env.g(env.f(x))
    return -np.sum(np.abs(y - mean) ** 2) / (4 * d)


def ntrans(p):
    return p.nburn + (p.nsamples - 1) * max(p.ngap, 1) + 1


def simulate(algo, env, pri, p, x0, normals, uniforms, N, tune=True, delta=None, swap=False):
    """states 0..N and, for PxMALA, acceptances and step sizes"""
    n = env.nparams
    need = N * n * (2 if p.complex else 1)
    if len(normals) < need:
        raise Fail(f"{len(normals)} normal variates drawn for {N} transitions, which need {need} fresh ones")
    x, xs, acc, ds, amb = x0, [x0], [], [p.delta if delta is None else delta], False
    k = 0
    for t in range(N):
        w = normals[k:k + n]
        k += n
        if p.complex:
            w2 = normals[k:k + n]
            k += n
            w = w2 + 1j * w if swap else w + 1j * w2
        if algo == "SKROCK":
            x = skrock(env, pri, p, x, w)
        elif algo == "MYULA":
            x = myula(env, pri, p.lmda, p.delta, x, w)
        else:
            d = ds[-1]
            y = myula(env, pri, p.lmda, d, x, w)
            la = logpi(env, pri, p.mu, y)[0] + logq(env, pri, p.lmda, d, x, y) - logpi(env, pri, p.mu, x)[0] - logq(env, pri, p.lmda, d, y, x)
            if len(uniforms) <= t:
                raise Fail("no fresh uniform for this transition")
            lu = np.log(uniforms[t])
            if abs(lu - la.real) < 1e-6 * (1 + abs(la)):
                amb = True
            a = bool(lu < la.real)
            acc.append(int(a))
            x = y if a else x
            if tune:
                d = d * (1 + (a - 0.5) / (t + 1) ** 0.75)
                d = min(max(d, 1e-8 * p.lmda), p.lmda / 2)
            ds.append(d)
        xs.append(x)
        if not np.all(np.isfinite(x)) or np.abs(x).max() > 1e6:
            raise Skip
    if amb:
        raise Skip
    return xs, acc, ds


ALGOS = ("MYULA", "PxMALA", "SKROCK")


def do_run(o, x0):
    REC.clear()
    with quiet(), limit(60):
        o.run(x0)
    return REC.flat("normals"), REC.flat("uniforms")


def states(c, algo, env, pri, p, x0, normals, uniforms, tune=True, delta=None):
    N = ntrans(p)
    return simulate(algo, env, pri, p, x0, normals, uniforms, N, tune, delta)


def compare_rows(algo, env, pri, p, o, x0, normals, uniforms, tune, delta, what):
    N = ntrans(p)
    err = None
    for swap in ((False, True) if p.complex else (False,)):
        xs, acc, ds = simulate(algo, env, pri, p, x0, normals, uniforms, N, tune, delta, swap)
        try:
            what(xs, acc, ds)
            return
        except Fail as e:
            err = err or e
    raise err


def rows_of(p, xs):
    g = max(p.ngap, 1)
    return np.array([xs[p.nburn + k * g + 1] for k in range(p.nsamples)])


@oracle("C01", 60, 500)
def rows_consistent(c):
    """up to 5 parameters and data, up to 8 saved rows; first and second runs"""
    algo = ALGOS[c.round % 3]
    env, pri, p, x0 = setup(c, algo)
    chain = c.rng.random() < 0.75
    p.track = [q for q in p.track if q != "chain"] + ["chain"] * chain
    o = build(algo, env, pri, p, tune=bool(c.rng.random() < 0.7))
    for rep in range(1 + c.round % 2):
        do_run(o, x0 if c.rng.random() < 0.7 else None)
        for q, a in QUANT.items():
            if (q in p.track) != hasattr(o, a):
                raise Fail(f"{a} stored although {q} tracked is {q in p.track}")
        for k in range(p.nsamples if chain else 0):
            x = o.chain[k]
            if not np.all(np.isfinite(x)) or np.abs(x).max() > 1e5:
                raise Skip
            lp, L2, pr, pd = logpi(env, pri, p.mu, x)
            if hasattr(o, "preds"):
                same(f"preds[{k}]", o.preds[k], pd)
            if hasattr(o, "L2s"):
                same(f"L2s[{k}]", o.L2s[k], L2.real)
            if hasattr(o, "priors"):
                same(f"priors[{k}]", o.priors[k], pr)
            if hasattr(o, "logPi"):
                same(f"logPi[{k}]", o.logPi[k], lp.real)


@oracle("C01", 30, 300)
def logpi_direct(c):
    """logpi() on arbitrary states and predictions"""
    algo = ALGOS[c.round % 3]
    env, pri, p, x0 = setup(c, algo)
    o = build(algo, env, pri, p)
    x, pd = c.vec(env.nparams, "c" if p.complex else "f"), c.vec(len(env.data), "c" if p.complex else "f")
    c.inp(X=x, preds=pd)
    fr = Frozen(x=x, preds=pd)
    s = env.snap()
    a, b, d = o.logpi(x, pd)
    diff = env.data - pd
    L2 = np.vdot(diff, env.w * diff)
    same("L2", b, L2)
    same("prior", d, pri.prior(x))
    same("log-posterior", a, -p.mu * pri.prior(x) - L2)
    fr.check()
    s.check()


@oracle("C01", 18, 100)
def real_operators(c):
    """the package's own operator and prior, up to 6 parameters"""
    algo = ALGOS[c.round % 3]
    n = c.n(1, 6)
    setting = c.pick("analysis", "synthesis")
    data = c.vec(n, "f", False)
    data /= np.abs(data).max()
    sig = c.pick(0.7, c.rng.uniform(0.5, 2, n))
    fo = ForwardOperator(data, sig, setting, IdentityTransform(), Identity(n, n), nparams=n)
    pri = L1(setting, lambda v: v, lambda v: v, 0.1)
    p = MC.PxMCMCParams(lmda=0.1, delta=0.05, mu=0.7, s=3, nsamples=6, nburn=2, ngap=c.pick(0, 1, 3), verbosity=0, track=list(QUANT))
    c.inp(algo=algo, setting=setting, data=data, sig_d=sig, params=p.__dict__)
    o = getattr(MC, algo)(fo, pri, p)
    do_run(o, None)
    w = 1 / np.broadcast_to(sig, n) ** 2
    for k in range(6):
        x = o.chain[k]
        same("preds", o.preds[k], x)
        L2 = np.sum(w * (x - data) ** 2)
        same("L2", o.L2s[k], L2)
        same("prior", o.priors[k], np.abs(x).sum())
        same("logPi", o.logPi[k], -0.7 * np.abs(x).sum() - L2)


@oracle("C02", 80, 700)
def schedule(c):
    """up to 8 saved rows, burn-in and thinning up to 5; every verbosity; first and second runs"""
    algo = ALGOS[c.round % 3]
    env, pri, p, x0 = setup(c, algo)
    tune = bool(c.rng.random() < 0.7)
    o = build(algo, env, pri, p, tune)
    for rep in range(1 + (c.round // 3) % 3):
        if rep:
            x0 = c.vec(env.nparams, "c" if p.complex else "f", False)
            x0 /= max(1.0, np.abs(x0).max())
            c.inp(**{f"x0_run{rep + 1}": x0})
        d0 = getattr(o, "delta")
        nrm, uni = do_run(o, x0)
        N, per = ntrans(p), env.nparams * (2 if p.complex else 1)
        if len(nrm) > N * per:
            raise Fail(f"{len(nrm) / per:g} transitions performed, expected {N}")
        def what(xs, acc, ds):
            want = rows_of(p, xs)
            if hasattr(o, "chain"):
                same("chain", o.chain, want, rtol=1e-6)
            if hasattr(o, "priors"):
                same("priors", o.priors, np.array([pri.prior(x) for x in want]), rtol=1e-6)
            if hasattr(o, "preds"):
                same("preds", o.preds, np.array([env.f(x) for x in want]), rtol=1e-6)
            if hasattr(o, "L2s"):
                same("L2s", o.L2s, np.array([logpi(env, pri, p.mu, x)[1].real for x in want]), rtol=1e-6)
            if hasattr(o, "logPi"):
                same("logPi", o.logPi, np.array([logpi(env, pri, p.mu, x)[0].real for x in want]), rtol=1e-6)
        compare_rows(algo, env, pri, p, o, x0, nrm, uni, tune, d0, what)


@oracle("C02", 12, 40)
def independent_of_output(c):
    """the saved states do not depend on verbosity and tracking (same random stream)"""
    algo = ALGOS[c.round % 3]
    env, pri, p, x0 = setup(c, algo, verbosity=0, track=["chain"])
    ref = None
    for v, tr in ((0, ["chain"]), (1, ["chain"]), (2, list(QUANT)), (3, ["chain", "L2"]), (7, ["chain", "predictions"]), (1, ["chain", "prior", "logposterior"])):
        p.verbosity, p.track = v, tr
        o = build(algo, env, pri, p)
        np.random.seed(c.round)
        do_run(o, x0)
        if ref is None:
            ref = o.chain.copy()
        elif not np.allclose(ref, o.chain, equal_nan=True):
            raise Fail(f"verbosity {v}, tracking {tr} changed the chain")


@oracle("C03", 60, 500)
def myula_step(c):
    """chain_step with the recorded noise"""
    algo = c.pick("MYULA", "PxMALA")
    env, pri, p, x0 = setup(c, algo)
    o = build(algo, env, pri, p)
    n = env.nparams
    k = "c" if p.complex else "f"
    x, px, g = c.vec(n, k), c.vec(n, k), c.vec(n, k)
    c.inp(X=x, proxf=px, gradg=g)
    fr = Frozen(x=x, px=px, g=g)
    prev = None
    for _ in range(2):
        REC.clear()
        y = o.chain_step(x, px, g)
        fr.check()
        w = REC.flat("normals")
        d, lm = p.delta, p.lmda
        base = (1 - d / lm) * x + d / lm * px - d * g
        if len(w) == n * (2 if p.complex else 1):
            cands = [w] if not p.complex else [w[:n] + 1j * w[n:], w[n:] + 1j * w[:n]]
            err = None
            for cw in cands:
                try:
                    same("step", y, base + np.sqrt(2 * d) * cw)
                    err = None
                    break
                except Fail as e:
                    err = err or e
            if err:
                raise err
        elif len(w) < n * (2 if p.complex else 1) and len(w):
            raise Fail(f"{len(w)} normal variates for {n} parameters")
        z = (y - base) / np.sqrt(2 * d)
        if prev is not None and np.allclose(prev, z):
            raise Fail("the same noise is used twice")
        prev = z


@oracle("C03", 4, 12)
def noise_law(c):
    """4000 parameters: the noise of one step is standard normal, independent real and imaginary parts"""
    n = 4000
    cplx = bool(c.round % 2)
    class F:
        data, invcov, nparams = np.zeros(1), sparse.identity(1), n
    o = MC.MYULA(F(), None, MC.PxMCMCParams(complex=cplx, nsamples=1, lmda=1.0, delta=0.5, track=[]))
    z = np.zeros(n, dtype=complex if cplx else float)
    w = o.chain_step(z, z, z)
    c.inp(complex=cplx)
    check_law(w, stats.norm(0, 1), cplx, "noise")
    if not cplx and np.iscomplexobj(w):
        raise Fail("complex noise for real parameters")


def check_law(w, law, cplx, nm):
    parts = [w.real, w.imag] if cplx else [np.real(w)]
    for q in parts:
        if stats.kstest(q, law.cdf).pvalue < 1e-8:
            raise Fail(f"{nm}: not distributed as it should be (mean {q.mean():.3f}, variance {q.var():.3f})")
        if abs(np.corrcoef(q[:-1], q[1:])[0, 1]) > 0.15:
            raise Fail(f"{nm}: entries are not independent")
    if cplx and abs(np.corrcoef(parts[0], parts[1])[0, 1]) > 0.12:
        raise Fail(f"{nm}: real and imaginary parts are not independent")


@oracle("C03", 40, 300)
def myula_run(c):
    """every transition of short runs"""
    env, pri, p, x0 = setup(c, "MYULA", ngap=1, nburn=0)
    p.track = ["chain"]
    o = build("MYULA", env, pri, p)
    nrm, uni = do_run(o, x0)
    compare_rows("MYULA", env, pri, p, o, x0, nrm, uni, True, None, lambda xs, a, d: same("chain", o.chain, rows_of(p, xs), rtol=1e-6))
    same("start", env.calls[0], x0)


@oracle("C03", 6, 12)
def start_law(c):
    """2000 parameters: a fresh Laplace start"""
    n = 2000
    cplx = bool(c.round % 2)
    algo = ALGOS[c.round % 3]
    c.inp(algo=algo, complex=cplx)
    class F:
        data, invcov, nparams = np.zeros(n), sparse.identity(n), n
        calls = []
        def forward(self, x):
            self.calls.append(np.array(x))
            return x
        def calc_gradg(self, p):
            return p
    class Q:
        def proxf(self, x):
            return x
        def prior(self, x):
            return 0.0
    f = F()
    f.calls = []
    o = build(algo, f, Q(), MC.PxMCMCParams(complex=cplx, nsamples=1, nburn=0, lmda=1.0, delta=0.5, track=[], verbosity=0))
    st = []
    for _ in range(2):
        k = len(f.calls)
        do_run(o, None)
        st.append(f.calls[k])
    for s in st:
        if s.shape != (n,):
            raise Fail(f"start of shape {s.shape}")
        check_law(s, stats.laplace(0, 1), cplx, "start")
        if not cplx and np.iscomplexobj(s):
            raise Fail("complex start for real parameters")
    if np.allclose(st[0], st[1]):
        raise Fail("the second run starts from the same draw")


@oracle("C04", 60, 500)
def mala_run(c):
    """every transition of short runs; step sizes from lambda/100 to lambda; first and second runs"""
    env, pri, p, x0 = setup(c, "PxMALA", ngap=c.pick(0, 1, 1, 2), nburn=c.pick(0, 0, 2))
    p.nsamples = int(c.rng.integers(1, 12))
    p.track = list(QUANT) if c.rng.random() < 0.5 else ["chain"]
    tune = bool(c.rng.random() < 0.6)
    c.inp(tune_delta=tune, nsamples=p.nsamples)
    o = build("PxMALA", env, pri, p, tune)
    for rep in range(1 + c.round % 2):
        d0 = o.delta
        nrm, uni = do_run(o, x0)
        def what(xs, acc, ds):
            if [int(a) for a in o.acceptance_trace] != acc:
                raise Fail(f"acceptance record {list(o.acceptance_trace)}, expected {acc}")
            want = rows_of(p, xs)
            same("chain", o.chain, want, rtol=1e-6)
            if hasattr(o, "logPi"):
                same("logPi", o.logPi, np.array([logpi(env, pri, p.mu, x)[0].real for x in want]), rtol=1e-6)
                same("preds", o.preds, np.array([env.f(x) for x in want]), rtol=1e-6)
        if len(uni) > ntrans(p):
            raise Skip
        compare_rows("PxMALA", env, pri, p, o, x0, nrm, uni, tune, d0, what)
        if len(o.acceptance_trace) != ntrans(p) or any(a not in (0, 1) for a in o.acceptance_trace):
            raise Fail("acceptance record")


@oracle("C04", 40, 400)
def logtransition(c):
    """calc_logtransition on arbitrary pairs, up to an additive constant that may depend on the step size"""
    env, pri, p, x0 = setup(c, "PxMALA")
    o = build("PxMALA", env, pri, p)
    o.delta = float(10 ** c.rng.uniform(-6, 1))
    n, k = env.nparams, "c" if p.complex else "f"
    pairs = []
    for _ in range(3):
        x1, x2, px, g = (c.vec(n, k) for _ in range(4))
        fr = Frozen(a=x1, b=x2, c=px, d=g)
        got = o.calc_logtransition(x1, x2, px, g)
        fr.check()
        mean = x1 + o.delta * (-(x1 - px) / p.lmda - g)
        pairs.append((got, -np.sum(np.abs(x2 - mean) ** 2) / (4 * o.delta)))
    c.inp(delta=o.delta)
    for g, w in pairs[1:]:
        same("log q differences", g - pairs[0][0], w - pairs[0][1], rtol=1e-6, atol=1e-7 * (abs(w) + abs(pairs[0][1])))


@oracle("C05", 60, 500)
def adaptation(c):
    """up to 60 transitions, step sizes far inside and outside the interval; first and second runs"""
    tune = bool(c.rng.random() < 0.8)
    env, pri, p, x0 = setup(c, "PxMALA", nburn=int(c.rng.integers(0, 30)), ngap=int(c.rng.integers(0, 4)))
    p.delta = float(p.lmda * 10 ** c.rng.uniform(-9, 1)) if c.rng.random() < 0.5 else float(p.lmda * c.pick(0.5, 1e-8, 0.3, 2.0, 1e-9))
    p.track = []
    c.inp(tune_delta=tune, delta=p.delta, lmda=p.lmda)
    fr = Frozen(params=p.__dict__)
    o = build("PxMALA", env, pri, p, tune)
    fr.check()
    for rep in range(1 + c.round % 2):
        d0 = o.delta
        with np.errstate(all="ignore"):
            do_run(o, x0)
        fr.check(" by the run")
        tr, ac = list(o.deltas_trace), list(o.acceptance_trace)
        N = ntrans(p)
        if len(ac) != N:
            raise Fail(f"{len(ac)} acceptances for {N} transitions")
        if not tune:
            if o.delta != d0 or any(x != d0 for x in tr):
                raise Fail("the step size changed although tuning is off")
            continue
        if len(tr) != N + 1:
            raise Fail(f"step-size record has {len(tr)} entries for {N} transitions")
        same("initial step", tr[0], d0)
        d = d0
        for i in range(N):
            d = min(max(tr[i] * (1 + (ac[i] - 0.5) / (i + 1) ** 0.75), 1e-8 * p.lmda), p.lmda / 2)
            same(f"step after transition {i}", tr[i + 1], d, rtol=1e-9, atol=1e-300)
            if not (1e-8 * p.lmda * (1 - 1e-12) <= tr[i + 1] <= p.lmda / 2 * (1 + 1e-12)):
                raise Fail("step size out of bounds")
        same("final step", o.delta, tr[-1])


@oracle("C05", 4, 20)
def adaptation_long(c):
    """1500 transitions of a one-dimensional chain"""
    class F:
        data, invcov, nparams = np.zeros(1), sparse.identity(1), 1
        def forward(self, x):
            return x
        def calc_gradg(self, q):
            return q * 0
    k = [lambda x: 0.0, lambda x: 1e6 * float(np.abs(x).sum())][c.round % 2]
    class Q:
        def proxf(self, x):
            return x
        prior = staticmethod(k)
    lm = c.pick(1.0, 1e-3, 5.0)
    p = MC.PxMCMCParams(lmda=lm, delta=lm * c.pick(0.4, 1e-7, 0.01), nsamples=1, nburn=1500, ngap=0, track=[], verbosity=0)
    o = MC.PxMALA(F(), Q(), p)
    c.inp(lmda=lm, delta=p.delta)
    do_run(o, np.zeros(1))
    tr, ac = o.deltas_trace, o.acceptance_trace
    for i in range(len(ac)):
        d = min(max(tr[i] * (1 + (ac[i] - 0.5) / (i + 1) ** 0.75), 1e-8 * lm), lm / 2)
        same(f"step after transition {i}", tr[i + 1], d, rtol=1e-9, atol=1e-300)


@oracle("C06", 60, 500)
def skrock_step(c):
    """up to 7 stages, up to 5 parameters"""
    s = c.size(1 + c.round % 7, 9)
    env, pri, p, x0 = setup(c, "SKROCK", s=s, delta=float(10 ** c.rng.uniform(-3, -0.5)), lmda=float(10 ** c.rng.uniform(-0.5, 1)))
    o = build("SKROCK", env, pri, p)
    n = env.nparams
    x = c.vec(n, "c" if p.complex else "f")
    c.inp(X=x)
    fr = Frozen(X=x)
    for _ in range(2):
        REC.clear()
        y = o.chain_step(x)
        fr.check()
        w = REC.flat("normals")
        per = n * (2 if p.complex else 1)
        if len(w) > per:
            raise Skip
        if len(w) < per:
            raise Fail(f"{len(w)} normal variates drawn for one transition, which needs {per} fresh ones")
        err = None
        for z in ([w] if not p.complex else [w[:n] + 1j * w[n:], w[n:] + 1j * w[:n]]):
            try:
                same("step", y, skrock(env, pri, p, x, z), rtol=1e-6)
                err = None
                break
            except Fail as e:
                err = err or e
        if err:
            raise err


@oracle("C06", 30, 200)
def skrock_run(c):
    """every transition of short runs"""
    env, pri, p, x0 = setup(c, "SKROCK", ngap=1, nburn=0, s=int(1 + c.round % 6), delta=float(10 ** c.rng.uniform(-3, -1)), lmda=float(10 ** c.rng.uniform(-0.5, 1)))
    p.track = ["chain"]
    o = build("SKROCK", env, pri, p)
    nrm, uni = do_run(o, x0)
    if len(nrm) > ntrans(p) * env.nparams * (2 if p.complex else 1):
        raise Skip
    compare_rows("SKROCK", env, pri, p, o, x0, nrm, uni, True, None, lambda xs, a, d: same("chain", o.chain, rows_of(p, xs), rtol=1e-5))


@oracle("C23", 60, 400)
def start_points(c):
    """wrong starts are refused, good ones used as they are"""
    algo = ALGOS[c.round % 3]
    env, pri, p, x0 = setup(c, algo)
    p.track = list(QUANT)
    n = env.nparams
    o = build(algo, env, pri, p)
    bad = [([0.0] * n, TypeError), (tuple([0.0] * n), TypeError), (np.zeros((n, 1)), TypeError), (np.zeros((1, n)), TypeError), (np.array(0.0), TypeError), (1.0, TypeError),
           (np.zeros(n + 1), ValueError), (np.zeros(n + 1 + c.round % 7), ValueError), ("start", TypeError), (np.zeros((n, 1, 1)), TypeError), (np.zeros((n, n)), TypeError)]
    if n > 1:
        bad += [(np.zeros(n - 1), ValueError), (np.zeros(1), ValueError)]
    bad += [(np.zeros(0), ValueError)]
    b, t = bad[(c.round // 3) % len(bad)]
    c.inp(bad=b)
    with quiet():
        raises("start point", t, o.run, b)
    for a in QUANT.values():
        if np.any(getattr(o, a) != 0):
            raise Fail("rows were saved")
    k = c.pick("same", "int", "view", "complex", "real")
    if k == "int":
        x0 = c.vec(n, "i") % 2
    elif k == "view":
        x0 = np.ascontiguousarray(np.stack([x0, x0], 1))[:, 0]
    elif k == "real":
        x0 = x0.real.copy()
    c.inp(start=x0)
    s, fr, pf = env.snap(), Frozen(start=x0), Frozen(params=p.__dict__, T=pri.T, b=pri.b)
    env.calls.clear()
    do_run(o, x0)
    same("start", env.calls[0], x0)
    s.check(" by the run")
    fr.check(" by the run")
    pf.check(" by the run")
    if k != "complex":
        fr2 = Frozen(start=x0)
        do_run(o, x0)
        fr2.check(" by the second run")
        s.check(" by the second run")


@oracle("C23", 30, 100)
def parameters_copied(c):
    """every parameter under its own name, for arbitrary values"""
    algo = ALGOS[c.round % 3]
    env, pri, p, x0 = setup(c, algo)
    vals = dict(lmda=0.123, delta=0.0456, s=3, mu=1.75, nsamples=4, nburn=7, ngap=2, complex=p.complex, verbosity=9, track=["chain", "prior"])
    vals = {k: v for k, v in vals.items() if c.rng.random() < 0.8}
    q = MC.PxMCMCParams(**vals)
    for k, v in vals.items():
        if getattr(q, k) != v:
            raise Fail(f"PxMCMCParams.{k} is {getattr(q, k)!r}, given {v!r}")
    if q.nsamples > 100:
        q.nsamples = 5
    if c.rng.random() < 0.5:
        q.special = 42
    fr = Frozen(params=q.__dict__)
    o = build(algo, env, pri, q)
    fr.check()
    c.inp(params=q.__dict__)
    for k, v in q.__dict__.items():
        if getattr(o, k, None) is not v and getattr(o, k, None) != v:
            raise Fail(f"sampler.{k} is {getattr(o, k, None)!r}, parameter {v!r}")
    if o.forward is not env or o.prior is not pri:
        raise Fail("operator or prior replaced")
