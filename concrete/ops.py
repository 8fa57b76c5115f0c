"""Oracles for forward operators, measurements and transforms: C07 C08 C09 C10 C11 C16."""
import numpy as np
import pys2let
import pyssht
from scipy import sparse
from concrete.lib import oracle, Fail, Skip, same, raises, Frozen

import pxmcmc.forward as FW
import pxmcmc.measurements as ME
import pxmcmc.transforms as TR


class Lin:
    """environment operators given by matrices"""

    def __init__(self, F, A=None, I=None, IA=None):
        self.F, self.A, self.I, self.IA = F, A, I, IA

    def forward(self, x):
        return self.F @ x

    def adjoint(self, y):
        return self.A @ y

    def inverse(self, x):
        return self.I @ x

    def inverse_adjoint(self, y):
        return self.IA @ y

    def forward_adjoint(self, y):
        return self.A @ y


@oracle("C07", 80, 800)
def linear(c):
    """dimensions up to 7; dense measurement, transform and covariance"""
    m, npx, k = c.n(1, 7), c.n(1, 7), c.n(1, 7)
    kind = c.pick("f", "c")
    M, W = c.vec((m, npx), kind, False), c.vec((npx, k), kind, False)
    data = c.vec(m, kind)
    setting = c.pick("analysis", "synthesis")
    sk = c.pick("scalar", "vector", "matrix")
    if sk == "scalar":
        sig = float(c.rng.uniform(0.2, 3))
        ic = np.eye(m) / sig ** 2
    elif sk == "vector":
        sig = c.rng.uniform(0.2, 3, m)
        ic = np.diag(1 / sig ** 2)
    else:
        q = c.rng.normal(size=(m, m))
        sig = q @ q.T + np.eye(m)
        ic = np.linalg.inv(sig)
    meas, tr = Lin(M, M.conj().T), Lin(None, None, W, W.conj().T)
    o = FW.ForwardOperator(data, sig, setting, tr, meas, nparams=npx if setting == "analysis" else k)
    if kind == "c" and sk != "matrix":
        ic = o.invcov.toarray()                # the listed finding of C08
    x = c.vec(npx if setting == "analysis" else k, kind)
    c.inp(setting=setting, X=x, data=data, sig_d=sig, M=M, W=W)
    fr = Frozen(X=x, data=data, sig=sig, M=M, W=W, invcov=o.invcov)
    d0 = Frozen(**{a: b for a, b in o.__dict__.items() if isinstance(b, (np.ndarray, int, str))})
    keys = set(o.__dict__)
    for _ in range(2):
        pr = o.forward(x)
        want = M @ x if setting == "analysis" else M @ (W @ x)
        same("forward", pr, want)
        p = c.vec(m, kind)
        fp = Frozen(p=p)
        g = M.conj().T @ (ic @ (p - data))
        same("gradient", o.calc_gradg(p), g if setting == "analysis" else W.conj().T @ g)
        same("gradient, second call", o.calc_gradg(p), g if setting == "analysis" else W.conj().T @ g)
        fp.check()
        fr.check()
    d0.check()
    if set(o.__dict__) != keys:
        raise Fail("the operator gained or lost attributes")


@oracle("C07", 10, 10)
def settings(c):
    """settings other than the two are refused"""
    s = ["Analysis", "synth", "", None, 1, "foo", "SYNTHESIS", "analysis ", "a", "anal"][c.round % 10]
    c.inp(setting=s)
    raises("setting", Exception, FW.ForwardOperator, np.zeros(3), 1.0, s, None, None, 3)


def cfg(c, lmax=10, dirs=(1, 2, 3), spins=(0,)):
    L, B, J = c.size(int(c.rng.integers(3, lmax)), 24, 3), c.pick(2, 2.0, 1.5, 3), int(c.rng.integers(0, 2))
    if pys2let.pys2let_j_max(float(B), L, J) < J:
        raise Skip
    return L, B, J, min(c.pick(*dirs), L), c.pick(*spins)


@oracle("C07", 14, 60)
def ready_made(c):
    """L up to 9"""
    L, B, J, N, spin = cfg(c, 10)
    npx = L * (2 * L - 1)
    which = c.pick("wav", "path")
    setting = c.pick("analysis", "synthesis")
    kw = dict(dirs=N, spin=spin)
    if c.round % 3 == 0:               # the documented defaults: axisymmetric, spin 0
        N, spin, kw = 1, 0, {}
    tr = TR.SphericalWaveletTransform(L, B, J, dirs=N, spin=spin)
    if which == "wav":
        data = c.vec(npx, "f", False)
        M = sparse.eye(npx)
        o = FW.SphericalWaveletTransformOperator(data, 0.5, setting, L, B, J, **kw)
    else:
        nd = c.n(1, 9)
        M = sparse.csr_matrix(c.vec((nd, npx), "f"))
        data = c.vec(nd, "f", False)
        o = FW.PathIntegralOperator(M, data, 0.5, setting, L, B, J, **kw)
    c.inp(which=which, setting=setting, L=L, B=B, J_min=J, dirs=N, spin=spin, defaults=not kw)
    n = npx if setting == "analysis" else tr.ncoefs
    if o.nparams != n:
        raise Fail(f"nparams {o.nparams}, expected {n}")
    x = c.vec(n, c.pick("f", "c"), False)
    fr = Frozen(X=x, data=data, M=M)
    inv = lambda v: pys2let.synthesis_wav2px(v[tr.nscal:].astype(complex), v[:tr.nscal].astype(complex), B, L, J, N, spin, 0)  # noqa
    same("forward", o.forward(x), M @ (x if setting == "analysis" else inv(x)))
    p = c.vec(len(data), "f", False)
    g = M.conj().T @ ((p - data) / 0.25)
    if setting == "synthesis":
        w, s = pys2let.synthesis_adjoint_px2wav(g.astype(complex), B, L, J, N, spin, 0)
        g = np.concatenate([s, w])
    same("gradient", o.calc_gradg(p), g)
    fr.check()


@oracle("C08", 80, 800)
def invcov(c):
    """up to 8 data"""
    m = c.n(1, 8)
    dk = c.pick("f", "c", "f")
    data = c.vec(m, dk)
    k = c.pick("float", "int", "npfloat", "vector", "ivector", "matrix", "cscalar", "cvector")
    v = c.rng.uniform(0.2, 3, m)
    if k == "float":
        sig = float(v[0])
    elif k == "int":
        sig = int(c.rng.integers(1, 5))
    elif k == "npfloat":
        sig = np.float64(v[0])
    elif k == "vector":
        sig = v
    elif k == "ivector":
        sig = c.rng.integers(1, 5, m)
    elif k == "cscalar":
        sig = complex(v[0], v[-1])
    elif k == "cvector":
        sig = v + 1j * v[::-1]
    else:
        q = c.vec((m, m), c.pick("f", "c"), False) / 10
        sig = q @ q.conj().T + np.eye(m)
    c.inp(data=data, sig_d=sig)
    fr = Frozen(data=data, sig=sig)
    ic = FW.ForwardOperator(data, sig, "analysis").invcov
    fr.check()
    ic = ic.toarray() if hasattr(ic, "toarray") else np.asarray(ic)
    want = np.linalg.inv(sig) if k == "matrix" else np.diag(1 / np.broadcast_to(np.asarray(sig) * 1.0, (m,)) ** 2)
    if dk == "c" and k != "matrix" and not np.iscomplexobj(sig):
        c.known = True
        if ic.shape != want.shape:
            raise Fail("shape")
        same("modulus of the weights (complex data)", np.abs(ic), want)
        if np.any(np.diag(ic).real <= 0):
            raise Fail("weights with non-positive real part")
        dg = np.diag(ic)
        if np.any(np.minimum(abs(dg.imag), abs(dg.imag + dg.real)) > 1e-9 * abs(dg)):
            raise Fail("weights with another phase than 0 or the recorded -pi/4")
        return
    same("weights", ic, want)


@oracle("C08", 24, 60)
def invcov_refused(c):
    """wrong lengths and non-square matrices"""
    m = c.n(1, 6)
    data = c.vec(m, c.pick("f", "c"))
    a, b = int(c.rng.integers(1, 7)), int(c.rng.integers(1, 7))
    if c.round % 2:
        if a == b:
            b += 1
        sig = np.ones((a, b)) + c.rng.random((a, b))
    else:
        if a == m:
            a += 1
        sig = np.ones(a)
    c.inp(ndata=m, sig_d=sig)
    raises("sig_d", Exception, FW.ForwardOperator, data, sig, "analysis")


@oracle("C09", 60, 600)
def path(c):
    """matrices up to 9x9, several sparse formats"""
    m, n = c.n(1, 9), c.n(1, 9)
    kind = c.pick("f", "c")
    A = c.vec((m, n), kind)
    A[c.rng.random((m, n)) < 0.4] = 0
    S = c.pick(sparse.csr_matrix, sparse.csc_matrix, sparse.coo_matrix, sparse.lil_matrix, np.asmatrix)(A)
    c.inp(A=A, fmt=type(S).__name__)
    fr = Frozen(S=S)
    o = ME.PathIntegral(S)
    if (o.ndata, o.npix) != (m, n):
        raise Fail("ndata/npix")
    dense = isinstance(S, np.matrix)
    x, y = c.vec(n, c.pick("f", "c")), c.vec(m, c.pick("f", "c"))
    fx = Frozen(x=x, y=y)
    for _ in range(2):
        f, g = np.asarray(o.forward(x)).ravel(), np.asarray(o.adjoint(y)).ravel()
        same("forward", f, A @ x)
        same("adjoint", g, A.conj().T @ y)
    same("dot product", np.vdot(y, f), np.vdot(g, x), atol=1e-8 * (1 + np.abs(A).sum() * np.abs(x).sum() * np.abs(y).sum()))
    fr.check()
    fx.check()
    for d in (-1, 1):
        if n + d > 0:
            raises("image of the wrong length", Exception, o.forward, np.ones(n + d))
        if m + d > 0:
            raises("observations of the wrong length", Exception, o.adjoint, np.ones(m + d))


@oracle("C09", 40, 300)
def identity(c):
    """up to 9 data and pixels"""
    m, n = c.n(1, 9), c.n(1, 9)
    o = ME.Identity(m, n)
    x, y = c.vec(n, c.pick("f", "c")), c.vec(m, c.pick("f", "c"))
    c.inp(ndata=m, npix=n, X=x, Y=y)
    fr = Frozen(x=x, y=y)
    def lead(v, k):
        r = np.zeros(k, dtype=v.dtype)
        r[:min(k, len(v))] = v[:k]
        return r
    for _ in range(2):
        same("forward", o.forward(x), lead(x, m))
        same("adjoint", o.adjoint(y), lead(y, n))
    fr.check()
    raises("image of the wrong length", Exception, o.forward, np.ones(n + 1))
    raises("observations of the wrong length", Exception, o.adjoint, np.ones(m + 1))
    if n > 1:
        raises("image too short", Exception, o.forward, np.ones(n - 1))


def kern(L):
    k = np.zeros(L * L)
    for l in range(2, L):
        k[l * l:(l + 1) ** 2] = -np.sqrt((l + 2) * (l - 1) / ((l + 1) * l))
    return k


@oracle("C10", 24, 60)
def wlh(c):
    """L up to 60"""
    L = c.size(c.round + 1, 130)
    o = ME.WeakLensingHarmonic(L)
    x, y = c.vec(L * L, c.pick("c", "f")), c.vec(L * L, "c")
    c.inp(L=L, klm=x)
    fr = Frozen(x=x, y=y)
    k = kern(L)
    for _ in range(2):
        same("forward", o.forward(x), k * x)
        same("adjoint", o.adjoint(y), k * y)
        e = np.zeros(L * L, dtype=x.dtype)
        e[4:] = x[4:]
        same("Kaiser-Squires of forward", o.sks_estimate(o.forward(x)), e)
        e = np.zeros(L * L, dtype=complex)
        e[4:] = y[4:] / k[4:]
        same("Kaiser-Squires", o.sks_estimate(y), e)
        fr.check()
    raises("bandlimit", ValueError, ME.WeakLensingHarmonic, -(c.round % 3))


@oracle("C11", 24, 80)
def wl(c):
    """L up to 9"""
    L = c.size(c.round % 9 + 1, 40)
    sh = (L, 2 * L - 1)
    mk = c.pick("none", "bool", "int", "float", "empty", "full")
    mask = None if mk == "none" else c.rng.random(sh) < {"empty": 0, "full": 2}.get(mk, 0.6)
    if mk == "int":
        mask = mask.astype(int) * int(c.rng.integers(1, 3))
    if mk == "float":
        mask = mask.astype(float)
    ngal = None if c.rng.random() < 0.4 else (c.rng.integers(0, 30, sh) if c.rng.random() < 0.5 else c.rng.random(sh) * 20)
    c.inp(L=L, mask=mask, ngal=ngal)
    fr = Frozen(mask=mask, ngal=ngal)
    o = ME.WeakLensing(L, mask, ngal)
    fr.check()
    M = np.ones(sh, bool) if mask is None else np.asarray(mask).astype(bool)
    w = np.ones(M.sum()) if ngal is None else np.sqrt(2 * np.asarray(ngal)[M] / 0.37 ** 2)
    same("inv_cov", o.inv_cov, w)
    kap = c.vec(L * (2 * L - 1), "c", False) if c.rng.random() < 0.7 else c.vec(sh, "c", False)
    fk = Frozen(kappa=kap)
    def F(x):
        klm = pyssht.forward(x.reshape(sh).astype(complex), L, Spin=0)
        return pyssht.inverse(kern(L) * klm, L, Spin=2)[M] * w
    y = c.vec(int(M.sum()), "c", False)
    fy = Frozen(y=y)
    def A(g):
        f = np.zeros(sh, complex)
        f[M] = g * w
        return pyssht.forward_adjoint(kern(L) * pyssht.inverse_adjoint(f, L, Spin=2), L, Spin=0).flatten()
    for _ in range(2):
        g, b = o.forward(kap), o.adjoint(y)
        same("forward", g, F(kap), atol=1e-9 * (1 + np.abs(kap).max()))
        same("adjoint", b, A(y), atol=1e-9 * (1 + np.abs(y).max(initial=0) * (1 + w.max(initial=0))))
    same("dot product", np.vdot(y, g), np.vdot(b, kap.ravel()), rtol=1e-6, atol=1e-6 * (1 + np.abs(g).sum() * np.abs(y).sum()))
    fr.check()
    fk.check()
    fy.check()
    bad = np.ones((L + 1, 2 * L - 1)) if c.round % 2 else np.ones((L, 2 * L))
    raises("mask of the wrong shape", ValueError, ME.WeakLensing, L, bad)
    raises("field of the wrong shape", ValueError, o.mask_forward, bad)
    raises("ngal of the wrong shape", ValueError, ME.WeakLensing, L, None, bad)


@oracle("C16", 30, 150)
def wavelet(c):
    """L up to 9, N up to 3, spin 0 or 2"""
    L, B, J, N, spin = cfg(c, 10, spins=(0, 0, 2))
    harm = bool(c.round % 3 == 2)
    kw = dict(dirs=N, spin=spin, harmonic=harm)
    if c.round % 5 == 0:
        N, spin, harm, kw = 1, 0, False, {}
    o = TR.SphericalWaveletTransform(L, B, J, **kw)
    c.inp(L=L, B=B, J_min=J, **kw)
    n = L * L if harm else L * (2 * L - 1)
    P = (B, L, J, N, spin, 0)
    sfx = ("lm2lmn", "lmn2lm", "lmn2lm", "lm2lmn") if harm else ("px2wav", "wav2px", "wav2px", "px2wav")
    an, sy, ana, sya = [getattr(pys2let, a + b) for a, b in zip(("analysis_", "synthesis_", "analysis_adjoint_", "synthesis_adjoint_"), sfx)]
    if harm:
        f = c.vec(n, "c", False)
        f[:spin * spin] = 0
    else:
        flm = c.vec(L * L, "c", False)
        flm[:spin * spin] = 0
        f = pyssht.inverse(flm, L, Spin=spin).flatten()
    fr = Frozen(f=f)
    w, s = an(f, *P)
    nw, ns = len(w), len(s)
    if (o.nwav, o.nscal, o.ncoefs) != (nw, ns, nw + ns):
        raise Fail(f"counts {(o.nwav, o.nscal, o.ncoefs)}, expected {(nw, ns, nw + ns)}")
    for _ in range(2):
        same("forward", o.forward(f), np.concatenate([s, w]))
        wa, sa = sya(f, *P)
        same("inverse adjoint", o.inverse_adjoint(f), np.concatenate([sa, wa]))
        fr.check()
        x = c.vec(nw + ns, c.pick("f", "c"), False)
        fx = Frozen(x=x)
        xc = x.astype(complex)
        same("inverse", o.inverse(x), sy(xc[ns:].copy(), xc[:ns].copy(), *P))
        same("forward adjoint", o.forward_adjoint(x), ana(xc[ns:].copy(), xc[:ns].copy(), *P))
        fx.check()
    same("inverse(forward(f))", o.inverse(o.forward(f)), f, rtol=1e-5, atol=1e-6 * (1 + np.abs(f).max()))
    r = np.real(f).copy()
    same("forward of a real image", o.forward(r), np.concatenate(an(r.astype(complex), *P)[::-1]))
    g = c.vec(n, "c", False)
    if not harm:
        same("<inv x, g> = <x, inv* g>", np.vdot(g, o.inverse(x)), np.vdot(o.inverse_adjoint(g), x), rtol=1e-5, atol=1e-6 * (1 + np.abs(g).sum() * np.abs(x).max()))


@oracle("C16", 20, 60)
def identity_tr(c):
    """vectors up to 9"""
    o = TR.IdentityTransform()
    x = c.vec(c.n(1, 9), c.pick("f", "c", "i"))
    c.inp(X=x)
    fr = Frozen(x=x)
    for f in (o.forward, o.inverse, o.forward_adjoint, o.inverse_adjoint):
        same(f.__name__, f(x), x)
        fr.check()
