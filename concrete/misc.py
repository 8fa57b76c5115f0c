"""Oracles for the utilities, uncertainty and saving: C12 C13 C14 C15 C17 C18 C19 C20 C21 C22 C24 C25 C26."""
import os
import shutil
import tempfile
import numpy as np
import pys2let
import pyssht
from concrete.lib import oracle, Fail, Skip, same, raises, Frozen, quiet

import pxmcmc.utils as U
import pxmcmc.prior as PR
import pxmcmc.uncertainty as UN
import pxmcmc.saving as SV
from pxmcmc.mcmc import PxMCMCParams


def soft_ref(x, T):
    x = np.asarray(x)
    out = np.zeros(x.shape, dtype=complex)
    T = np.broadcast_to(T, x.shape)
    for i in np.ndindex(*x.shape):
        m = abs(complex(x[i]))
        out[i] = 0 if m <= T[i] else x[i] * (1 - T[i] / m)
    return out if np.iscomplexobj(x) else out.real


def thresholds(c, x):
    k = c.pick("scalar", "int", "zero", "tie", "vector", "npscalar", "mixed", "huge")
    n = x.shape[0]
    if k == "scalar":
        return float(c.rng.random() * 3)
    if k == "int":
        return int(c.rng.integers(0, 4))
    if k == "zero":
        return 0.0
    if k == "tie":
        return float(abs(x[c.rng.integers(n)])) if n else 1.0
    if k == "npscalar":
        return np.float64(c.rng.random())
    if k == "huge":
        return 1e9
    t = np.abs(c.rng.normal(size=n))
    if k == "mixed" and n:
        t[c.rng.random(n) < 0.3] = 0
        i = c.rng.integers(n)
        t[i] = abs(x[i])
    return t


@oracle("C12", 120, 2000)
def soft(c):
    """vectors up to 40 entries, real/complex/integer, zeros and ties included"""
    x = c.vec(c.n(0 if c.round else 1, 40), c.pick("f", "c", "i"))
    T = thresholds(c, x)
    c.inp(X=x, T=T)
    fr = Frozen(X=x, T=T)
    want = soft_ref(x, T)
    same("soft(X, T)", U.soft(x, T), want)
    fr.check()
    same("soft(X, T), second call", U.soft(x, T), want)
    if c.round % 5 == 0:
        same("soft(X) with the default threshold", U.soft(x), soft_ref(x, 0.1))
        fr.check()
    g = soft_ref(x, T)
    F = lambda u: T * np.abs(u) + np.abs(u - x) ** 2 / 2  # noqa
    for _ in range(3):
        u = g + c.vec(x.shape[0], "c" if np.iscomplexobj(x) else "f") * 0.1
        if np.any(F(u) < F(U.soft(x, T)) - 1e-9 * (1 + np.abs(F(u)))):
            raise Fail("soft(X, T) is not the minimiser of T|u| + |u-x|^2/2")


@oracle("C13", 60, 800)
def l1prior(c):
    """dimensions up to 8, random dense transforms"""
    n, k = c.n(1, 8), c.n(1, 8)
    kind = c.pick("f", "c")
    A, Bm = c.vec((n, k), kind, False), c.vec((k, n), kind, False)
    setting = c.pick("analysis", "synthesis")
    x = c.vec(n, kind)
    dimT = k if setting == "analysis" else n
    T = c.pick(float(c.rng.random()), np.abs(c.rng.normal(size=dimT)), 0.0, 1)
    fwd, adj = (lambda v: A @ v), (lambda v: Bm @ v)
    o = PR.L1(setting, fwd, adj, T)
    c.inp(setting=setting, X=x, T=T, fwd=A, adj=Bm)
    fr = Frozen(X=x, T=T, A=A, B=Bm)
    d0 = Frozen(**{k2: v for k2, v in o.__dict__.items()})
    for _ in range(2):
        if setting == "synthesis":
            same("prior", o.prior(x), np.abs(x).sum())
            same("prox", o.proxf(x), soft_ref(x, T))
        else:
            a = Bm @ x
            same("prior", o.prior(x), np.abs(a).sum())
            same("prox", o.proxf(x), x + A @ (soft_ref(a, T) - a))
        fr.check()
    d0.check()
    if Frozen(**o.__dict__).v != d0.v:
        raise Fail("the prior object was modified")


@oracle("C13", 12, 12)
def l1setting(c):
    """settings other than the two are refused"""
    s = ["Analysis", "SYNTHESIS", "", "foo", None, 1, "analysis ", "synth", "anal", "forward", "analysissynthesis", "s"][c.round % 12]
    c.inp(setting=s)
    raises("setting", Exception, PR.L1, s, None, None, 1.0)


@oracle("C15", 80, 800)
def packing(c):
    """up to 12 entries per scale, up to 6 scales"""
    kind = c.pick("f", "c")
    ns, nw, J, v = c.n(1, 12), c.n(1, 12), c.n(1, 6), c.n(1, 12)
    s, w = c.vec(ns, kind, False), c.vec(nw, kind, False)
    c.inp(scal=s, wav=w, J=J, v=v)
    fr = Frozen(s=s, w=w)
    m = U.flatten_mlm(w, s)
    same("flatten_mlm", m, np.array(list(s) + list(w)))
    w2, s2 = U.expand_mlm(m, nscalcoefs=ns)
    same("expand scaling", s2, s)
    same("expand wavelets", w2, w)
    fr.check()
    s, w = c.vec(v, kind, False), c.vec((v, J), kind, False)
    fr = Frozen(s=s, w=w)
    m = U.flatten_mlm(w, s)
    want = list(s)
    for j in range(J):
        want += list(w[:, j])
    same("flatten_mlm of a table", m, np.array(want))
    fm = Frozen(m=m)
    w2, s2 = U.expand_mlm(m, nscales=J)
    same("expand table scaling", s2, s)
    same("expand table", w2, w)
    w3, s3 = U.expand_mlm(m, nscales=J, flatten_wavs=True)
    same("expand flat scaling", s3, s)
    same("expand flat", w3, np.array(want[v:]))
    same("pack(unpack), table", U.flatten_mlm(w2, s2), m)
    same("pack(unpack), flat", U.flatten_mlm(w3, s3), m)
    fr.check()
    fm.check()
    raises("neither size", Exception, U.expand_mlm, m)
    raises("both sizes", Exception, U.expand_mlm, m, nscales=J, nscalcoefs=v)


@oracle("C17", 60, 400)
def cheb(c):
    """orders 0..14, points in [-3, 3] and integers"""
    x = c.pick(float(c.rng.uniform(-3, 3)), float(c.rng.uniform(-1, 1)), int(c.rng.integers(-3, 4)), 0.0, 1.0, -1.0, np.float64(c.rng.uniform(0, 2)), 1 + 0.05 / 9)
    n = int(c.size(c.round % 15, 24, 0))
    c.inp(x=x, order=n)
    T, V = [1.0, x], [1.0, 2 * x]
    for k in range(2, n + 2):
        T.append(2 * x * T[-1] - T[-2])
        V.append(2 * x * V[-1] - V[-2])
    same("T_n", U.chebyshev1(x, n), T[n])
    same("U_n", U.chebyshev2(x, n), V[n])
    same("T_n'", U.cheb1der(x, n), 0.0 if n == 0 else n * V[n - 1])
    k = -1 - c.round % 4
    for f in (U.chebyshev1, U.chebyshev2, U.cheb1der):
        raises(f"{f.__name__} of order {k}", Exception, f, x, k)


@oracle("C18", 14, 40)
def areas(c):
    """L up to 40"""
    L = c.size(c.round + 1, 130)
    r = c.pick(1, 1.0, float(c.rng.uniform(0.1, 7)), 6371.0)
    c.inp(L=L, r=r)
    a = U.calc_pixel_areas(L, r)
    th = np.array([(2 * t + 1) * np.pi / (2 * L - 1) for t in range(L)])
    n = 2 * L - 1
    want = np.zeros((L, n))
    want[0] = 2 * np.pi * r ** 2 * (1 - np.cos(th[0])) / n
    for t in range(1, L):
        want[t] = r ** 2 * (np.cos(th[t - 1]) - np.cos(th[t])) * 2 * np.pi / n
    same("areas", a, want)
    if np.any(np.asarray(a) < -1e-15):
        raise Fail("negative area")
    same("sum", np.sum(a), 4 * np.pi * r ** 2)
    t1, t2 = sorted(c.rng.uniform(0, np.pi, 2))
    p1, p2 = sorted(c.rng.uniform(0, 2 * np.pi, 2))
    same("pixel_area", U.pixel_area(r, t1, t2, p1, p2), r ** 2 * (np.cos(t1) - np.cos(t2)) * (p2 - p1))
    same("polar_cap_area", U.polar_cap_area(r, t1), 2 * np.pi * r ** 2 * (1 - np.cos(t1)))
    if L < 4:
        same("default radius", U.calc_pixel_areas(L), want / r ** 2)


def mw_ref(L):
    n = 2 * L - 1
    def w(m):
        return 1j * np.pi / 2 if m == 1 else -1j * np.pi / 2 if m == -1 else 2.0 / (1 - m * m) if m % 2 == 0 else 0
    wr = []
    for t in range(n):
        th = np.pi * (2 * t + 1) / n
        wr.append(sum(w(m) * np.exp(-1j * m * th) for m in range(-(L - 1), L)).real * 2 * np.pi / n ** 2)
    q = [wr[t] + (wr[2 * L - 2 - t] if t < L - 1 else 0) for t in range(L)]
    return np.repeat(q, n)


@oracle("C19", 14, 40)
def mw(c):
    """L up to 40"""
    L = c.size(c.round + 1, 130)
    c.inp(L=L)
    w = mw_ref(L)
    same("mw_map_weights", U.mw_map_weights(L), w)
    flm = c.vec(L * L, "c", False)
    f = pyssht.inverse(flm, L).flatten()
    fr = Frozen(f=f)
    same("integral", U.s2_integrate(f, L), flm[0] * np.sqrt(4 * np.pi), rtol=1e-6, atol=1e-6)
    fr.check()
    g = c.vec(L * (2 * L - 1), "f")
    same("integral of a sampled real map", U.s2_integrate(g, L), np.sum(w * g), atol=1e-7 * (1 + np.abs(g).sum()))
    same("weights, second call", U.mw_map_weights(L), w)


@oracle("C20", 40, 300)
def ci(c):
    """chains up to 30x8"""
    m, n = c.n(1, 30), c.n(1, 8)
    ch = c.vec((m, n), "f")
    alpha = c.pick(0.05, 0.1, 0.5, 1.0, 0.0, float(c.rng.random()))
    c.inp(chain=ch, alpha=alpha)
    fr = Frozen(chain=ch)
    def q(col, p):
        s = np.sort(col)
        h = p * (len(s) - 1)
        lo = int(np.floor(h))
        hi = min(lo + 1, len(s) - 1)
        return s[lo] + (h - lo) * (s[hi] - s[lo])
    want = np.array([q(ch[:, i], 1 - alpha / 2) - q(ch[:, i], alpha / 2) for i in range(n)])
    got = UN.credible_interval_range(ch, alpha)
    same("credible_interval_range", got, want)
    if np.any(np.asarray(got) < 0):
        raise Fail("negative range")
    if c.round % 3 == 0:
        same("default level", UN.credible_interval_range(ch), np.array([q(ch[:, i], 0.975) - q(ch[:, i], 0.025) for i in range(n)]))
    fr.check()


def wavcfg(c, lmax=20):
    while True:
        L, B, J = c.size(int(c.rng.integers(3, lmax)), 40, 3) if c.rng.random() < 0.5 else int(c.rng.integers(3, lmax)), c.pick(1.5, 2, 2.0, 2.5, 3, 1.7), int(c.rng.integers(0, 3))
        try:
            if pys2let.pys2let_j_max(float(B), L, J) >= J:
                phi, psi = pys2let.wavelet_tiling(B, L, 1, J, 0)
                if np.any(phi) and all(np.any(psi[:, j]) for j in range(psi.shape[1])):
                    return L, B, J
        except Exception:
            pass


def bls_ref(L, B, J, dirs=1, spin=0):
    phi, psi = pys2let.wavelet_tiling(B, L, dirs, J, spin)
    out = [max(l for l in range(L) if phi[l] != 0) + 1]
    for j in range(psi.shape[1]):
        out.append(max(l for l in range(L) if psi[l * l + l, j] != 0) + 1)
    return out


def slen(L):
    return L * (2 * L - 1)


@oracle("C20", 12, 60)
def ciwav(c):
    """L up to 16"""
    L, B, J = wavcfg(c, 16)
    bl = bls_ref(L, B, J)
    n = sum(slen(b) for b in bl)
    m = c.n(1, 6)
    ch = c.vec((m, n), "f")
    alpha = c.pick(0.05, 0.3, 1.0)
    c.inp(L=L, B=B, J_min=J, alpha=alpha, rows=m)
    fr = Frozen(chain=ch)
    got = UN.wavelet_credible_interval_range(ch, L, B, J, alpha)
    fr.check()
    if len(got) != len(bl):
        raise Fail(f"{len(got)} maps for {len(bl)} scales")
    q = np.quantile(ch, [alpha / 2, 1 - alpha / 2], axis=0)
    d, k = q[1] - q[0], 0
    for b, g in zip(bl, got):
        same("map", g, d[k:k + slen(b)].reshape(b, 2 * b - 1))
        k += slen(b)


@oracle("C21", 60, 600)
def region(c):
    """up to 40 samples"""
    n = c.n(1, 40)
    lp = c.vec(n, "f")
    a = c.pick(0.05, 0.0, 1.0, 0.5, float(c.rng.random()), 0.32)
    c.inp(logpis=lp, alpha=a)
    fr = Frozen(logpis=lp)
    t = UN.credible_region_threshold(lp, a)
    s = np.sort(lp)
    h = a * (n - 1)
    lo = int(np.floor(h))
    hi = min(lo + 1, n - 1)
    same("threshold", t, s[lo] + (h - lo) * (s[hi] - s[lo]))
    fr.check()
    for v in list(lp) + [t, np.nextafter(t, np.inf), np.nextafter(t, -np.inf), t + 1, t - 1]:
        if bool(UN.in_credible_region(v, t)) != (v >= t):
            raise Fail(f"in_credible_region({v!r}, {t!r}) is {UN.in_credible_region(v, t)}")
    if not UN.in_credible_region(lp.max(), t) and a < 1:
        raise Fail("the best sample is outside the region")
    if c.round % 3 == 0:
        same("default level", UN.credible_region_threshold(lp), np.quantile(lp, 0.05))


@oracle("C22", 40, 300)
def saving(c):
    """up to 6 rows and 5 columns; every subset of the recorded quantities"""
    import h5py
    class O:
        pass
    m = O()
    quant = dict(logPi="logposterior", preds="predictions", chain="chain", L2s="L2s", priors="priors", acceptance_trace="acceptances", deltas_trace="deltas")
    kind = c.pick("f", "c")
    n, k = c.n(1, 6), c.n(1, 5)
    for a in quant:
        if c.rng.random() < 0.65:
            v = {"preds": lambda: c.vec((n, k), kind), "chain": lambda: c.vec((n, k), kind), "acceptance_trace": lambda: [int(x) for x in c.rng.integers(0, 2, 9)],
                 "deltas_trace": lambda: [float(x) for x in c.rng.random(10)]}.get(a, lambda: c.vec(n, "f"))()
            setattr(m, a, v)
    m.other = 3
    p = PxMCMCParams(lmda=float(c.rng.random()), delta=float(c.rng.random()), mu=float(c.rng.random()), s=int(c.rng.integers(1, 9)), nsamples=n,
                     nburn=int(c.rng.integers(0, 9)), ngap=int(c.rng.integers(0, 9)), complex=kind == "c", verbosity=int(c.rng.integers(0, 9)), track=["chain", "L2"])
    if c.rng.random() < 0.4:
        p.extra_setting = 7.5
    kw = {} if c.round % 3 == 0 else dict(note="hello", L=5, time=1.25, arr=np.arange(3.0), mu2=2)
    fn = c.pick(None, "out", "a.b", "outputs")
    c.inp(has=sorted(m.__dict__), params=p.__dict__, kwargs=kw, filename=fn)
    d = tempfile.mkdtemp(prefix="pxsave")
    try:
        fr = Frozen(sampler=m.__dict__, params=p.__dict__)
        f = os.path.join(d, (fn or "outputs") + ".hdf5")
        if c.round % 2:
            with h5py.File(f, "w") as h:
                h.create_dataset("stale", data=np.ones(3))
                h.create_dataset("chain", data=np.ones((2, 2)))
                h.attrs["staleattr"] = 1
        args = (m, p, d) if fn is None else (m, p, d, fn)
        SV.save_mcmc(*args, **kw)
        if c.round % 4 == 0:
            SV.save_mcmc(*args, **kw)
        fr.check()
        if sorted(os.listdir(d)) != [os.path.basename(f)]:
            raise Fail(f"files written: {sorted(os.listdir(d))}")
        with h5py.File(f, "r") as h:
            want = {quant[a] for a in m.__dict__ if a in quant}
            if set(h.keys()) != want:
                raise Fail(f"datasets {sorted(h)}, expected {sorted(want)}")
            for a, b in quant.items():
                if hasattr(m, a):
                    g, w = np.asarray(h[b][...]), np.asarray(getattr(m, a))
                    if g.shape != w.shape or not np.array_equal(g, w):
                        raise Fail(f"dataset {b} differs from {a}")
            wa = dict(p.__dict__, **kw)
            if set(h.attrs) != set(wa):
                raise Fail(f"attributes {sorted(h.attrs)}, expected {sorted(wa)}")
            for a, w in wa.items():
                if not np.array_equal(np.asarray(h.attrs[a]), np.asarray(w)):
                    raise Fail(f"attribute {a} is {h.attrs[a]!r}, expected {w!r}")
    finally:
        shutil.rmtree(d)


@oracle("C24", 100, 1500)
def hard(c):
    """up to 30 entries, ties included"""
    n = c.n(1, 30)
    kind = c.pick("f", "c", "i")
    x = c.vec(n, kind)
    T = c.pick(0.0, 1.0, 0.5, 0.25, 0.75, 0.1, float(c.rng.random()), 1, 0)
    if abs(T * n - round(T * n)) < 1e-9 and T * n != round(T * n):
        raise Skip
    c.inp(X=x.copy(), T=T)
    k = int(np.floor(T * n))
    mags = sorted((abs(complex(v)) for v in x), reverse=True)
    want = np.array([v if k > 0 and abs(complex(v)) >= mags[k - 1] else 0 for v in x], dtype=x.dtype)
    got = np.asarray(U.hard(x.copy(), T))
    if got.shape != want.shape or not np.array_equal(got, want):
        raise Fail(f"hard: got {got}, expected {want}")
    if c.round % 5 == 0 and n >= 10:
        k = int(np.floor(0.1 * n))
        if abs(0.1 * n - round(0.1 * n)) > 1e-9:
            want = np.array([v if abs(complex(v)) >= mags[k - 1] else 0 for v in x], dtype=x.dtype)
            if not np.array_equal(np.asarray(U.hard(x.copy())), want):
                raise Fail("hard with the default fraction")


@oracle("C25", 10, 30)
def mask(c):
    """L up to 12"""
    from astropy.coordinates import SkyCoord
    L = c.size(c.round % 12 + 1, 40)
    size = c.pick(20, 10.0, 0, 0.5, 45, 90, 100, float(c.rng.uniform(0, 60)), 5)
    c.inp(L=L, size=size)
    m = U.build_mask(L, size)
    n = 2 * L - 1
    if np.shape(m) != (L, n):
        raise Fail(f"shape {np.shape(m)}")
    th = np.array([np.pi * (2 * t + 1) / n for t in range(L)])
    ph = np.array([2 * np.pi * p / n for p in range(n)])
    tt, pp = np.meshgrid(th, ph, indexing="ij")
    b = SkyCoord((np.degrees(pp) - 180).ravel(), np.clip(np.degrees(tt) - 90, -90, 90).ravel(), unit="deg").transform_to("galactic").b.degree.reshape(L, n)
    for i in range(L):
        lat = abs(90 - np.degrees(th[i]))
        for j in range(n):
            g = abs(b[i, j])
            if abs(lat - size) < 1e-9 or abs(g - size) < 1e-9:
                continue
            want = 0 if lat < size or g < size else 1
            if m[i, j] != want:
                raise Fail(f"mask[{i},{j}] = {m[i, j]}, latitude {lat:.4f}, galactic latitude {g:.4f}, width {size}")
    if c.round == 0:
        if not np.array_equal(U.build_mask(3), U.build_mask(3, 20)):
            raise Fail("default width")


@oracle("C26", 25, 120)
def bandlimits(c):
    """L up to 32"""
    L, B, J = wavcfg(c, 32)
    c.inp(L=L, B=B, J_min=J)
    want = bls_ref(L, B, J)
    got = U._multires_bandlimits(L, B, J)
    same("bandlimits", np.asarray(got), np.array(want))
    w, s = pys2let.analysis_px2wav(np.zeros(slen(L), dtype=complex), B, L, J, 1, 0, 0)
    if slen(want[0]) != s.shape[0] or sum(slen(b) for b in want[1:]) != w.shape[0]:
        raise Fail("the samplings do not match the transform's lengths")
    d, sp = int(c.rng.integers(1, 4)), 0
    try:
        bls_ref(L, B, J, d, sp)
    except ValueError:

        d = 1
    if d <= L:
        same("bandlimits, directional", np.asarray(U._multires_bandlimits(L, B, J, d, sp)), np.array(bls_ref(L, B, J, d, sp)))


@oracle("C14", 24, 120)
def wavprior(c):
    """L up to 14"""
    L, B, J = wavcfg(c, 14)
    bl = bls_ref(L, B, J)
    cls = ["S2_Wavelets_L1", "S2_Wavelets_L1_Power_Weights"][c.round % 2]
    n = sum(slen(b) for b in bl)
    T = c.pick(float(c.rng.random()), np.abs(c.rng.normal(size=n)), 1, 0.0)
    eta = c.pick(1, 2, 0.5, 0)
    c.inp(cls=cls, L=L, B=B, J_min=J, T=T, eta=eta)
    fr = Frozen(T=T)
    if cls == "S2_Wavelets_L1":
        o = PR.S2_Wavelets_L1("synthesis", None, None, T, L, B, J)
        w = np.concatenate([mw_ref(b) for b in bl])
    else:
        o = PR.S2_Wavelets_L1_Power_Weights("synthesis", None, None, T, L, B, J, **({} if eta == 1 and c.round % 4 == 1 else dict(eta=eta)))
        phi, psi = pys2let.wavelet_tiling(B, L, 1, J, 0)
        ws = []
        for j, b in enumerate(bl):
            g = phi if j == 0 else psi[:, j - 1]
            power = float(np.sum(np.abs(g) ** 2))
            peak = 1.0 if j == 0 else float(int(np.argmax([psi[l * l + l, j - 1].real for l in range(L)]))) ** eta
            th = np.array([np.pi * (2 * t + 1) / (2 * b - 1) for t in range(b)])
            ws.append(np.repeat(2 * np.pi ** 2 * np.sin(th) * peak / (power * slen(b)), 2 * b - 1))
        w = np.concatenate(ws)
    fr.check()
    x = c.vec(n, c.pick("f", "c"))
    fx = Frozen(X=x)
    for _ in range(2):
        same("prior", o.prior(x), np.sum(np.abs(w * x)), atol=1e-9 * (1 + np.abs(x).sum()))
        same("prox", o.proxf(x), soft_ref(x, T * w) if np.all(w >= 0) else soft_signed(x, T * w), atol=1e-10)
    same("weights", o.map_weights, w, atol=1e-12)
    fr.check()
    fx.check()
    if not isinstance(T, np.ndarray):
        Ta = np.full(n, float(T))
        fa = Frozen(T=Ta)
        o2 = getattr(PR, cls)("synthesis", None, None, Ta, L, B, J, **({} if cls == "S2_Wavelets_L1" else dict(eta=eta)))
        fa.check()
        same("prox with thresholds per entry", o2.proxf(x), o.proxf(x))
    raises("analysis setting", Exception, getattr(PR, cls), "analysis", lambda v: v, lambda v: v, 1.0, L, B, J)


def soft_signed(x, T):
    """entrywise thresholding where rounding may have produced a threshold of -0"""
    return soft_ref(x, np.maximum(T, 0))
