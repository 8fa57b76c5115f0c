"""C16: wavelet transform object."""
from .common import *
from pxv import extshim

PX = dict(fwd="analysis_px2wav", inv="synthesis_wav2px", fadj="analysis_adjoint_wav2px", iadj="synthesis_adjoint_px2wav")
LM = dict(fwd="analysis_lm2lmn", inv="synthesis_lmn2lm", fadj="analysis_adjoint_lmn2lm", iadj="synthesis_adjoint_lm2lmn")


def setup(p, harmonic, defaults=False):
    w = world()
    tf = w.load("pxmcmc.transforms")
    L, J, N, spin = sym_int("L", 1), sym_int("J_min", 0), sym_int("dirs", 1), sym_int("spin", 0)
    B = sym_real("B")
    p.assume(B.t > 1)
    kw = {} if defaults else dict(dirs=N, spin=spin, harmonic=harmonic)
    if defaults:
        N, spin = ival(z3.IntVal(1)), ival(z3.IntVal(0))
    o = ok(p, "SphericalWaveletTransform()", attempt(tf.SphericalWaveletTransform, L, B, J, **kw))
    ps = dict(B=B, L=L, J_min=J, N=N, spin=spin, upsample=0)
    mode = "lm" if harmonic else "px"
    pp = [B.t, L.t, J.t, it(N), it(spin), z3.IntVal(0)]
    nw, ns = extshim.F_nwav[mode](*pp), extshim.F_nscal[mode](*pp)
    npx = t_mul(L.t, L.t) if harmonic else t_mul(L.t, 2 * L.t - 1)
    lib = {k: w.shims["pys2let"].__getattr__(v) if False else getattr(w.shims["pys2let"], v) for k, v in (LM if harmonic else PX).items()}
    return o, ps, nw, ns, npx, lib, pp


def pack(w, s, ns):
    we, se = vec(w), vec(s)
    return lambda idx: tuple(t_ite(idx[0] < ns, a, b) for a, b in zip(se(idx[0]), we(idx[0] - ns)))


@variants("C16", "image to coefficients", dict(which=["forward", "inverse_adjoint"], X=["f", "c"], cfg=["default", "full", "harmonic"]))
def to_coef(p, which, X, cfg):
    o, ps, nw, ns, npx, lib, pp = setup(p, cfg == "harmonic", cfg == "default")
    x = sym_arr("X", (ival(npx),), X)
    fr = Frame(X=x, transform=o)
    w, s = lib["fwd" if which == "forward" else "iadj"](x.astype(complex), **ps)
    for rep in ("", " again"):
        r = ok(p, which, attempt(getattr(o, which), x))
        prove_arr(p, which + "(X)" + rep, r, (ival(ns + nw),), pack(w, s, ns))
    fr.check(p)


@variants("C16", "coefficients to image", dict(which=["inverse", "forward_adjoint"], X=["f", "c"], cfg=["default", "full", "harmonic"]))
def to_img(p, which, X, cfg):
    o, ps, nw, ns, npx, lib, pp = setup(p, cfg == "harmonic", cfg == "default")
    x = sym_arr("X", (ival(ns + nw),), X)
    fr = Frame(X=x, transform=o)
    xc = x.astype(complex)
    f = xc.snap()
    s, w = mat((ns,), "c", lambda idx: f(idx)), mat((nw,), "c", lambda idx: f((idx[0] + ns,)))
    want = lib["inv" if which == "inverse" else "fadj"](w, s, **ps)
    for rep in ("", " again"):
        r = ok(p, which, attempt(getattr(o, which), x))
        prove_arr(p, which + "(X)" + rep, r, (ival(npx),), lambda idx: elem(want, idx))
    fr.check(p)


@variants("C16", "reported coefficient counts", dict(cfg=["default", "full", "harmonic"]))
def counts(p, cfg):
    o, ps, nw, ns, npx, lib, pp = setup(p, cfg == "harmonic", cfg == "default")
    p.prove("nscal", it(o.nscal) == ns)
    p.prove("nwav", it(o.nwav) == nw)
    p.prove("ncoefs", it(o.ncoefs) == ns + nw)
    jm = extshim.F_jmax(*pp[:3])
    p.prove("J_max and nscales", z3.And(it(o.J_max) == jm, it(o.nscales) == jm - pp[2] + 1))


@variants("C16", "identity transform", dict(which=["forward", "inverse", "forward_adjoint", "inverse_adjoint"], X=["f", "c"]))
def ident(p, which, X):
    tf = world().load("pxmcmc.transforms")
    o = ok(p, "IdentityTransform()", attempt(tf.IdentityTransform))
    x = sym_arr("X", (sym_int("n", 0),), X)
    fr = Frame(X=x, transform=o)
    xe = vec(x)
    r = ok(p, which, attempt(getattr(o, which), x))
    prove_arr(p, which, r, x.shape, lambda idx: xe(idx[0]))
    fr.check(p)
