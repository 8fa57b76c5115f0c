"""C14: the weighted wavelet priors use one set of weights for prior and prox (bandlimits: C26, quadrature weights: C19, soft: C12)."""
from .common import *
from .c19 import F_mw
from pxv import npshim

F_bl = z3.Function("multires_bandlimit", core.REAL, core.INT, core.INT, core.INT, core.INT, core.INT, core.INT)
TWO = z3.IntVal(2)


def npix(b):
    return t_mul(b, t_sub(t_mul(TWO, b), I1))


def nring(b):
    return t_sub(t_mul(TWO, b), I1)


def bl(cfg, j):
    """C26's bandlimit of function j: one more than the largest degree with a non-zero axisymmetric coefficient"""
    p = cur()
    r = F_bl(*cfg, j)
    p.axiom(("bl", r), z3.And(r >= 1, r <= cfg[1]))
    if numval(j) != 0 and p.quick(j >= 1):
        return r
    phi = mat((cfg[1],), "f", lambda idx: (extshim.F_phi(*cfg[:2], cfg[3], cfg[2], cfg[4], idx[0]),))
    e0 = t_add(npshim.nonzero(phi)[0].max().t, I1)
    return e0 if numval(j) == 0 else t_ite(j == 0, e0, r)


def _bl_stub(orig, L, B, J_min, dirs=None, spin=None):
    N = it(1 if dirs is None else dirs)
    s = it(0 if spin is None else spin)
    cfg = (rterm(B), it(L), it(J_min), N, s)
    nj = t_add(t_sub(it(extshim.s2let_j_max(B, L, J_min)), it(J_min)), TWO)
    return mat((nj,), "i", lambda idx: (bl(cfg, idx[0]),))


def _mw_stub(orig, L):
    b = it(L)
    return mat((npix(b),), "f", lambda idx: (F_mw(b, idx[0]),))


STUBS = dict(SOFT)
STUBS["utils._multires_bandlimits"] = (("L", "B", "J_min", "dirs", "spin"), _bl_stub)
STUBS["utils.mw_map_weights"] = (("L",), _mw_stub)


def resolve(p, t, cands):
    """t with the block numbers of its indices replaced by the values they are proved to have"""
    for _ in range(12):
        apps = [a for a in arrays.apps_of(t, Names("piece!")) if not arrays.apps_of(a.arg(a.num_args() - 1), Names("piece!"))]
        n = 0
        for a in apps:
            for c in cands:
                if p.holds(a == c, 3000):
                    t = z3.substitute(t, (a, c))
                    n += 1
                    break
        if not n:
            break
    return t


class Names:
    def __init__(self, pre):
        self.pre = pre

    def __contains__(self, n):
        return n.startswith(self.pre)


def layout(p, cfg, nj):
    """start of function j's block in the coefficient vector: scaling function first, then increasing scale"""
    offw, _ = npshim.offsets(nj, lambda j: npix(bl(cfg, t_add(j, I1))))
    offa, pca = npshim.offsets(t_add(nj, I1), lambda j: npix(bl(cfg, j)))
    n0 = npix(bl(cfg, I0))
    rel = lambda j: offa(t_add(j, I1)) == t_add(n0, offw(j))  # noqa
    p.prove("lemma (block starts, base)", rel(I0))
    k = p.generic(nj)
    p.prove("lemma (block starts, step)", z3.Implies(rel(k), rel(t_add(k, I1))))
    p.qfacts.append((1, lambda j: z3.Implies(t_and(j >= 0, j <= nj), rel(j))))
    p.add(rel(nj))
    return n0, offw, pca


@variants("C14", "weights", dict(cls=["S2_Wavelets_L1", "S2_Wavelets_L1_Power_Weights"], T=["scalar", "vector"], x=["f", "c"]))
def weights(p, cls, T, x):
    m = world(STUBS).load("pxmcmc.prior")
    L, J, B, spin, eta = sym_int("L", 1), sym_int("J_min", 0), sym_real("B"), sym_int("spin"), sym_real("eta")
    p.assume(B.t > 1)
    power = cls.endswith("Power_Weights")
    s = 0 if power else spin
    cfg = (B.t, L.t, J.t, I1, it(s))
    phi, psi = extshim.wavelet_tiling(B, L, 1, J, s)
    nj = psi.shp[1]
    n0, offw, pca = layout(p, cfg, nj)
    n = t_add(n0, offw(nj))
    t = sym_real("T") if T == "scalar" else sym_arr("T", (ival(n),), "f")
    fr = Frame(T=t)
    kw = dict(eta=eta) if power else dict(spin=spin)
    o = ok(p, cls, attempt(getattr(m, cls), "synthesis", None, None, t, L, B, J, **kw))
    X = sym_arr("X", (ival(n),), x)
    fx = Frame(X=X).add("the prior object", o)
    w = o.map_weights
    p.prove("one weight per coefficient", z3.BoolVal(isinstance(w, SArr) and w.ndim == 1))
    p.prove("one weight per coefficient: length", w.shp[0] == n)
    wf = w.snap()
    # scaling function
    r = p.generic(n0)
    j = p.generic(nj)
    p.idx_terms.append(t_add(j, I1))
    bj = bl(cfg, t_add(j, I1))
    q = p.generic(npix(bj))
    pi2 = 2 * t_pi() * t_pi()
    p.prove("lemma (block starts are not negative)", offw(j) >= 0)
    p.add(offw(j) >= 0)
    x0, xj = r, t_add(t_add(n0, offw(j)), q)
    for nm, x_, k in (("scaling function", x0, I0), ("wavelet scale j", xj, t_add(j, I1))):
        p.prove("lemma (block of an index of the " + nm + ")", pca(x_) == k)
        p.add(pca(x_) == k)
    if power:
        th = lambda b, i: elem(extshim.ssht_positions(ival(b))[0], (t_divmod(i, nring(b))[0],))[0]  # noqa
        nn = t_mul(L.t, L.t)
        p0 = sum_term(L.t, lambda l: t_mul(elem(phi, (l,))[0], elem(phi, (l,))[0]))
        pj = sum_term(nn, lambda i: t_mul(elem(psi, (i, j))[0], elem(psi, (i, j))[0]))
        p.assume(z3.And(p0 > 0, pj > 0))      # sums of squares with a non-zero term
        peak = npshim._argmax(L.t, lambda l: (elem(psi, (t_add(t_mul(l, l), l), j))[0],), "f")
        b0 = bl(cfg, I0)
        want0 = t_div(pi2 * t_sin(th(b0, r)), p0 * to_real(npix(b0)))
        wantj = t_div(pi2 * t_pow(to_real(peak), eta.t) * t_sin(th(bj, q)), pj * to_real(npix(bj)))
    else:
        want0, wantj = F_mw(bl(cfg, I0), r), F_mw(bj, q)
    p.prove("weights of the scaling function", resolve(p, wf((r,))[0], [I0]) == want0)
    p.prove("weights of wavelet scale j", resolve(p, wf((xj,))[0], [j, t_add(j, I1)]) == wantj)
    # prior and prox use these weights
    f = vec(X)
    pr = ok(p, "prior", attempt(o.prior, X))
    prove_num(p, "the prior is the sum of w_i |X_i|", pr, sum_term(n, lambda i: modulus(e_mul((wf((i,))[0], ZERO), f(i)))))
    px = ok(p, "proxf", attempt(o.proxf, X))
    tf = as_arr(t).snap()

    def thr(i):
        return t_mul(tf((i,) if T == "vector" else ())[0], wf((i,))[0])
    prove_arr(p, "the prox thresholds entry i at T w_i", px, (ival(n),), lambda idx: soft_formula(f(idx[0]), thr(idx[0])))
    fr.check(p)
    fx.check(p)


@variants("C14", "analysis", dict(cls=["S2_Wavelets_L1", "S2_Wavelets_L1_Power_Weights"]))
def analysis(p, cls):
    m = world(STUBS).load("pxmcmc.prior")
    L, J, B, T = sym_int("L", 1), sym_int("J_min", 0), sym_real("B"), sym_real("T")
    f = VFun("fwd", ival(L.t), "c")
    refused(p, "the analysis setting is refused", attempt(getattr(m, cls), "analysis", f, f, T, L, B, J), NotImplementedError)
