"""C18: pixel areas tile the sphere.  Sample positions are those of the MW sampling: theta_t = (2t+1)pi/(2L-1), phi_p = 2 pi p/(2L-1)."""
from .common import *


def theta(t, L):
    return t_div(t_mul(to_real(t_add(t_mul(z3.IntVal(2), t), I1)), t_pi()), to_real(t_sub(t_mul(z3.IntVal(2), L), I1)))


def area(t, L, r):
    n = to_real(t_sub(t_mul(z3.IntVal(2), L), I1))
    cap = 2 * t_pi() * r * r * (1 - t_cos(theta(z3.IntVal(0), L))) / n
    rect = r * r * (t_cos(theta(t_sub(t, I1), L)) - t_cos(theta(t, L))) * (2 * t_pi() / n)
    return t_ite(t_cmp("eq", t, z3.IntVal(0)), cap, rect)


@variants("C18", "calc_pixel_areas", dict(r=["float", "int", "default"]))
def areas(p, r):
    u = world().load("pxmcmc.utils")
    L = sym_int("L", 1)
    if r == "default":
        rr = ok(p, "calc_pixel_areas", attempt(u.calc_pixel_areas, L))
        rt = R(1)
    else:
        rad = sym_real("r") if r == "float" else sym_int("r", 1)
        p.assume(rad.t > 0)
        rt = rterm(rad)
        rr = ok(p, "calc_pixel_areas", attempt(u.calc_pixel_areas, L, rad))
    prove_arr(p, "pixel areas", rr, (L, ival(2 * L.t - 1)), lambda idx: area(idx[0], L.t, rt))


@task("C18", "spherical rectangle and polar cap")
def pieces(p):
    u = world().load("pxmcmc.utils")
    r, a, b, c, d = (sym_real(x) for x in ("r", "theta1", "theta2", "phi1", "phi2"))
    p.assume(r.t > 0)
    x = ok(p, "pixel_area", attempt(u.pixel_area, r, a, b, c, d))
    prove_num(p, "pixel_area", x, r.t * r.t * (t_cos(a.t) - t_cos(b.t)) * (d.t - c.t))
    x = ok(p, "polar_cap_area", attempt(u.polar_cap_area, r, a))
    prove_num(p, "polar_cap_area", x, 2 * t_pi() * r.t * r.t * (1 - t_cos(a.t)))


@task("C18", "lemma: areas are non-negative")
def nonneg(p):
    L, t, r = z3.Int("L"), z3.Int("t"), z3.Real("r")
    p.assume(z3.And(L >= 1, t >= 0, t < L, r > 0))
    pi = t_pi()
    th = theta(t, L)
    n = to_real(2 * L - 1)
    p.prove("0 < theta_t <= pi", z3.And(th > 0, th <= pi))
    p.prove("rings are ordered", z3.Implies(t >= 1, theta(t - 1, L) < th))
    # cos is decreasing on [0, pi] and cos 0 = 1 (trusted facts about the cosine)
    c1, c0, c00 = t_cos(th), t_cos(theta(t - 1, L)), t_cos(theta(z3.IntVal(0), L))
    p.assume(z3.Implies(z3.And(t >= 1, theta(t - 1, L) < th, theta(t - 1, L) >= 0, th <= pi), c0 > c1))
    q = z3.Real("q")
    p.prove("non-negative", z3.And(z3.Implies(t >= 1, c0 - c1 >= 0), 1 - c00 >= 0))
    lemma(p, "a product of non-negative factors is non-negative", [q >= 0, r > 0, n > 0, pi > 0], z3.And(r * r * q * (2 * pi / n) >= 0))


@task("C18", "lemma: the areas sum to 4 pi r^2")
def total(p):
    """S(t) = sum of the ring areas up to ring t = 2 pi r^2 (1 - cos theta_t), by induction; the last ring is the south pole"""
    L, t, r = z3.Int("L"), z3.Int("t"), z3.Real("r")
    p.assume(z3.And(L >= 1, t >= 1, t < L, r > 0))
    n = to_real(2 * L - 1)
    S = lambda q: 2 * t_pi() * r * r * (1 - t_cos(theta(q, L)))  # noqa
    ring = lambda q: n * area(q, L, r)  # noqa
    p.prove("first ring: the polar cap", ring(z3.IntVal(0)) == S(z3.IntVal(0)))
    p.prove("each further ring", S(t - 1) + ring(t) == S(t))
    p.prove("theta of the last ring is pi", theta(L - 1, L) == t_pi())
    last = z3.Real("cos_pi")
    lemma(p, "total", [last == t_cos(t_pi())], 2 * t_pi() * r * r * (1 - last) == 4 * t_pi() * r * r)
