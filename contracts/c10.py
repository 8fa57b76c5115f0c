"""C10: weak-lensing harmonic kernel."""
from .common import *


def build(p, stubs=KERNEL):
    ms = world(stubs).load("pxmcmc.measurements")
    L = sym_int("L", 1)
    return ok(p, "WeakLensingHarmonic(L)", attempt(ms.WeakLensingHarmonic, L)), L


@task("C10", "kernel", budget=600)
def kernel(p):
    """contract of compute_harmonic_kernel, used at its call sites below and in C11"""
    o, L = build(p, None)
    n = t_mul(L.t, L.t)
    k = o.harmonic_kernel
    prove_arr(p, "harmonic_kernel from degree 2 on", k, (ival(n),), lambda idx: t_ite(low(idx[0]), elem(k, idx)[0], kernel_spec(idx[0])))


def low(i):
    return i < 4


@variants("C10", "maps", dict(which=["forward", "adjoint", "sks_estimate"], kind=["c", "f"]))
def maps(p, which, kind):
    o, L = build(p)
    n = t_mul(L.t, L.t)
    x = sym_arr("flm", (ival(n),), kind)
    fr = Frame(flm=x, operator=o)
    xe = vec(x)
    for rep in ("", " again"):
        r = ok(p, which, attempt(getattr(o, which), x))
        if which == "sks_estimate":
            want = lambda idx: tuple(t_ite(low(idx[0]), ZERO, t_div(c, kernel_spec(idx[0]))) for c in xe(idx[0]))  # noqa
        else:
            want = lambda idx: tuple(t_ite(low(idx[0]), ZERO, t_mul(c, kernel_spec(idx[0]))) for c in xe(idx[0]))  # noqa
        prove_arr(p, which + rep, r, (ival(n),), want)
    fr.check(p)


@task("C10", "Kaiser-Squires undoes the forward map")
def roundtrip(p):
    o, L = build(p)
    n = t_mul(L.t, L.t)
    x = sym_arr("flm", (ival(n),), "c")
    xe = vec(x)
    r = ok(p, "sks_estimate(forward(flm))", attempt(lambda: o.sks_estimate(o.forward(x))))
    prove_arr(p, "sks_estimate(forward(flm))", r, (ival(n),), lambda idx: tuple(t_ite(low(idx[0]), ZERO, c) for c in xe(idx[0])))


@task("C10", "bandlimit below one is refused")
def refuse(p):
    ms = world().load("pxmcmc.measurements")
    L = sym_int("L")
    p.assume(L.t < 1)
    refused(p, "L < 1 refused", attempt(ms.WeakLensingHarmonic, L), ValueError)
