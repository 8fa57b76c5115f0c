"""C02: burn-in, thinning, run length."""
from .sampling import *
from .c01 import check_rows, ALL


# ---- the saving schedule itself, as arithmetic: saved(k), trans(r) by their closed forms
def schedule(p):
    b, ng, k, ns = sym_int("nburn", 0).t, sym_int("ngap", 0).t, sym_int("k", 0).t, sym_int("nsamples", 1).t
    g = z3.If(ng == 0, z3.IntVal(1), ng)
    G = z3.Int("g")
    p.assume(z3.And(G == g, G >= 1))
    q = z3.Function("q", INT, INT)       # (x - nburn) div g for x >= nburn
    r = z3.Function("r", INT, INT)

    def div(x):
        p.assume(z3.Implies(x >= b, z3.And(x - b == q(x) * G + r(x), r(x) >= 0, r(x) < G, q(x) >= 0)))
        return q(x), r(x)

    def saved(x):
        return z3.If(x <= b, z3.IntVal(0), div(x - 1)[0] + 1)

    def trans(j):
        return b + j * G + 1

    def uniq(x):
        """division facts at x and x-1: the quotient moves exactly when the remainder of x is 0"""
        q1, r1 = div(x)
        q0, r0 = div(x - 1)
        p.assume(z3.BoolVal(True))
        d = q1 - q0
        lemma(p, "schedule: consecutive quotients, no step", [x - 1 >= b, r1 != 0], z3.And(d == 0, r1 == r0 + 1))
        lemma(p, "schedule: consecutive quotients, step", [x - 1 >= b, r1 == 0], z3.And(d == 1, r0 == G - 1))
        p.assume(z3.Implies(z3.And(x - 1 >= b, r1 != 0), z3.And(d == 0, r1 == r0 + 1)))
        p.assume(z3.Implies(z3.And(x - 1 >= b, r1 == 0), z3.And(d == 1, r0 == G - 1)))
    return b, ng, k, ns, G, div, saved, trans, uniq


@task("C02", "schedule[arithmetic]")
def arithmetic(p):
    b, ng, k, ns, G, div, saved, trans, uniq = schedule(p)
    # quotients: two decompositions of neighbouring numbers
    qa, ra, qb, rb = (z3.Int(n) for n in ("qa", "ra", "qb", "rb"))
    uniq(k)
    q0 = div(b)
    lemma(p, "schedule: the quotient at the end of burn-in is 0", [], z3.And(q0[0] == 0, q0[1] == 0))
    p.assume(z3.And(q0[0] == 0, q0[1] == 0))
    hit = z3.And(k >= b, div(k)[1] == 0)
    J, J1 = saved(k), saved(k + 1)
    lemma(p, "schedule: rows saved is not negative", [], J >= 0)
    lemma(p, "schedule: no row during burn-in", [k <= b], J == 0)
    lemma(p, "schedule: a row after burn-in", [k > b], J >= 1)
    lemma(p, "schedule: a saving iteration adds one row", [hit], J1 == J + 1)
    lemma(p, "schedule: the row saved is the quotient", [hit], J == div(k)[0])
    lemma(p, "schedule: it holds the state after k+1 transitions", [hit], trans(J) == k + 1)
    lemma(p, "schedule: other iterations add none", [z3.Not(hit)], J1 == J)


@task("C02", "schedule[end and termination]")
def ending(p):
    b, ng, k, ns, G, div, saved, trans, uniq = schedule(p)
    N = sym_int("N", 1).t
    uniq(N - 1)
    q, r = div(N - 1)
    q0 = div(b)
    lemma(p, "schedule: the quotient at the end of burn-in is 0", [], z3.And(q0[0] == 0, q0[1] == 0))
    p.assume(z3.And(q0[0] == 0, q0[1] == 0))
    lemma(p, "schedule: saved rows never skip", [N - 1 >= b], z3.And(saved(N) <= saved(N - 1) + 1, saved(N) >= saved(N - 1)))
    lemma(p, "schedule: the run ends with the last row", [saved(N) >= ns, saved(N - 1) < ns], N == trans(ns - 1))
    qk, rk = div(k - 1)
    lemma(p, "schedule: a product of a non-negative and a positive number grows", [qk <= ns - 2, ns >= 2, k > b], qk * G <= (ns - 2) * G)
    p.assume(z3.Implies(z3.And(qk <= ns - 2, ns >= 2, k > b), qk * G <= (ns - 2) * G))
    lemma(p, "schedule: ns >= 1 rows need at least burn-in plus one transitions", [], (ns - 1) * G >= 0)
    p.assume((ns - 1) * G >= 0)
    lemma(p, "schedule: while rows are missing, the last transition is ahead", [saved(k) < ns], k < trans(ns - 1))


@task("C02", "schedule[a row's transitions]")
def inverse(p):
    b, ng, k, ns, G, div, saved, trans, uniq = schedule(p)
    j = sym_int("j", 0).t
    q, r = div(b + j * G)
    d = q - j
    lemma(p, "schedule: the quotient of a multiple", [], z3.And(d == 0, r == 0))
    p.assume(z3.And(d == 0, r == 0))
    p.prove("schedule: a row is the last one saved after its transitions", z3.Implies(trans(j) > b, q + 1 == j + 1))


def one_transition(h, cut, k, now):
    """an iteration of the loop is one transition from the current state"""
    p, m = cur(), h.m
    if m.algo == "MYULA":
        return law_myula(h, cut, k, now)
    c0, c1 = counter_at(cut, "rng_normal", k), it(p.ghost.get("rng_normal", ival(I0)))
    p.prove(f"{m.algo}: one proposal per iteration", c1 - c0 == (2 if m.cplx else 1))
    if m.algo == "SKROCK":
        v = h.V.get(now)
        z = npshim.draw_at("normal", m.n, c0)
        if m.cplx:
            z = z + npshim.draw_at("normal", m.n, c0 + 1) * Sc("c", (R(0), R(1)))
        exp = opaque_arr("skrock", [m.S.val(k), z], [m.n], m.kx, extra=[rterm(lift(m.sampler.delta))])
        i = p.generic(m.n.t)
        p.prove("SKROCK: the new state is one step from the current one", z3.And(*[a == b for a, b in zip(v.read((i,)), exp.read((i,)))]))


def run_task(p, algo, cplx, data, track, verbosity=0, tune=True, twice=False, start="given"):
    m = Model(p, algo, cplx, data, track=list(track), verbosity=verbosity, tune=tune, start=start)
    m.hook = h = RunHook(m, variant=True, final=one_transition)
    ok(p, f"{algo}.run", m.run(h))
    finish(p, m, h, algo)
    if twice:
        m.again("second_")
        m.hook = h = RunHook(m, variant=True)
        ok(p, f"{algo}.run (again)", m.run(h))
        finish(p, m, h, algo + " (second run)")


def finish(p, m, h, nm):
    if not h.known(p, nm):
        return
    last = F_trans(simp(t_sub(m.ns.t, I1)))
    p.prove(f"{nm}: the run ends with the transition that gives the last sample", h.N == last)
    p.prove(f"{nm}: every row is written", F_saved(h.N) == m.ns.t)
    check_rows(p, m)


for algo in ("MYULA", "PxMALA", "SKROCK"):
    task("C02", f"run[{algo},any verbosity]", budget=600, algo=algo, cplx=False, data="f", track=("chain",), verbosity=None)(run_task)
    task("C02", f"run[{algo},everything tracked]", budget=600, algo=algo, cplx=False, data="f", track=ALL)(run_task)
    task("C02", f"run[{algo},nothing tracked]", budget=600, algo=algo, cplx=False, data="f", track=())(run_task)
    task("C02", f"run[{algo},complex]", budget=600, algo=algo, cplx=True, data="c", track=("chain", "logposterior"))(run_task)
    task("C02", f"run[{algo},twice]", budget=600, algo=algo, cplx=False, data="f", track=("chain",), twice=True)(run_task)
task("C02", "run[PxMALA,no tuning]", budget=600, algo="PxMALA", cplx=False, data="f", track=("chain",), tune=False)(run_task)
