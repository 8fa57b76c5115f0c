"""C04: PxMALA's Metropolis-Hastings correction."""
from .sampling import *
from .c01 import check_rows, ALL


# ------------------------------------------------------------------ the acceptance test
def bool_atoms(terms, dist="uniform"):
    """arithmetic comparisons that involve a draw of this distribution"""
    out, st, seen = [], list(terms), set()
    p = cur()
    while st:
        x = st.pop()
        if not isinstance(x, z3.ExprRef) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if not z3.is_app(x) or ("draw_" + dist) not in p._syms(x):
            continue
        if z3.is_bool(x) and x.num_args() == 2 and z3.is_arith(x.arg(0)):
            out.append(x)
        else:
            st += x.children()
    return out


def positive_form(a):
    """(D, sense) with a <=> (D > 0) when sense, a <=> not (D > 0) otherwise"""
    k = a.decl().kind()
    x, y = to_real(a.arg(0)), to_real(a.arg(1))
    return {z3.Z3_OP_LT: (y - x, True), z3.Z3_OP_GT: (x - y, True), z3.Z3_OP_LE: (x - y, False), z3.Z3_OP_GE: (y - x, False)}.get(k, (None, None))


def match_test(p, atom, u, alpha):
    """sense, when atom <=> (log u < alpha) (sense True) or its negation"""
    D, sense = positive_form(atom)
    if D is None:
        return None
    lu = t_log(u)
    if lu.get_id() not in [x.get_id() for x in _subterms(D)]:
        # u < exp(alpha)
        for e in [x for x in _subterms(D) if z3.is_app(x) and x.decl().name() == "exp"]:
            if p._ring(D, e - u) and p._ring(e.arg(0), alpha):
                return sense
        return None
    c = z3.Real("$shift")
    d1 = z3.substitute(D, (lu, lu + c)) - D
    for s in (-1, 1):
        for w in (1, 2, 4):
            for q in (R(s) * w, R(s) / w):
                if p._ring(d1, q * c):
                    # D = q log u + rest
                    if p._ring(D, -q * (alpha - lu)):
                        return sense if s < 0 else None
                    return None
    return None


def _subterms(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        if z3.is_app(x):
            st += x.children()
    return out


def logq(m, a, b, delta):
    """log q(b|a) = -sum |b - drift(a)|^2 / (4 delta)"""
    dr, B = m.drift(a, delta), vec(b)

    def sq(i):
        return tuple((x - y) for x, y in zip(B(i), dr(i)))
    return -sum_term(it(m.n), lambda i: sq(i)[0] * sq(i)[0] + sq(i)[1] * sq(i)[1]) / (4 * delta)


def mh_step(h, cut, k, now):
    p, m = cur(), h.m
    v = h.V.get(now)
    X = m.S.val(k)
    d = delta_at(h, cut, k)
    # the proposal: the vector whose predictions were computed in this iteration
    Y = m.proposals[-1] if m.proposals else None
    if Y is None:
        raise Unsupported("no proposal was evaluated in the iteration")
    i = p.generic(m.n.t)
    e = cast(Y.read((i,)), Y.kind, "c")
    parts = [t_sub(a, b) for a, b in zip(e, m.drift(X, d)(i))]
    if not m.cplx:
        p.prove("proposal: real parameters stay real", parts[1] == 0)
        parts = parts[:1]
    prove_noise(p, "proposal is the MYULA transition", i, m.n.t, parts, t_sqrt(t_mul(R(2), d)), "normal", counter_at(cut, "rng_normal", k), it(p.ghost.get("rng_normal", ival(I0))))
    # log-acceptance ratio
    un = [(a, b) for sy, l2 in m.folded.values() for a, b in zip(sy, l2.e)]
    LPX = m.logpi_of(m.L2.val(k), m.PR.val(k)).e[0]
    LPY = m.logpi_of(m.l2_of(m.fw.spec(Y)), m.prior_of(Y)).e[0]
    alpha = LPY + logq(m, Y, X, d) - LPX - logq(m, X, Y, d)
    acc = h.accepted(now)
    if acc is None:
        return
    state = list(v.read((i,)))
    # symmetric weights: the misfit is real (lemma below)
    zero = [(l2[1], R(0)) for l2 in [m.L2.at(k)] + [sy for sy, _ in m.folded.values()] if len(l2) == 2]
    facts = [f for f in p.facts if "draw_uniform" in p._syms(f)]
    cands = bool_atoms(facts + state + [acc])
    c0, c1 = counter_at(cut, "rng_uniform", k), it(p.ghost.get("rng_uniform", ival(I0)))
    B = z3.Bool(p.fresh("accept!"))
    found, rep = None, []
    for a in cands:
        for u in draws_in(a, "uniform"):
            s = match_test(p, z3.substitute(a, *un) if un else a, u, alpha)
            if s is not None:
                rep.append((a, B if s else z3.Not(B)))
                found = u
    if found is None:
        if cands:
            a = cands[0]
            u = draws_in(a, "uniform")[0]
            t = t_log(u) < alpha
            D, sense = positive_form(a)
            p.PROVE_TIMEOUT = 2000
            p.prove("the acceptance test is log u < logpi(Y) + log q(X|Y) - logpi(X) - log q(Y|X)", z3.BoolVal(False) if D is None else (D > 0) == t)
        else:
            p.prove("the acceptance test compares a uniform draw", z3.BoolVal(False), detail="no comparison with a uniform draw decides this iteration")
        return
    p.prove("the acceptance test is log u < logpi(Y) + log q(X|Y) - logpi(X) - log q(Y|X)", z3.BoolVal(True))
    p.prove("the uniform is drawn for this transition", z3.And(found.arg(0) >= c0, found.arg(0) < c1))

    def put(t):
        """t in terms of B"""
        t = z3.substitute(t, *rep)
        return z3.simplify(z3.substitute(t, *zero)) if zero else t
    for f in facts:
        f = put(f)
        if "draw_uniform" not in p._syms(f) or len(p._syms(f)) < 40:
            p.add(f)
    state, acc = [put(t) for t in state], put(acc)
    for n, (a, y, x) in enumerate(zip(state, Y.read((i,)), X.read((i,)))):
        part = " (imaginary part)" if n else ""
        p.prove("an accepted proposal becomes the current state" + part, z3.Implies(B, a == y))
        p.prove("a rejected proposal leaves the current state" + part, z3.Implies(z3.Not(B), a == x))
    p.prove("the acceptance record: 1 for an accepted transition", z3.Implies(B, acc == 1))
    p.prove("the acceptance record: 0 for a rejected transition", z3.Implies(z3.Not(B), acc == 0))


class MHHook(RunHook):
    def accepted(self, now):
        """the entry this iteration adds to the acceptance record"""
        p, m = cur(), self.m
        tr = getattr(m.sampler, "acceptance_trace", None)
        loc = getattr(self, "acc", None)
        if loc is None or loc.ref is not tr:
            p.prove("the run keeps an acceptance record", z3.BoolVal(False), detail="no list acceptance_trace that grows with the transitions")
            return None
        add = loc.ref.copy_state()[2]
        if len(add) != 1 or lift(add[0]) is None:
            p.prove("one entry of the acceptance record per transition", z3.BoolVal(False), detail=f"{len(add)} entries")
            return None
        p.prove("one entry of the acceptance record per transition", z3.BoolVal(True))
        s = lift(add[0])
        return cast(s.e, s.kind, "i")[0] if s.kind in "ib" else s.e[0]


def run_mh(p, cplx, data, tune, track=("chain",), verbosity=0):
    m = Model(p, "PxMALA", cplx, data, track=list(track), verbosity=verbosity, tune=tune, unfold=("calc_logtransition",))
    m.proposals = []
    m.forward.forward = lambda x: _record(m, x)
    m.hook = h = MHHook(m, final=mh_step)
    ok(p, "PxMALA.run", m.run(h))
    h.known(p, "PxMALA.run")
    tr = getattr(m.sampler, "acceptance_trace", None)
    good = isinstance(tr, PList)
    p.prove("the acceptance record is a list", z3.BoolVal(good))
    if good:
        p.prove("one entry per transition of the run", it(tr.length()) == h.N)
        t = p.generic(h.N)
        p.prove("entry t is the acceptance of transition t", it(tr[ival(t)]) == m.A(t))
    check_rows(p, m)


def _record(m, x):
    r = m.fw(x)
    if m.S.which(x) is None:
        m.proposals.append(x)
    return r


for cplx, data in ((False, "f"), (True, "c"), (False, "c"), (True, "f")):
    for tune in (True, False):
        task("C04", f"run[{'complex' if cplx else 'real'} parameters,{'complex' if data == 'c' else 'real'} data,tuning {'on' if tune else 'off'}]", budget=600, cplx=cplx, data=data, tune=tune)(run_mh)
task("C04", "run[everything tracked]", budget=600, cplx=False, data="f", tune=True, track=ALL)(run_mh)
task("C04", "run[any verbosity]", budget=600, cplx=False, data="f", tune=True, verbosity=None)(run_mh)


@variants("C04", "calc_logtransition", dict(cplx=[False, True]))
def transition(p, cplx):
    """log q(X2|X1) up to a constant, for arbitrary vectors"""
    m = Model(p, "PxMALA", cplx, fold=False)
    X1, X2, P, G = (sym_arr(n, (m.n,), m.kx) for n in ("X1", "X2", "prox", "grad"))
    fr = Frame(X1=X1, X2=X2, proxf=P, gradg=G, sampler=m.sampler, params=m.params)
    r = ok(p, "calc_logtransition", attempt(m.sampler.calc_logtransition, X1, X2, P, G))
    d, lm = m.delta0.t, m.lmda.t
    x1, x2, pr, gr = vec(X1), vec(X2), vec(P), vec(G)
    f = lambda i: tuple(b - ((1 - d / lm) * a + (d / lm) * q - d * g) for a, b, q, g in zip(x1(i), x2(i), pr(i), gr(i)))  # noqa
    prove_num(p, "log q(X2|X1) = -sum |X2 - drift(X1)|^2 / (4 delta)", r, -sum_term(it(m.n), lambda i: f(i)[0] * f(i)[0] + f(i)[1] * f(i)[1]) / (4 * d))
    fr.check(p)


@task("C04", "balance[lemma]")
def balance(p):
    """accepting with probability min(1, pi(y)q(x|y)/(pi(x)q(y|x))) leaves pi invariant: detailed balance of the accepted moves,
    exp(lx) exp(qxy) min(1, r) = exp(ly) exp(qyx) min(1, 1/r)"""
    a, b = z3.Reals("flow_xy flow_yx")          # pi(x)q(y|x), pi(y)q(x|y), both positive
    mn = lambda x: z3.If(x < 1, x, R(1))  # noqa
    lemma(p, "the accepted flows x->y and y->x are equal", [a > 0, b > 0], a * mn(b / a) == b * mn(a / b))


@task("C04", "misfit is real[lemma]")
def real_misfit(p):
    """with symmetric weights the terms (i, j) and (j, i) of the imaginary part of conj(d_i) W_ij d_j cancel"""
    ar, ai, br, bi, w = z3.Reals("di_re di_im dj_re dj_im w")
    di, dj = (ar, ai), (br, bi)
    t1, t2 = cmul(cconj(di), cmul((w, ZERO), dj)), cmul(cconj(dj), cmul((w, ZERO), di))
    lemma(p, "the imaginary parts of the terms (i, j) and (j, i) cancel", [], t1[1] + t2[1] == 0)
    lemma(p, "the diagonal terms are real", [], cmul(cconj(di), cmul((w, ZERO), di))[1] == 0)
