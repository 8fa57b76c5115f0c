"""C06: SK-ROCK transition."""
from .sampling import *
from . import c02

T1 = z3.Function("cheb1", REAL, INT, REAL)
D1 = z3.Function("cheb1der", REAL, INT, REAL)


class Spec:
    """the published recursion for state X, noise Z"""

    def __init__(self, m):
        self.m = m
        self.K = Fam("K", m.n, m.kx)
        s = to_real(m.s.t)
        self.w0 = 1 + R("0.05") / (s * s)
        self.w1 = T1(self.w0, m.s.t) / D1(self.w0, m.s.t)
        for n in (m.s.t,):
            cheb("cheb1", Sc("f", (self.w0,)), ival(n))
            cheb("cheb1der", Sc("f", (self.w0,)), ival(n))
        self.done = set()
        self.X = self.Z = None

    def T(self, j):
        return cheb("cheb1", Sc("f", (self.w0,)), ival(j)).e[0]

    def grad(self, x):
        """gradient of the smoothed log-posterior, entrywise"""
        m = self.m
        X, P, G = vec(x), vec(m.px.spec(x)), vec(m.gr.spec(m.fw.spec(x)))
        return lambda i: tuple(-(a - b) / m.lmda.t - c for a, b, c in zip(X(i), P(i), G(i)))

    def coef(self, j):
        """mu_j, nu_j, kappa_j for j >= 2"""
        q = self.T(simp(t_sub(j, I1))) / self.T(j)
        nu = 2 * self.w0 * q
        return 2 * self.w1 * q, nu, 1 - nu

    def first(self):
        m, d, s = self.m, self.m.delta0.t, to_real(self.m.s.t)
        mu, nu, ka = self.w1 / self.w0, s * self.w1 / 2, s * self.w1 / self.w0
        rt = t_sqrt(2 * d)
        X, Z = vec(self.X), vec(self.Z)
        y = mat((m.n.t,), m.kx, lambda idx: tuple(x + nu * rt * z for x, z in list(zip(X(idx[0]), Z(idx[0])))[:2 if m.cplx else 1]))
        g = self.grad(y)
        return lambda i: tuple(x + mu * d * h + ka * rt * z for x, h, z in zip(X(i), g(i), Z(i)))

    def later(self, j):
        mu, nu, ka = self.coef(j)
        d = self.m.delta0.t
        A, B = self.K.val(simp(t_sub(j, I1))), self.K.val(simp(t_sub(j, z3.IntVal(2))))
        g, a, b = self.grad(A), vec(A), vec(B)
        return lambda i: tuple(mu * d * h + nu * x + ka * y for h, x, y in zip(g(i), a(i), b(i)))

    def define(self, j):
        """K_j by the recursion"""
        p, m = cur(), self.m
        if j.get_id() in self.done:
            return
        self.done.add(j.get_id())
        p.keep.append(j)
        one, lat, X = self.first(), self.later(j), vec(self.X)
        for n, f in enumerate(self.K.fs):
            p.trigs.append((f.name(), lambda a, f=f, n=n: z3.Implies(a[0] == j, f(*a) == z3.If(j == 0, X(a[1])[n], z3.If(j == 1, one(a[1])[n], lat(a[1])[n])))))

    def expect(self, j):
        """K_j as an element function, following the cases of j on this path"""
        p = cur()
        if p.quick(j == 0):
            return vec(self.X)
        if p.quick(j == 1):
            return self.first()
        if p.quick(j >= 2):
            return self.later(j)
        self.define(j)
        return vec(self.K.val(j))


def same_vec(a, b):
    return isinstance(a, SArr) and isinstance(b, SArr) and (a is b or a.ndim == b.ndim == 1 and all(cur().check_valid(g, 2000)[0] == "proved" for g in eq_goals(a, b)))


def recursion_contract(sp, box):
    """SKROCK._K_recursion(X, s, Z) = K_s; the first call executes the body, the calls it makes are resolved by the contract"""
    def fn(orig, self_, X, s, Z):
        p = cur()
        if "in" not in box:
            box["in"] = it(s)
            sp.X, sp.Z = X, Z
            return orig(self_, X, s, Z)
        if not (same_vec(X, sp.X) and same_vec(Z, sp.Z)):
            raise Unsupported("recursive call with another state or noise vector")
        j = it(s)
        p.prove("recursion: 0 <= order of the recursive call < order", z3.And(j >= 0, j < box["in"]))
        return sp.K.val(simp(j))
    return fn


class StageHook(Hook):
    """loops over the stages: locals are K_{k+c}"""

    def __init__(self, sp):
        self.sp, self.todo = sp, {}

    def define(self, cut):
        sp = self.sp
        if sp.X is None:
            return
        for loc in list(cut.defs):
            if loc.kind == "L" and isinstance(cut._entry_val(loc), SArr) and isinstance(cut.defs[loc], Free):
                self.todo[loc] = [0, 1, 2, 3]
                self.next(cut, loc)

    def next(self, cut, loc):
        sp, p = self.sp, cur()
        e = cut._entry_val(loc)
        todo = self.todo.get(loc, [])
        while todo:
            c = todo.pop(0)
            sp.define(z3.IntVal(c))
            v = sp.K.val(z3.IntVal(c))
            if e.ndim != 1 or e.kind != v.kind:
                return
            i = p.bound(sp.m.n.t)
            w = sp.expect(z3.IntVal(c))(i)
            if all(p._ring(a, b) for a, b in zip(e.read((i,)), w)):
                cut.defs[loc] = Closed(loc, lambda k, c=c: sp.K.val(simp(t_add(k, z3.IntVal(c)))), e, "stage of the recursion")
                return

    def arrival(self, cut, k, now):
        for c in (1, 2, 3, 4):
            self.sp.define(simp(t_add(k, z3.IntVal(c))))

    def dropped(self, cut, fails):
        for loc in fails:
            self.next(cut, loc)


def no_step(orig, self_, *a):
    return orig(self_, *a)


def step(p, cplx, entry):
    box = {}
    sp = Spec.__new__(Spec)
    m = Model(p, "SKROCK", cplx, stubs={"mcmc.SKROCK.chain_step": (("self", "X"), no_step), "mcmc.SKROCK._K_recursion": (("self", "X", "s", "Z"), recursion_contract(sp, box))})
    Spec.__init__(sp, m)
    X = sym_arr("X", (m.n,), m.kx)
    fr = Frame(X=X, sampler=m.sampler, params=m.params)
    c0 = it(p.ghost.get("rng_normal", ival(I0)))
    i = p.generic(m.n.t)
    if entry == "chain_step":
        z = npshim.draw_at("normal", m.n, c0)
        sp.X, sp.Z = X, z + npshim.draw_at("normal", m.n, c0 + 1) * Sc("c", (R(0), R(1))) if cplx else z
        p.ghost["loop_hook"] = StageHook(sp)
        r = ok(p, "chain_step", attempt(m.sampler.chain_step, X))
        p.ghost["loop_hook"] = None
        j = m.s.t
        if not isinstance(sp.Z, SArr) or not isinstance(sp.X, SArr):
            raise Unsupported("the recursion is not over vectors")
        p.prove("the recursion starts from the given state", z3.And(*[a == b for a, b in zip(cast(sp.X.read((i,)), sp.X.kind, "c"), vec(X)(i))]))
        zi = list(sp.Z.read((i,)))
        prove_noise(p, "the noise vector", i, m.n.t, zi, R(1), "normal", c0, it(p.ghost.get("rng_normal", ival(I0))))
        p.prove("one noise vector per transition", it(p.ghost.get("rng_normal", ival(I0))) - c0 == (2 if cplx else 1))
    else:
        rec = getattr(m.sampler, "_K_recursion", None)
        if rec is None or "mcmc.SKROCK._K_recursion" not in p.task.stubs_used and not hasattr(getattr(type(m.sampler), "_K_recursion"), "pxv_orig"):
            p.prove("no recursive helper: nothing to show", z3.BoolVal(True))
            return
        j = sym_int("stage", 0).t
        p.assume(j <= m.s.t)
        Z = sym_arr("Z", (m.n,), m.kx)
        p.ghost["loop_hook"] = StageHook(sp)
        sp.X, sp.Z = X, Z
        r = ok(p, "_K_recursion", attempt(rec, X, ival(j), Z))
        p.ghost["loop_hook"] = None
    good = isinstance(r, SArr) and r.ndim == 1
    p.prove(f"{entry} returns a vector", z3.BoolVal(good))
    if not good:
        return
    p.prove(f"{entry} returns a vector of the parameters' length", r.shp[0] == m.n.t)
    if not p.fork(j == 0) and not p.fork(j == 1):
        pass
    t = sp.K.which(r)
    if t is not None:
        p.prove(f"{entry}: the result is stage s of the recursion", t == j)
        fr.check(p)
        return
    w = sp.expect(j)(i)
    sp.define(j)
    for n, (a, b) in enumerate(zip(elem(r, (i,)), w)):
        if n and not cplx:
            continue
        p.prove(f"{entry}: the result is K_s of the recursion" + (" (imaginary part)" if n else ""), a == b)
    fr.check(p)


for cplx in (False, True):
    for entry in ("chain_step", "recursion helper"):
        task("C06", f"step[{'complex' if cplx else 'real'},{entry}]", budget=400, cplx=cplx, entry=entry)(step)


@task("C06", "coefficients")
def coefs(p):
    m = Model(p, "SKROCK")
    sp = Spec(m)
    o = m.sampler
    arrs = [getattr(o, a, None) for a in ("mus", "nus", "ks")]
    if not all(isinstance(a, SArr) and a.ndim == 1 for a in arrs):
        p.prove("coefficients are not kept as arrays: covered by the step", z3.BoolVal(True))
        return
    s = to_real(m.s.t)
    for a, n, w in zip(arrs, ("mu", "nu", "kappa"), (sp.w1 / sp.w0, s * sp.w1 / 2, s * sp.w1 / sp.w0)):
        prove_num(p, f"{n}_1", a[1], w)
    j = p.generic(m.s.t + 1)
    p.assume(j >= 2)
    for a, n, w in zip(arrs, ("mu", "nu", "kappa"), sp.coef(j)):
        p.prove(f"{n}_j", a.read((j,))[0] == w)


@task("C06", "Chebyshev positivity[lemma]")
def positive(p):
    """T_n(x) >= 1 and U_n(x) >= 1 for x >= 1 by induction on n: both sequences do not decrease; T_n' = n U_{n-1} (C17)"""
    x, a, b, n = z3.Reals("x P_nm1 P_n n")
    lemma(p, "base: T_1 >= T_0 >= 1, U_1 >= U_0 >= 1", [x >= 1], z3.And(x >= 1, 2 * x >= 1))
    lemma(p, "step: P_{n+1} = 2x P_n - P_{n-1} >= P_n >= 1", [x >= 1, b >= a, a >= 1], z3.And(2 * x * b - a >= b, b >= 1))
    lemma(p, "T_n' = n U_{n-1} > 0 for n >= 1", [b >= 1, n >= 1], n * b > 0)


for cplx, data in ((False, "f"), (True, "c")):
    task("C06", f"run[{'complex' if cplx else 'real'}]", budget=600, algo="SKROCK", cplx=cplx, data=data, track=("chain",))(c02.run_task)
