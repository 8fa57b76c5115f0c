"""Shared specification of the samplers' main loop (C01-C06, C23).

Ghost families over the number k of transitions made so far:
   state(k, i)      chain state after k transitions
   preds(k, i)      forward model of that state
   grad, prox       data-fidelity gradient and proximal map of that state
   L2(k), prior(k)  misfit and prior of that state
   delta(k)         step size after k transitions;  accepted(k)  acceptance of transition k
state(k+1), delta(k+1), accepted(k) are *defined* as what the code leaves behind at the end of iteration k; the others
are the (pure, otherwise arbitrary) operators applied to state(k+1).  The loop invariant ties the code's variables and
tracking arrays to the families; the laws the families satisfy are then proved for a generic iteration.
"""
from .common import *
from pxv import npshim
from pxv.hooks import Hook
from pxv.loops import Closed, Free, FreeContent, Append, Def, MISSING, eq_goals, havoc_like
from pxv.arrays import EF, simp

INT, REAL = core.INT, core.REAL
# saving schedule: rows saved after k transitions, and number of transitions behind row r
F_saved = z3.Function("saved", INT, INT)
F_trans = z3.Function("transitions_of_row", INT, INT)
F_kappa = z3.Function("state_of_row", INT, INT)
F_jv = z3.Function("rows_written", INT, INT)
QUANT = {"logposterior": "logPi", "predictions": "preds", "chain": "chain", "L2": "L2s", "prior": "priors"}


class Fam:
    """family of vectors (or scalars, size None) indexed by k"""

    def __init__(self, name, size, kind):
        self.name, self.size, self.kind = name, size, kind
        ar = (INT,) if size is None else (INT, INT)
        self.fs = [z3.Function(name + s, *ar, REAL) for s in (("_re", "_im") if kind == "c" else ("",))]

    def at(self, k, i=None):
        return tuple(f(k) if i is None else f(k, i) for f in self.fs)

    def val(self, k):
        if self.size is None:
            return Sc(self.kind, self.at(k), True)
        return mat((it(self.size),), self.kind, lambda idx: self.at(k, idx[0]))

    def which(self, x):
        """t with x == self.val(t), syntactically"""
        if self.size is None or not isinstance(x, SArr) or x.ndim != 1 or x.kind != self.kind:
            return None
        b = z3.Int("$probe")
        e = x.read((b,))
        t = None
        for f, c in zip(self.fs, e):
            c = z3.simplify(c)
            if not (z3.is_app(c) and c.decl().eq(f) and c.arg(1).eq(b)):
                return None
            if t is not None and not t.eq(c.arg(0)):
                return None
            t = c.arg(0)
        if any(q.eq(b) for q in _consts(t)):
            return None
        return t

    def define(self, p, k, v):
        """self.val(k) is v from now on"""
        if self.size is None:
            s = lift(v)
            for f, c in zip(self.fs, cast(s.e, s.kind, self.kind)):
                p.trigs.append((f.name(), lambda args, f=f, c=c: z3.Implies(args[0] == k, f(args[0]) == c)))
                p.add(f(k) == c)
            return
        g, kd = v.snap(), v.kind
        for n, f in enumerate(self.fs):
            p.trigs.append((f.name(), lambda args, f=f, n=n: z3.Implies(args[0] == k, f(*args) == cast(g((args[1],)), kd, self.kind)[n])))


def _consts(t):
    out, st = [], [t]
    while st:
        x = st.pop()
        if z3.is_app(x):
            if x.num_args() == 0:
                out.append(x)
            st += x.children()
    return out


class FamFun(VFun):
    """abstract operator; on a member of family `src` it is the same member of family `dst`"""

    def __init__(self, name, n_out, kind, n_in, src=None, dst=None):
        VFun.__init__(self, name, n_out, kind, n_in)
        self.src, self.dst = src, dst

    def spec(self, x):
        if self.src is not None:
            t = self.src.which(x)
            if t is not None:
                return self.dst.val(t)
        return VFun.spec(self, x)


def cheb(name, X, order):
    """contract of utils.chebyshev1 / cheb1der (proved in C20): T_n(x), T_n'(x); both positive for x >= 1, n >= 1 (lemma in C06)"""
    x, n = rterm(lift(X)), it(order)
    v = z3.Function(name, REAL, INT, REAL)(x, n)
    cur().axiom((name + "pos", x, n), z3.Implies(z3.And(x >= 1, n >= 1), v > 0))
    return Sc("f", (v,), False)


class Model:
    """an arbitrary inference problem and a sampler on it"""

    def __init__(self, p, algo, cplx=False, data="f", track=(), start="given", run=0, verbosity=None, stubs=None, tune=True, fold=True, unfold=()):
        self.p, self.algo, self.cplx = p, algo, cplx
        p.ghost["pilot2"] = False
        p.exact = {"forward", "gradient", "prox", "prior", "skrock", "sum"} | {f + c for f in ("forward", "gradient", "prox", "skrock") for c in ("_re", "_im")}
        kx = "c" if cplx else "f"
        kd = "c" if data == "c" or cplx else "f"
        self.kx, self.kd = kx, kd
        self.n, self.m = sym_int("nparams", 1), sym_int("ndata", 1)
        n, m = self.n, self.m
        self.data = sym_arr("data", (m,), data)
        W = z3.Function("invcov", INT, INT, REAL)
        self.W = SpM(m.t, m.t, "f", lambda i, j: (W(i, j),))
        self.lmda, self.delta0, self.mu = sym_real("lmda"), sym_real("delta"), sym_real("mu")
        p.assume(z3.And(self.lmda.t > 0, self.delta0.t > 0))
        self.ns, self.nburn, self.ngap = sym_int("nsamples", 1), sym_int("nburn", 0), sym_int("ngap", 0)
        self.verb = sym_int("verbosity", 0) if verbosity is None else verbosity
        self.g = t_ite(self.ngap.t == 0, z3.IntVal(1), self.ngap.t)
        self.s = sym_int("s", 1)
        self.track = list(track)
        self.fw = FamFun("forward", m, kd, n)
        self.gr = FamFun("gradient", n, kx, m)
        self.px = FamFun("prox", n, kx, n)
        self.folded = {}
        self.tuned = []
        self.forward = Obj(forward=self.fw, calc_gradg=self.gr, nparams=n, data=self.data, invcov=self.W)
        self.prior = Obj(prior=self.prior_of, proxf=self.px)
        self.families("")
        st = dict(stubs or {})
        if algo == "SKROCK":
            st.setdefault("mcmc.SKROCK.chain_step", (("self", "X"), self.skrock_step))
        if fold:
            st.setdefault("mcmc.PxMCMC.logpi", (("self", "X", "preds"), self.fold_logpi))
            st.setdefault("mcmc.PxMALA.calc_logtransition", (("self", "X1", "X2", "proxf", "gradg"), self.fold_number))
            st.setdefault("mcmc.PxMALA._tune_delta", (("self", "i"), self.fold_delta))
        for u in unfold:
            for q in [q for q in st if q.endswith("." + u)]:
                del st[q]
        st.setdefault("utils.chebyshev1", (("X", "order"), lambda orig, X, order: cheb("cheb1", X, order)))
        st.setdefault("utils.cheb1der", (("X", "order"), lambda orig, X, order: cheb("cheb1der", X, order)))
        self.mod = world(st).load("pxmcmc.mcmc")
        self.params = self.mod.PxMCMCParams(lmda=self.lmda, delta=self.delta0, s=self.s, mu=self.mu, nsamples=self.ns, nburn=self.nburn, ngap=self.ngap,
                                            complex=cplx, verbosity=self.verb, track=PList(list(track)))
        kw = dict(tune_delta=tune) if algo == "PxMALA" else {}
        self.tune = tune
        self.sampler = ok(p, f"{algo}()", attempt(getattr(self.mod, algo), self.forward, self.prior, self.params, **kw))
        self.start = sym_arr("start", (n,), kx) if start == "given" else None

    def families(self, tag):
        p, n, m, kx, kd = self.p, self.n, self.m, self.kx, self.kd
        self.S, self.FS = Fam("state" + tag, n, kx), Fam("preds" + tag, m, kd)
        self.GS, self.PX = Fam("grad" + tag, n, kx), Fam("prox_of" + tag, n, kx)
        kl = "c" if kd == "c" else "f"
        self.L2, self.PR = Fam("misfit" + tag, None, kl), Fam("prior_of" + tag, None, "f")
        self.D = Fam("delta_after" + tag, None, "f")
        self.A = z3.Function("accepted" + tag, INT, INT)
        self.fw.src, self.fw.dst = self.S, self.FS
        self.gr.src, self.gr.dst = self.FS, self.GS
        self.px.src, self.px.dst = self.S, self.PX

    # -- the environment's operators on arbitrary vectors
    def prior_of(self, x):
        if not isinstance(x, SArr) or x.ndim != 1 or not arrays.dim_eq(x.shp[0], self.n.t):
            raise Unsupported("prior of something else than a parameter vector")
        t = self.S.which(x)
        if t is not None:
            return self.PR.val(t)
        b = cur().bound(self.n.t)
        return Sc("f", (cur().opaque("prior", [(self.n.t, b)], list(cast(x.read((b,)), x.kind, "c"))),), False)

    def l2_of(self, preds):
        t = self.FS.which(preds)
        if t is not None:
            return self.L2.val(t)
        return self.l2_formula(preds)

    def l2_formula(self, preds):
        d = self.data - preds
        return npshim.vdot(d, self.W @ d)

    def logpi_of(self, l2, pr):
        return Sc(l2.kind, cast((t_sub(t_mul(t_neg(self.mu.t), pr.e[0]), l2.e[0]),) + ((t_neg(l2.e[1]),) if l2.kind == "c" else ()), l2.kind, l2.kind), True)

    def drift(self, x, delta):
        """(1 - d/lmda) x + (d/lmda) prox(x) - d grad(x), entrywise (re, im)"""
        X, P, G = vec(x), vec(self.px.spec(x)), vec(self.gr.spec(self.fw.spec(x)))
        lm = self.lmda.t
        return lambda i: tuple((1 - delta / lm) * a + (delta / lm) * b - delta * c for a, b, c in zip(X(i), P(i), G(i)))

    def skrock_step(self, orig, self_, X):
        """contract of SKROCK.chain_step for the run loop: some vector depending on the state and a fresh normal vector (C06 says which)"""
        p = cur()
        if not isinstance(X, SArr):
            raise Unsupported("chain_step of something else")
        z = npshim.draw("normal", self.n)
        if self.cplx:
            z = z + npshim.draw("normal", self.n) * Sc("c", (R(0), R(1)))
        return opaque_arr("skrock", [X, z], [self.n], self.kx, extra=[rterm(lift(self_.delta))])

    # -- callees are executed, and their results folded: what the property needs of them is checked at the call, the rest forgotten
    def fold_logpi(self, orig, self_, X, preds):
        r = orig(self_, X, preds)
        p = cur()
        if not (isinstance(r, tuple) and len(r) == 3 and all(is_num(v) and lift(v) is not None for v in r) and isinstance(preds, SArr) and isinstance(X, SArr)):
            return r
        t, u = self.FS.which(preds), self.S.which(X)
        l2 = self.l2_of(preds)
        pr = self.prior_of(X)
        exp = self.logpi_of(self.l2_formula(preds), pr)
        for a, b in zip(r, (exp, self.l2_formula(preds), pr)):
            a = lift(a)
            if a.kind != b.kind or not all(p._ring(x, y) for x, y in zip(a.e, b.e)):
                return r
        if t is not None and u is not None:
            return (self.logpi_of(l2, pr), l2, pr)
        sy = tuple(z3.Real(p.fresh("misfit!")) for _ in l2.e)
        for a, b in zip(sy, l2.e):
            p.add(a == b)
        self.folded[tuple(s.get_id() for s in l2.e)] = (sy, l2)
        l2 = Sc(l2.kind, sy, True)
        return (self.logpi_of(l2, pr), l2, pr)

    def fold_number(self, orig, self_, *a):
        r = orig(self_, *a)
        if is_num(r) and lift(r) is not None and lift(r).kind == "f":
            return Sc("f", (z3.Real(cur().fresh("logq!")),), True)
        return r

    def positive(self, t):
        """t > 0, seen first without looking into products"""
        s, memo, keep = z3.SolverFor("QF_LRA"), {}, []

        def ab(x):
            k = x.get_id()
            if k not in memo:
                if z3.is_rational_value(x) or z3.is_bool(x) and x.num_args() == 0:
                    memo[k] = x
                elif z3.is_app(x) and x.num_args() and (z3.is_bool(x) and z3.is_arith(x.arg(0)) or z3.is_add(x) or z3.is_sub(x) or x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_NOT, z3.Z3_OP_UMINUS)
                                                        or z3.is_mul(x) and sum(not z3.is_rational_value(c) for c in x.children()) < 2
                                                        or z3.is_div(x) and z3.is_rational_value(x.arg(1))):
                    memo[k] = x.decl()(*[ab(c) for c in x.children()])
                elif x.eq(self.lmda.t):
                    memo[k] = x
                else:
                    memo[k] = (z3.Bool if z3.is_bool(x) else z3.Int if z3.is_int(x) else z3.Real)(f"abs!{k}")
                keep.append(x)
            return memo[k]
        t = z3.simplify(t)
        s.add(self.lmda.t > 0, z3.Not(ab(t) > 0))
        return s.check() == z3.unsat or cur().check_valid(t > 0, 4000)[0] == "proved"

    def fold_delta(self, orig, self_, i):
        d0 = self_.delta
        r = orig(self_, i)
        d = self_.delta
        p = cur()
        if d is not d0 and is_num(d) and lift(d) is not None and lift(d).kind == "f" and self.positive(lift(d).e[0]):
            t = z3.Real(p.fresh("tuned!"))
            p.add(t > 0)
            self.tuned.append((t, lift(d).e[0]))
            self_.delta = Sc("f", (t,), lift(d).np)
        return r

    # -- running
    def run(self, hook, start="default"):
        p = self.p
        p.ghost["loop_hook"] = hook
        a = () if self.start is None else (self.start,)
        r = attempt(self.sampler.run, *a)
        p.ghost["loop_hook"] = None
        return r

    def again(self, tag):
        """a second run of the same sampler, from another start point"""
        self.start = sym_arr(tag + "start", (self.n,), self.kx) if self.start is not None else None
        self.families(tag)

    def initial(self):
        """the state the chain starts from"""
        return self.start


class RowBuf(Def):
    """tracking array: rows already saved hold the quantity of their state, the others are as before the run"""
    name = "saved rows"

    def __init__(self, loc, hook, elem, entry):
        self.loc, self.hook, self.elem, self.entry = loc, hook, elem, entry

    def value(self, k, cut):
        h, el, entry = self.hook, self.elem, self.entry

        def fn(x):
            r = x[0]
            c = t_and(t_cmp("ge", r, I0), t_cmp("lt", r, h.saved(k)))
            v = el(h.row(r), x[1:])
            return tuple(t_ite(c, a, b) for a, b in zip(v, entry(x)))
        return EF(fn)

    def check(self, k1, v, cut):
        p = cur()
        x = tuple(p.bound(s) for s in self.loc.ref.shape)
        exp = self.value(k1, cut)
        return [a == b for a, b in zip(v(x), exp(x))]


class MaybeBound(Def):
    name = "bound once a row is saved"

    def __init__(self, loc, cond, samples):
        self.loc, self.cond, self.samples = loc, cond, samples

    def value(self, k, cut):
        p = cur()
        if cut.phase == "exit" and self.loc.kind == "L" and self.loc.name not in cut.info["live"]:
            return MISSING
        if p.fork(self.cond(k)):
            return havoc_like(self.samples, self.loc, k, None)
        return MISSING

    def check(self, k1, v, cut):
        return [t_not(self.cond(k1))] if v is MISSING else []


class RunHook(Hook):
    """free=True: rows are described by the state they were taken from, whenever that was (C01);
    free=False: rows follow the saving schedule (C02)"""

    def __init__(self, mdl, free=False, final=None, variant=False):
        self.m, self.free, self.final_, self.variant = mdl, free, final, variant
        self.cut = None
        self.V = self.J = None

    # -- schedule
    def saved(self, k):
        return F_jv(k) if self.free else F_saved(k)

    def row(self, r):
        return F_kappa(r) if self.free else F_trans(r)

    def step_facts(self, k):
        """lemma "saving schedule" (proved in C02) at k"""
        m = self.m
        b, ng = m.nburn.t, m.ngap.t
        k1 = simp(t_add(k, I1))
        hit = z3.And(k >= b, z3.Or(ng == 0, t_divmod(t_sub(k, b), ng)[1] == 0))
        J, J1 = F_saved(k), F_saved(k1)
        quo = t_ite(ng == 0, t_sub(k, b), t_divmod(t_sub(k, b), ng)[0])
        return [J >= 0, z3.Implies(k <= b, J == 0), z3.Implies(hit, J == quo), z3.Implies(k > b, J >= 1), z3.Implies(k1 > b, J1 >= 1),
                z3.Implies(hit, z3.And(J1 == J + 1, F_trans(J) == k1)), z3.Implies(z3.Not(hit), J1 == J)]

    def claims(self, cut):
        if self.cut is not None:
            return False
        self.cut = cut
        if cut.n is not None:       # a fixed number of iterations says nothing without the saving schedule
            self.free = False
        return True

    def attr_of(self, loc):
        """name of the sampler attribute whose content this buffer or list is"""
        for a, v in self.m.sampler.__dict__.items():
            if isinstance(v, SArr) and v.buf is loc.ref and v.vmap is None:
                return a
            if v is loc.ref:
                return a
        return None

    def define(self, cut):
        p, m = cur(), self.m
        m.entry_delta = m.sampler.delta
        self.todo = {}
        x0 = None
        for loc in list(cut.defs):
            e = cut._entry_val(loc) if loc.kind in "LA" else None
            if isinstance(e, SArr) and self.V is None and self.is_start(e):
                self.V, x0 = loc, e
        if self.V is None:
            return
        # members 0 of the families
        self.x0 = x0 = mat(x0.shp, x0.kind, x0.snap(), dt=x0.buf.dt)
        f0 = m.fw.spec(x0)
        m.S.define(p, I0, x0)
        m.FS.define(p, I0, f0)
        m.GS.define(p, I0, m.gr.spec(f0))
        m.PX.define(p, I0, m.px.spec(x0))
        m.L2.define(p, I0, m.l2_of(f0))
        m.PR.define(p, I0, m.prior_of(x0))
        m.D.define(p, I0, lift(m.entry_delta))
        LP = lambda k: m.logpi_of(m.L2.val(k), m.PR.val(k))  # noqa
        g0, p0, l0, r0 = m.gr.spec(f0), m.px.spec(x0), m.l2_of(f0), m.prior_of(x0)
        vals = [f.val for f in (m.S, m.FS, m.PX, m.GS, m.L2, m.PR, m.D)] + [LP]
        self.zero = dict(zip(vals, (x0, f0, p0, g0, l0, r0, lift(m.entry_delta), m.logpi_of(l0, r0))))
        J = self.saved
        # locals first bound inside the loop, and possibly used before that
        some = any(cut.maybe.values())
        for loc in list(cut.defs):
            if loc.kind in "LA":
                e = cut._entry_val(loc)
                if e is MISSING:
                    vs = [x["end"][loc][1] for x in cut.ends]
                    if cut.maybe.get(loc) or (some and any(v is MISSING for v in vs) and any(v is not MISSING for v in vs)):
                        self.todo[loc] = [("bound", lambda k: k > m.nburn.t), ("bound", lambda k: J(k) > 0), ("bound", lambda k: k > 0)]
                        self.next(cut, loc)
                    continue
                if loc.kind == "A" and loc.ref is m.sampler and loc.name == "delta":
                    self.todo[loc] = [m.D.val]
                elif isinstance(e, SArr):
                    self.todo[loc] = [f.val for f in (m.S, m.FS, m.PX, m.GS)]
                elif isinstance(e, tuple):
                    continue
                else:
                    le = lift(e) if is_num(e) else None
                    if le is None:
                        continue
                    if le.kind == "i":
                        continue
                    self.todo[loc] = [LP, m.L2.val, m.PR.val, m.D.val]
                self.next(cut, loc)
            elif loc.kind == "B":
                a = self.attr_of(loc)
                els = {"chain": lambda t, i: m.S.at(t, i[0]), "preds": lambda t, i: m.FS.at(t, i[0]), "logPi": lambda t, i: (LP(t).e[0],),
                       "L2s": lambda t, i: (m.L2.at(t)[0],), "priors": lambda t, i: (m.PR.at(t)[0],)}
                if a in els:
                    cut.defs[loc] = RowBuf(loc, self, els[a], cut.defs[loc].entry)
            elif loc.kind == "P":
                a = self.attr_of(loc)
                if a == "acceptance_trace":
                    cut.defs[loc] = Append(loc, cut.defs[loc].entry, lambda t: mkscalar("i", (m.A(t),)))
                    self.acc = loc
                elif a == "deltas_trace":
                    cut.defs[loc] = Append(loc, cut.defs[loc].entry, lambda t: m.D.val(simp(t_add(t, I1))))
        # integer counters: a linear closed form if there is one, otherwise the number of saved rows
        ints = [loc for loc in cut.defs if loc.kind in "LA" and isinstance(cut.defs[loc], Free) and cut._entry_val(loc) is not MISSING
                and not isinstance(cut._entry_val(loc), (str, type(None), bool)) and is_num(cut._entry_val(loc)) and lift(cut._entry_val(loc)).kind == "i"]
        self.J = None
        p.add(F_saved(I0) == 0)
        if ints:
            cut._generic_probe()
            for loc in ints:
                d = cut.closed_form(loc)
                if isinstance(d, Closed) and d.name == "counter":
                    cut.defs[loc] = d
                elif self.free:
                    if self.J is None:
                        self.J = loc
                        cut.defs[loc] = Closed(loc, lambda k: ival(F_jv(k)), cut._entry_val(loc), "rows written")
                        p.trigs.append((F_jv.name(), lambda args: F_jv(args[0]) >= 0))
                        e0 = it(cut._entry_val(loc))
                        p.add(F_jv(I0) == e0)
                else:
                    self.todo[loc] = [lambda k: ival(F_saved(k))]
                    self.next(cut, loc)
        if self.free and self.J is None:
            self.free = False

    def is_start(self, e):
        m = self.m
        if e.ndim != 1 or e.kind != m.kx or not (e.shp[0].eq(m.n.t) or cur().quick(e.shp[0] == m.n.t)):
            return False
        x = m.initial()
        if x is None:
            return "draw_laplace" in str(e.read((z3.Int("$probe"),)))
        return all(cur().check_valid(g, 2000)[0] == "proved" for g in eq_goals(e, x))

    def next(self, cut, loc):
        p = cur()
        todo = self.todo.get(loc)
        e = cut._entry_val(loc)
        while todo:
            c = todo.pop(0)
            if isinstance(c, tuple):
                cut.defs[loc] = MaybeBound(loc, c[1], cut.samples.get(loc, []))
                return
            v = c(I0)
            if isinstance(e, SArr) != isinstance(v, SArr):
                continue
            if isinstance(e, SArr) and (e.ndim != v.ndim or not all(a.eq(b) or p.quick(a == b) for a, b in zip(e.shp, v.shp)) or (e.kind != v.kind)):
                continue
            if isinstance(v, Sc) and isinstance(lift(e), Sc) and (lift(e).kind == "c") != (v.kind == "c"):
                continue
            z = self.zero.get(c)
            if z is not None:
                if isinstance(z, SArr):
                    b = (p.bound(z.shp[0]),)
                    same = e.kind == z.kind and all(p._ring(x, y) for x, y in zip(e.read(b), z.read(b)))
                else:
                    un = [(a, b) for sy, l2 in self.m.folded.values() for a, b in zip(sy, l2.e)]
                    same = lift(e).kind == lift(z).kind and all(p._ring(z3.substitute(x, *un) if un else x, y) for x, y in zip(lift(e).e, lift(z).e))
            else:
                same = all(p.check_valid(g, 3000)[0] == "proved" for g in eq_goals(e, v))
            if not same:
                continue
            cut.defs[loc] = Closed(loc, c, e, "contract family")
            return

    def dropped(self, cut, fails):
        for loc in fails:
            self.next(cut, loc)

    def state(self, cut, k):
        p, m = cur(), self.m
        if self.V is None:
            return
        for f in self.step_facts(k):
            p.add(f)
        if self.J is not None:
            p.add(F_jv(k) >= 0)
        if m.algo == "PxMALA":
            p.add(m.D.at(k)[0] > 0)      # invariant, re-established in check_rel
        if cut.phase == "generic":
            for a, b in zip(m.L2.at(k), m.l2_formula(m.FS.val(k)).e):
                p.add(a == b)

    def arrival(self, cut, k, now):
        """iteration k has ended: its end state is member k+1 of the families"""
        p, m = cur(), self.m
        if self.V is None:
            return
        k1 = simp(t_add(k, I1))
        v = self.V.get(now)
        if not (isinstance(v, SArr) and v.ndim == 1 and (v.shp[0].eq(m.n.t) or p.quick(v.shp[0] == m.n.t))):
            return
        f = m.fw.spec(v)
        m.S.define(p, k1, v)
        m.FS.define(p, k1, f)
        m.GS.define(p, k1, m.gr.spec(f))
        m.PX.define(p, k1, m.px.spec(v))
        m.L2.define(p, k1, m.l2_of(f))
        m.PR.define(p, k1, m.prior_of(v))
        d = m.sampler.__dict__.get("delta")
        if lift(d) is not None:
            m.D.define(p, k1, lift(d))
        acc = getattr(self, "acc", None)
        if acc is not None:
            st = acc.ref.copy_state()
            if len(st[2]) == 1 and lift(st[2][0]) is not None and lift(st[2][0]).kind in "ib":
                p.add(m.A(k) == cast(lift(st[2][0]).e, lift(st[2][0]).kind, "i")[0])
        if self.free and self.J is not None:
            j = self.J.get(now)
            if lift(j) is not None and lift(j).kind == "i":
                p.add(F_jv(k1) == it(j))
                p.add(z3.Implies(it(j) > F_jv(k), F_kappa(F_jv(k)) == k1))

    def check_rel(self, cut, k, k1, now):
        """the number of rows written starts at 0 or more and never decreases (so state_of_row is well defined)"""
        d = self.m.sampler.__dict__.get("delta")
        if self.m.algo == "PxMALA" and (lift(d) is None or not self.m.positive(rterm(lift(d)))):
            raise Unsupported("the step size may become zero or negative")
        if self.J is not None:
            j = lift(self.J.get(now))
            if j is None or j.kind != "i" or cur().check_valid(z3.And(F_jv(I0) >= 0, j.e[0] >= F_jv(k)), 4000)[0] != "proved":
                raise Unsupported("the row counter decreases")
        return []

    def final(self, cut, k, now):
        p = cur()
        if self.V is None:
            return
        if self.variant and cut.cond is not None:
            m = self.m
            # lemma (proved in C02): saved(k) < nsamples -> k < transitions_of_row(nsamples - 1)
            last = F_trans(simp(t_sub(m.ns.t, I1)))
            p.add(z3.Implies(F_saved(k) < m.ns.t, k < last))
            p.prove(f"{m.algo}.run: the number of iterations is bounded (the run completes)", k < last)
        if self.final_ is not None:
            self.final_(self, cut, k, now)

    def left(self, cut, N):
        p, m = cur(), self.m
        if self.V is None:
            return
        k = simp(t_sub(N, I1))
        for f in self.step_facts(k):
            p.add(z3.Implies(N > 0, f))
        last = F_trans(simp(t_sub(m.ns.t, I1)))
        p.add(z3.Implies(z3.And(N > 0, F_saved(N) >= m.ns.t, F_saved(k) < m.ns.t), N == last))
        if cut.cond is None:
            p.add(last == m.nburn.t + (m.ns.t - 1) * m.g + 1)
            p.add(z3.Implies(N == last, F_saved(N) == m.ns.t))
        self.N = N

    def known(self, p, nm):
        """the loop was recognised: it starts from the start point and its state is described by the families"""
        if self.V is None or getattr(self, "N", None) is None:
            raise Unsupported(f"{nm}: no loop over transitions starting from the start point was found")
        return True


ASSUME_SCHEDULE = True


# ------------------------------------------------------------------ random draws in a term
def draws_in(t, dist):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == "draw_" + dist:
                out.append(x)
            st += x.children()
    return sorted(out, key=lambda a: a.get_id())


def find_noise(p, res, scale, dist):
    """the draw a with res == +-scale * a, if there is one"""
    cands = draws_in(res, dist)
    for sg in (1, -1):
        for a in cands:
            if p._ring(res, t_mul(R(sg), t_mul(scale, a))):
                return a
    for sg in (1, -1):
        for a in cands[:4]:
            if p.check_valid(res == R(sg) * scale * a, 3000)[0] == "proved":
                return a
    return None


def prove_noise(p, name, i, n, parts, scale, dist, c0, c1):
    """parts (re[, im]) at generic index i are `scale` times independent fresh draws: one draw per entry and part, none used twice,
    all made between counters c0 and c1"""
    at = []
    for lab, res in zip(("", " (imaginary part)"), parts):
        a = find_noise(p, res, scale, dist)
        if a is None:
            F = npshim.DRAWS[dist]
            p.prove(f"{name}: fresh {dist} noise of the right scale{lab}", res == scale * F(c0 if lab == "" else simp(t_add(c0, I1)), i))
            return None
        p.prove(f"{name}: fresh {dist} noise of the right scale{lab}", z3.BoolVal(True))
        p.prove(f"{name}: the draw is made for this step{lab}", z3.And(a.arg(0) >= c0, a.arg(0) < c1))
        at.append(a)
    j = p.generic(n)
    pos = [(a.arg(0), a.arg(1)) for a in at]
    oth = [tuple(z3.substitute(t, (i, j)) for t in q) for q in pos]
    for x in range(len(pos)):
        for y in range(len(pos)):
            diff = z3.Not(z3.And(pos[x][0] == oth[y][0], pos[x][1] == oth[y][1]))
            if x == y:
                diff = z3.Implies(i != j, diff)
            p.prove(f"{name}: no draw is used twice", diff)
    return at


def counter_at(cut, name, k):
    for loc, d in cut.defs.items():
        if loc.kind == "G" and loc.name == name:
            return it(d.value(k, cut))
    return it(cur().ghost.get(name, ival(I0)))


def delta_at(h, cut, k):
    """step size in force at the start of iteration k"""
    m = h.m
    for loc, d in cut.defs.items():
        if loc.kind == "A" and loc.ref is m.sampler and loc.name == "delta":
            return rterm(lift(d.value(k, cut)))
    d = m.sampler.delta
    if lift(d) is None:
        raise Unsupported("step size is not a number")
    return rterm(lift(d))


def law_myula(h, cut, k, now):
    """state(k+1) = drift(state(k)) + sqrt(2 delta) w"""
    p, m = cur(), h.m
    v = h.V.get(now)
    i = p.generic(m.n.t)
    d = m.sampler.delta
    if lift(d) is None:
        raise Unsupported("step size is not a number")
    dt = rterm(lift(d))
    p.prove(f"{m.algo}: the step size is the one given", dt == m.delta0.t)
    dr = m.drift(m.S.val(k), m.delta0.t)(i)
    e = cast(v.read((i,)), v.kind, "c")
    parts = [t_sub(a, b) for a, b in zip(e, dr)]
    if not m.cplx:
        p.prove(f"{m.algo} transition: real parameters stay real", parts[1] == 0)
        parts = parts[:1]
    return prove_noise(p, f"{m.algo} transition", i, m.n.t, parts, t_sqrt(t_mul(R(2), m.delta0.t)), "normal", counter_at(cut, "rng_normal", k), it(p.ghost.get("rng_normal", ival(I0))))
