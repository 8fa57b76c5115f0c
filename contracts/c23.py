"""C23: start points are validated, inputs left untouched, parameters copied."""
from .sampling import *
from .c01 import ALL
from .c02 import one_transition

ALGOS = ("MYULA", "PxMALA", "SKROCK")
NAMES = ("lmda", "delta", "mu", "s", "nsamples", "nburn", "ngap", "complex", "verbosity", "track")


def bad_start(p, m, which):
    n = m.n
    if which == "list":
        return PList([sym_real("a"), sym_real("b")])
    if which == "tuple":
        return (1.0, 2.0)
    if which == "number":
        return sym_real("x")
    if which == "text":
        return "random"
    if which == "object":
        return Obj(size=n, shape=(n,), ndim=1)
    if which == "matrix":
        return sym_arr("start", (sym_int("r", 1), sym_int("c", 1)), m.kx)
    if which == "column":
        return sym_arr("start", (n, ival(I1)), m.kx)
    if which == "row":
        return sym_arr("start", (ival(I1), n), m.kx)
    if which == "0-d":
        return sym_arr("start", (), m.kx)
    if which == "3-d":
        return sym_arr("start", (ival(I1), n, ival(I1)), m.kx)
    if which == "wrong length":
        k = sym_int("k", 0)
        p.assume(k.t != n.t)
        return sym_arr("start", (k,), m.kx)
    raise KeyError(which)


def refusal(p, algo, which, cplx):
    m = Model(p, algo, cplx, track=ALL, verbosity=0)
    x = bad_start(p, m, which)
    o = m.sampler
    fr = Frame(params=m.params)
    for q, a in QUANT.items():
        if hasattr(o, a):
            fr.add(q, getattr(o, a))
    typ = ValueError if which == "wrong length" else TypeError
    r = attempt(o.run, x)
    refused(p, f"a start point that is a {which} is refused with {typ.__name__}" if which != "wrong length" else "a start point of the wrong length is refused with ValueError", r, typ)
    fr.check(p, "after the refusal ")


for algo in ALGOS:
    for which in ("list", "tuple", "number", "text", "object", "matrix", "column", "row", "0-d", "3-d", "wrong length"):
        task("C23", f"refused[{algo},{which}]", budget=200, algo=algo, which=which, cplx=False)(refusal)
    task("C23", f"refused[{algo},wrong length,complex]", budget=200, algo=algo, which="wrong length", cplx=True)(refusal)


def accepted(p, algo, cplx, data, track=ALL):
    m = Model(p, algo, cplx, data, track=list(track), verbosity=0)
    W0 = m.W.f
    fr = Frame(start_point=m.start, parameters=m.params, data=m.data)
    fd = dict(m.forward.__dict__)
    m.hook = h = RunHook(m, final=one_transition)
    ok(p, f"{algo}.run", m.run(h))
    h.known(p, f"{algo}.run")
    i = p.generic(m.n.t)
    p.prove("the start point is used as is", z3.And(*[a == b for a, b in zip(h.x0.read((i,)), m.start.read((i,)))]))
    fr.check(p)
    p.prove("the operator keeps its data, weights and functions", z3.BoolVal(all(m.forward.__dict__.get(a) is v for a, v in fd.items()) and set(fd) == set(m.forward.__dict__)))
    p.prove("the weights are left unmodified", z3.BoolVal(m.W.f is W0))


for algo in ALGOS:
    for cplx, data in ((False, "f"), (True, "c")):
        task("C23", f"run[{algo},{'complex' if cplx else 'real'}]", budget=500, algo=algo, cplx=cplx, data=data)(accepted)


@variants("C23", "initial sample", dict(algo=list(ALGOS), cplx=[False, True], start=["given", "drawn"]))
def initial(p, algo, cplx, start):
    """the chain's first state comes with its own predictions"""
    m = Model(p, algo, cplx, verbosity=0)
    f = getattr(m.sampler, "_initial_sample", None)
    if f is None:
        p.prove("no separate function: covered by the run", z3.BoolVal(True))
        return
    fr = Frame(start_point=m.start, params=m.params, data=m.data)
    r = ok(p, "_initial_sample", attempt(f, m.start) if start == "given" else attempt(f))
    good = isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, SArr) and x.ndim == 1 for x in r)
    if not good:
        raise Unsupported("_initial_sample does not return a state and its predictions")
    x, pr = r
    if start == "given":
        prove_arr(p, "the state is the start point", x, (m.n,), lambda idx: elem(m.start, idx))
    else:
        p.prove("the state has one entry per parameter", x.shp[0] == m.n.t)
    w = m.fw.spec(x)
    prove_arr(p, "the predictions are those of the state", pr, (m.m,), lambda idx: elem(w, idx))
    fr.check(p)


def symbols(p):
    v = dict(lmda=sym_real("lmda"), delta=sym_real("delta"), mu=sym_real("mu"), s=sym_int("s", 1), nsamples=sym_int("nsamples", 1), nburn=sym_int("nburn", 0), ngap=sym_int("ngap", 0),
             complex=False, verbosity=sym_int("verbosity", 0), track=PList(["chain", "L2"]))
    p.assume(z3.And(v["lmda"].t > 0, v["delta"].t > 0))
    return v


def same(p, a, b):
    return a is b or same_obj(p, a, b) or (isinstance(a, PList) and isinstance(b, PList) and list(a) == list(b))


@task("C23", "parameters are stored under their own names")
def stored(p):
    mod = world({}).load("pxmcmc.mcmc")
    v = symbols(p)
    for extra in NAMES:
        q = ok(p, f"PxMCMCParams({extra}=...)", attempt(mod.PxMCMCParams, **{extra: v[extra]}))
        p.prove(f"{extra} is stored under its own name", z3.BoolVal(same(p, getattr(q, extra, None), v[extra])))
    q = ok(p, "PxMCMCParams", attempt(mod.PxMCMCParams, **v))
    for a in NAMES:
        p.prove(f"{a} is stored under its own name, all given", z3.BoolVal(same(p, getattr(q, a, None), v[a])))


@variants("C23", "building a sampler copies every parameter", dict(algo=list(ALGOS), cplx=[False, True]))
def copied(p, algo, cplx):
    m = Model(p, algo, cplx, track=("chain",), verbosity=None)
    q = m.params
    q.extra = sym_real("extra")
    fr = Frame(params=q)
    o = ok(p, f"{algo}()", attempt(getattr(m.mod, algo), m.forward, m.prior, q))
    for a, v in list(q.__dict__.items()):
        p.prove(f"{a} is copied under its own name", z3.BoolVal(hasattr(o, a) and same(p, getattr(o, a), v)), detail=a)
    p.prove("the sampler keeps the operator and the prior", z3.BoolVal(o.forward is m.forward and o.prior is m.prior))
    fr.check(p)
