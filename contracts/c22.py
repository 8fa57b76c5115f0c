"""C22: the saved file holds exactly the run.  h5py is modelled as a record of what was written when."""
import ast
import os
import warnings
from .common import *
from pxv import loader

QUANT = dict(logPi="logposterior", preds="predictions", chain="chain", L2s="L2s", priors="priors", acceptance_trace="acceptances", deltas_trace="deltas")
INTS = {"i1", "i2", "i4", "i8", "int8", "int16", "int32", "int64", "int", int, "u1", "uint8"}


def literals():
    """identifier-like string literals of the writer: the only names it can treat specially"""
    try:
        warnings.simplefilter("ignore")
        src = open(os.path.join(loader.REPO, "pxmcmc", "saving.py")).read()
        out = {n.value for n in ast.walk(ast.parse(src)) if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier()}
    except (OSError, SyntaxError):
        out = set()
    return sorted(out - {"mcmc", "params", "outpath", "filename"})


def traces(p):
    n, m = sym_int("ntrans", 0), sym_int("ndeltas", 1)
    fa, fd = z3.Function("accepted", core.INT, core.INT), z3.Function("steps", core.INT, core.REAL)
    p.qfacts.append((1, lambda i: z3.Or(fa(i) == 0, fa(i) == 1)))
    return PList([], (n.t, lambda j: mkscalar("i", (fa(j),)))), PList([], (m.t, lambda j: mkscalar("f", (fd(j),))))


def sampler(p, cplx, subset):
    n, m, d = sym_int("nsamples", 0), sym_int("nparams", 1), sym_int("ndata", 1)
    k = "c" if cplx else "f"
    acc, dl = traces(p)
    full = dict(logPi=sym_arr("logPi", (n,), "f"), preds=sym_arr("preds", (n, d), k), chain=sym_arr("chain", (n, m), k), L2s=sym_arr("L2s", (n,), "f"),
                priors=sym_arr("priors", (n,), "f"), acceptance_trace=acc, deltas_trace=dl)
    has = {}
    for a, v in full.items():
        if p.fork(z3.Bool("has " + a)):
            has[a] = v
    o = Obj(nsamples=n, other=sym_real("other"), **has)
    return o, has


def same_content(p, name, got, want):
    if isinstance(want, PList) and want.concrete():
        xs = list(got.items) if isinstance(got, PList) and got.concrete() else list(got) if isinstance(got, (list, tuple)) else None
        p.prove(name, z3.BoolVal(xs == list(want.items)), detail=f"stored {got!r}")
    elif isinstance(want, PList):
        got = PList(list(got)) if isinstance(got, list) else got
        if isinstance(got, SArr) and got.ndim == 1:
            i = p.generic(want.length())
            p.prove(name + ": length", got.shp[0] == want.length())
            p.prove(name + ": entry", elem(got, (i,))[0] == to_real(lift(want.at(i)).e[0]))
            return
        if not isinstance(got, PList):
            p.prove(name, z3.BoolVal(False), detail=f"stored {type(got).__name__}")
            return
        p.prove(name + ": length", got.length() == want.length())
        i = p.generic(want.length())
        a, b = lift(got.at(i)), lift(want.at(i))
        p.prove(name + ": entry", cast(a.e, a.kind, "f")[0] == cast(b.e, b.kind, "f")[0])
    elif isinstance(want, SArr):
        f, k = want.snap(), want.kind
        prove_arr(p, name, got, want.shape, lambda idx: cast(f(idx), k, "c"))
    elif is_num(want) or isinstance(want, Sc):
        if isinstance(got, SArr) or lift(got) is None:
            p.prove(name, z3.BoolVal(False), detail=f"stored {got!r}")
        else:
            w = lift(want)
            prove_num(p, name, got, cast(w.e, w.kind, "c"))
    else:
        same = got is want or (isinstance(got, PList) and got.concrete() and list(got.items) == list(want) if isinstance(want, (list, tuple)) else got == want)
        p.prove(name, z3.BoolVal(bool(same)), detail=f"stored {got!r}")


def run(p, cplx, path, fname, kwcase):
    w = world()
    sv, mc = w.load("pxmcmc.saving"), w.load("pxmcmc.mcmc")
    m, has = sampler(p, cplx, None)
    pr = dict(lmda=sym_real("lmda"), delta=sym_real("delta"), s=sym_int("s", 1), mu=sym_real("mu"), nsamples=m.nsamples, nburn=sym_int("nburn", 0), ngap=sym_int("ngap", 0),
              complex=cplx, verbosity=sym_int("verbosity", 0), track=PList(["chain", "L2"]))
    params = Obj(**pr, added_by_the_user=sym_real("added"))
    kw = {}
    if kwcase:
        kw = {"note": "text", "L": sym_int("kwL"), "weights": sym_arr("kww", (sym_int("nkw", 0),), "f"), "B": sym_real("kwB")}
        for s in literals():
            if s not in params.__dict__:
                kw[s] = sym_real("kw_" + s)
    fr = Frame(sampler=m, params=params)
    args = (m, params, path) + ((fname,) if fname else ())
    ok(p, "save_mcmc", attempt(sv.save_mcmc, *args, **kw))
    files = [f for f in p.ghost.get("h5", []) if f.mode != "r"]
    p.prove("exactly one file is written", z3.BoolVal(len(files) == 1), detail=f"{len(files)}")
    if len(files) != 1:
        return
    f = files[0]
    want = os.path.normpath(os.path.join(path, (fname or "outputs") + ".hdf5"))
    p.prove("the file is <outpath>/<filename>.hdf5", z3.BoolVal(os.path.normpath(str(f.path)) == want), detail=f"{f.path}")
    p.prove("the file is written afresh and closed", z3.BoolVal(f.mode == "w" and f.closed), detail=f"mode {f.mode}")
    p.prove("one dataset per recorded quantity and no other", z3.BoolVal(set(f.data) == {QUANT[a] for a in has}), detail=f"{sorted(f.data)} for {sorted(has)}")
    for a, v in has.items():
        if QUANT[a] in f.data:
            dt = f.dtypes[QUANT[a]]
            okdt = dt is None or (dt in INTS if a == "acceptance_trace" else dt in ("f8", "float64", "d") or (getattr(dt, "__name__", "") in ("float", "float64") and not (cplx and a in ("chain", "preds")))
                                  or getattr(dt, "__name__", "") in ("complex", "complex128"))
            p.prove(f"dataset {QUANT[a]} keeps the values' type", z3.BoolVal(bool(okdt)), detail=f"dtype {dt}")
            same_content(p, f"dataset {QUANT[a]} equals {a}", f.data[QUANT[a]], v)
    wa = dict(params.__dict__, **kw)
    p.prove("one attribute per parameter and keyword, under its own name", z3.BoolVal(set(f.attrs) == set(wa)), detail=f"{sorted(set(f.attrs) ^ set(wa))}")
    for a, v in wa.items():
        if a in f.attrs:
            same_content(p, f"attribute {a}", f.attrs[a], v)
    fr.check(p)


@variants("C22", "save_mcmc", dict(cplx=[False, True], path=["out"], fname=[None]))
def save1(p, cplx, path, fname):
    run(p, cplx, path, fname, True)


@variants("C22", "paths and names", dict(path=["", "a/b", "/abs/dir/", "."], fname=[None, "run", "x.y"]))
def save2(p, path, fname):
    for a in QUANT:
        p.assume(z3.Bool("has " + a) == z3.BoolVal(a == "chain"))
    run(p, False, path, fname, False)
