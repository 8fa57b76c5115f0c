"""C17: Chebyshev polynomials.  T and U are the sequences defined by the recurrence (which has exactly one solution)."""
from .common import *
from pxv.hooks import Candidates

INT, REAL = core.INT, core.REAL
F_T = z3.Function("chebT", INT, REAL, REAL)
F_U = z3.Function("chebU", INT, REAL, REAL)


def family(p):
    """definition of T and U"""
    for F, one in ((F_T, lambda x: x), (F_U, lambda x: 2 * x)):
        def fn(args, F=F, one=one):
            n, x = args
            return z3.And(z3.Implies(n == 0, F(n, x) == 1), z3.Implies(n == 1, F(n, x) == one(x)),
                          z3.Implies(n >= 2, F(n, x) == 2 * x * F(z3.simplify(n - 1), x) - F(z3.simplify(n - 2), x)))
        p.trigs.append((F.name(), fn))


def rec_stub(F, ghost):
    """the function's own contract at its recursive calls; the order must decrease"""
    def fn(orig, X, order):
        p = cur()
        o, x = lift(order), lift(X)
        if o is None or x is None or o.kind != "i" or x.kind not in "if":
            raise Unsupported("recursive call with other argument types")
        b = p.ghost.get("measure")
        if b is not None:
            p.prove("recursion terminates: 0 <= order of the recursive call < order", z3.And(o.t >= 0, o.t < b))
        if not p.fork(o.t >= 0):
            raise ValueError("order must be >= 0")
        return Sc("f", (F(o.t, rterm(x)),))
    return fn


STUBS = {"utils.chebyshev1": (("X", "order"), rec_stub(F_T, None)), "utils.chebyshev2": (("X", "order"), rec_stub(F_U, None))}


def hook(x):
    cs = []
    for c in (0, 1, 2, 3):
        for F in (F_T, F_U):
            cs.append(lambda k, c=c, F=F: F(z3.simplify(k + c), x))
    return Candidates(cs)


def setup(p, kind):
    family(p)
    u = world(STUBS).load("pxmcmc.utils")
    x = sym_real("X") if kind == "f" else sym_int("X")
    n = sym_int("order")
    p.ghost["loop_hook"] = hook(rterm(x))
    return u, x, n


def body(f):
    return getattr(f, "pxv_orig", f)


@variants("C17", "polynomial", dict(which=["chebyshev1", "chebyshev2"], kind=["f", "i"], call=["positional", "keyword"]))
def poly_(p, which, kind, call):
    u, x, n = setup(p, kind)
    p.ghost["measure"] = n.t
    f = body(getattr(u, which))
    r = attempt(f, x, n) if call == "positional" else attempt(f, X=x, order=n)
    F = F_T if which == "chebyshev1" else F_U
    if p.fork(n.t < 0):
        refused(p, "negative orders are refused", r, Exception)
    else:
        prove_num(p, f"{which}(X, n) is the n-th polynomial at X", ok(p, which, r), F(n.t, rterm(x)))


@variants("C17", "derivative", dict(kind=["f", "i"]))
def der(p, kind):
    u, x, n = setup(p, kind)
    r = attempt(u.cheb1der, x, n)
    if p.fork(n.t < 0):
        refused(p, "negative orders are refused", r, Exception)
    elif p.fork(n.t == 0):
        prove_num(p, "the derivative of T_0 is zero", ok(p, "cheb1der", r), R(0))
    else:
        prove_num(p, "cheb1der(X, n) = n U_{n-1}(X)", ok(p, "cheb1der", r), to_real(n.t) * F_U(n.t - 1, rterm(x)))


@task("C17", "lemma: T' = n U_{n-1} is consistent with the recurrences")
def lem(p):
    """d/dx of the T recurrence: D_{n+1} = 2 T_n + 2x D_n - D_{n-1} is solved by n U_{n-1}, given T_n = U_n - x U_{n-1}"""
    x, U0, U1, n = z3.Reals("x U_nm2 U_nm1 n")
    U2 = 2 * x * U1 - U0
    Tn = U2 - x * U1
    lemma(p, "(n+1) U_n = 2 T_n + 2x n U_{n-1} - (n-1) U_{n-2}", [], (n + 1) * U2 == 2 * Tn + 2 * x * n * U1 - (n - 1) * U0)
    lemma(p, "T_{n+1} = U_{n+1} - x U_n is preserved by both recurrences", [], 2 * x * Tn - (U1 - x * U0) == (2 * x * U2 - U1) - x * U2)
