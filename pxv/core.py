"""Path exploration, obligations and the term-level arithmetic of the verifier.

A *task* is one contract to verify: a harness that builds arbitrary inputs satisfying the precondition, calls the
real function (executed by CPython on symbolic values) and states the postcondition with ``prove``.  The task is
explored path by path; a branch on a symbolic condition is decided by re-executing the harness with a longer list
of decisions.  Loops whose trip count is symbolic are cut with invariants (loops.py).  Nothing is bounded: a path
that would need unbounded unrolling is Unsupported.
"""
import time
from fractions import Fraction
import z3
from . import poly

# the getters of the z3 bindings ask for an error code after every call; they cannot fail on live terms
for _n in ("Z3_get_ast_kind Z3_inc_ref Z3_dec_ref Z3_get_sort Z3_get_sort_kind Z3_get_app_num_args Z3_get_app_arg Z3_get_app_decl Z3_get_decl_kind "
           "Z3_get_ast_id Z3_is_app Z3_to_app Z3_get_bool_value Z3_is_eq_ast Z3_app_to_ast Z3_func_decl_to_ast Z3_sort_to_ast Z3_get_decl_name").split():
    _f = getattr(z3.z3core, _n, None)
    if _f is not None and _f.__defaults__ and hasattr(_f.__defaults__[0], "Check"):
        _f.__defaults__[0].Check = lambda ctx: None

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class EngineSignal(BaseException):
    pass


class Unsupported(EngineSignal):
    """The code (or the contract) left the subset the verifier understands."""


class PathEnd(EngineSignal):
    """This path is finished (loop body verified, or infeasible)."""


import os
DEBUG = bool(os.environ.get("PXV_DEBUG"))
_SYMS = {}      # id of a term -> (the term, names of the symbols in it)
_cur = None


def cur():
    if _cur is None:
        raise Unsupported("symbolic value used outside a verification path")
    return _cur


def set_cur(p):
    global _cur
    _cur = p


# ------------------------------------------------------------------ term helpers
def num(v):
    """exact real numeral; floats are read as the decimal they print as"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float constant")
        return z3.RealVal(Fraction(repr(v)))
    raise Unsupported(f"num({v!r})")


numval = poly.numval


def to_real(t):
    if z3.is_int(t):
        v = numval(t)
        return z3.RealVal(v) if v is not None else z3.ToReal(t)
    return t


def _both(a, b):
    if z3.is_int(a) and z3.is_int(b):
        return a, b, True
    return to_real(a), to_real(b), False


def mk(v, isint):
    return z3.IntVal(int(v)) if isint and v.denominator == 1 else z3.RealVal(v)


def t_add(a, b):
    a, b, i = _both(a, b)
    x, y = numval(a), numval(b)
    if x is not None and y is not None:
        return mk(x + y, i)
    if x == 0:
        return b
    if y == 0:
        return a
    return a + b


def t_sub(a, b):
    a, b, i = _both(a, b)
    x, y = numval(a), numval(b)
    if x is not None and y is not None:
        return mk(x - y, i)
    if y == 0:
        return a
    if a.eq(b):
        return mk(Fraction(0), i)
    return a - b


def t_neg(a):
    x = numval(a)
    return mk(-x, z3.is_int(a)) if x is not None else -a


def t_mul(a, b):
    a, b, i = _both(a, b)
    x, y = numval(a), numval(b)
    if x is not None and y is not None:
        return mk(x * y, i)
    if x == 0 or y == 0:
        return mk(Fraction(0), i)
    if x == 1:
        return b
    if y == 1:
        return a
    if a.eq(b):
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and z3.is_app(a.arg(2)) and a.arg(2).decl().kind() == z3.Z3_OP_UMINUS and a.arg(2).arg(0).eq(a.arg(1)):
            a = b = a.arg(1)            # |x|^2
        elif z3.is_app(a) and a.decl().eq(F_sqrt) and sos(a.arg(0)):
            return a.arg(0)
    return a * b


def t_div(a, b):
    a, b = to_real(a), to_real(b)
    x, y = numval(a), numval(b)
    if x is not None and y is not None and y != 0:
        return z3.RealVal(x / y)
    if y == 1:
        return a
    if x == 0 and y is None and cur().known_nonzero(b):
        return a
    return a / b


def t_cmp(op, a, b):
    a, b, _ = _both(a, b)
    x, y = numval(a), numval(b)
    if x is not None and y is not None:
        return z3.BoolVal({"lt": x < y, "le": x <= y, "eq": x == y, "gt": x > y, "ge": x >= y, "ne": x != y}[op])
    if a.eq(b):
        return z3.BoolVal(op in ("le", "ge", "eq"))
    return {"lt": lambda: a < b, "le": lambda: a <= b, "eq": lambda: a == b, "gt": lambda: a > b,
            "ge": lambda: a >= b, "ne": lambda: a != b}[op]()


def t_ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        return z3.If(c, a, b)
    a, b, _ = _both(a, b)
    return z3.If(c, a, b)


def t_and(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return z3.BoolVal(False)
    return z3.BoolVal(True) if not xs else xs[0] if len(xs) == 1 else z3.And(*xs)


def t_or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return z3.BoolVal(True)
    return z3.BoolVal(False) if not xs else xs[0] if len(xs) == 1 else z3.Or(*xs)


def t_not(x):
    return z3.BoolVal(False) if z3.is_true(x) else z3.BoolVal(True) if z3.is_false(x) else z3.Not(x)


def _isq(f):
    if f < 0:
        return None
    import math
    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
    return Fraction(n, d) if n * n == f.numerator and d * d == f.denominator else None


F_sqrt = z3.Function("sqrt", REAL, REAL)
F_exp = z3.Function("exp", REAL, REAL)
F_log = z3.Function("log", REAL, REAL)
F_log10 = z3.Function("log10", REAL, REAL)
F_cos = z3.Function("cos", REAL, REAL)
F_sin = z3.Function("sin", REAL, REAL)
F_pow = z3.Function("powr", REAL, REAL, REAL)
F_pydiv = z3.Function("pydiv", INT, INT, INT)
F_pymod = z3.Function("pymod", INT, INT, INT)
PI = z3.Real("PI")


def t_sqrt(x):
    x = to_real(x)
    v = numval(x)
    if v is not None and _isq(v) is not None:
        return z3.RealVal(_isq(v))
    # sqrt(t*t) with the very same factor
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL and x.num_args() == 2 and x.arg(0).eq(x.arg(1)):
        a = x.arg(0)
        return t_ite(t_cmp("ge", a, z3.RealVal(0)), a, t_neg(a))
    r = F_sqrt(x)
    cur().axiom(("sqrt", x), z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    return r


def t_abs(x):
    v = numval(x)
    if v is not None:
        return mk(abs(v), z3.is_int(x))
    return z3.If(x >= 0, x, -x)


def t_exp(x):
    x = to_real(x)
    if numval(x) == 0:
        return z3.RealVal(1)
    r = F_exp(x)
    p = cur()
    if p.axiom(("exp", x), r > 0):
        p.exps.append((x, r))
        for (u, l) in p.logs:
            p.axiom(("explog", x, u), z3.Implies(u > 0, z3.And((u < r) == (l < x), (u <= r) == (l <= x), (u == r) == (l == x))))
        for (y, q) in p.exps[:-1]:
            p.axiom(("expmono", x, y), z3.And((x < y) == (r < q), (x == y) == (r == q)))
        p.axiom(("exp1", x), z3.And((x < 0) == (r < 1), (x == 0) == (r == 1)))
    return r


def t_log(x):
    x = to_real(x)
    if numval(x) == 1:
        return z3.RealVal(0)
    r = F_log(x)
    p = cur()
    if p.axiom(("log", x), z3.Implies(x > 0, z3.And((x < 1) == (r < 0), (x == 1) == (r == 0)))):
        p.logs.append((x, r))
        for (y, e) in p.exps:
            p.axiom(("explog", y, x), z3.Implies(x > 0, z3.And((x < e) == (r < y), (x <= e) == (r <= y), (x == e) == (r == y))))
        for (y, q) in p.logs[:-1]:
            p.axiom(("logmono", x, y), z3.Implies(z3.And(x > 0, y > 0), z3.And((x < y) == (r < q), (x == y) == (r == q))))
    return r


def t_pi():
    cur().axiom(("pi",), z3.And(PI > z3.RealVal("3.14159"), PI < z3.RealVal("3.14160")))
    return PI


def _trig_canon(x):
    """x as rational multiple of pi, if it is one"""
    n = poly.Norm()
    try:
        nm, d = n.norm(x)
    except poly.TooBig:
        return None
    if not nm:
        return Fraction(0)
    if len(nm) == 1 and len(d) == 1 and () in d:
        (m, c), = nm.items()
        if len(m) == 1 and m[0][1] == 1 and n.terms[m[0][0]].eq(PI):
            return c / d[()]
    return None


_COS = {Fraction(0): 1, Fraction(1): -1, Fraction(1, 2): 0, Fraction(3, 2): 0}


def t_cos(x):
    x = to_real(x)
    q = _trig_canon(x)
    if q is not None and (q % 2) in _COS:
        return z3.RealVal(_COS[q % 2])
    r = F_cos(x)
    p = cur()
    if p.axiom(("cos", x), z3.And(r >= -1, r <= 1, z3.Implies(x == 0, r == 1), z3.Implies(x == PI, r == -1))):
        t_pi()
        for y, c in p.coss:
            p.axiom(("cosm", x, y), z3.And(
                z3.Implies(z3.And(x >= 0, x <= y, y <= PI), r >= c), z3.Implies(z3.And(y >= 0, y <= x, x <= PI), c >= r)))
        p.coss.append((x, r))
    return r


def t_sin(x):
    x = to_real(x)
    q = _trig_canon(x)
    if q is not None and ((q - Fraction(1, 2)) % 2) in _COS:
        return z3.RealVal(_COS[(q - Fraction(1, 2)) % 2])
    r = F_sin(x)
    p = cur()
    if p.axiom(("sin", x), z3.And(r >= -1, r <= 1, z3.Implies(x == 0, r == 0))):
        t_pi()
        p.axiom(("sinpos", x), z3.Implies(z3.And(x >= 0, x <= PI), r >= 0))
    return r


def t_pow(x, y):
    v = numval(y)
    if v is not None and v.denominator == 1 and abs(v) <= 8:
        n = int(abs(v))
        r = z3.IntVal(1) if z3.is_int(x) and v >= 0 else z3.RealVal(1)
        for _ in range(n):
            r = t_mul(r, x)
        return r if v >= 0 else t_div(z3.RealVal(1), r)
    if v == Fraction(1, 2):
        return t_sqrt(x)
    if v is not None and v < 0:
        return t_div(z3.RealVal(1), t_pow(x, z3.RealVal(str(-v))))
    x, y = to_real(x), to_real(y)
    r = F_pow(x, y)
    cur().axiom(("pow", x, y), z3.And(z3.Implies(x > 0, r > 0), z3.Implies(z3.And(x >= 1, y >= 0), r >= 1),
                                      z3.Implies(y == 0, r == 1), z3.Implies(y == 1, r == x), z3.Implies(y == 2, r == x * x)))
    return r


def t_trunc(x):
    if z3.is_int(x):
        return x
    v = numval(x)
    if v is not None:
        return z3.IntVal(int(v))
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def t_floor(x):
    return x if z3.is_int(x) else z3.ToInt(x)


def _exact_div(p, a, y):
    """(q, r) when a = y*q + c with constant c by its polynomial form"""
    N = p.norm0
    try:
        nm, den = N.norm(to_real(a))
    except poly.TooBig:
        return None
    if den != N.ONE:
        return None
    q, c0 = z3.IntVal(0), 0
    for m, c in nm.items():
        if c.denominator != 1:
            return None
        if not m:
            c0 = int(c)
            continue
        if int(c) % y:
            return None
        t = z3.IntVal(int(c) // y)
        for k, e in m:
            x = N.terms[k]
            if not z3.is_int(x):
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
                    x = x.arg(0)
                else:
                    return None
            for _ in range(e):
                t = t_mul(t, x)
        q = t_add(q, t)
    return t_add(q, z3.IntVal(c0 // y)), z3.IntVal(c0 % y)


def t_divmod(a, b):
    """python floor division of ints; b != 0 is the caller's business"""
    x, y = numval(a), numval(b)
    if x is not None and y is not None:
        return z3.IntVal(int(x) // int(y)), z3.IntVal(int(x) % int(y))
    if y == 1:
        return a, z3.IntVal(0)
    p = cur()
    hit = p.split_lookup(a, b)
    if hit is not None:
        return hit
    if y is not None and y > 0:
        e = _exact_div(p, a, int(y))
        return e if e is not None else (a / b, a % b)
    q, r = F_pydiv(a, b), F_pymod(a, b)
    p.axiom(("divmod", a, b), z3.And(z3.Implies(b > 0, z3.And(a == b * q + r, r >= 0, r < b)),
                                     z3.Implies(b < 0, z3.And(a == b * q + r, r <= 0, r > b))))
    if p.axiom(("divmodr", a, b), z3.Implies(b > 0, z3.And(z3.Implies(a >= 0, q >= 0), z3.Implies(a < b, q <= 0)))):
        p.divs.append((a, b, q, r))
    p.split_register(a, b, q, r)
    return q, r


# functions whose axioms must be stated again for terms obtained by substitution
REAX = {"sqrt": t_sqrt, "exp": t_exp, "log": t_log, "cos": t_cos, "sin": t_sin, "powr": t_pow, "pydiv": t_divmod, "pymod": t_divmod}


# ------------------------------------------------------------------ obligations
class Ob:
    __slots__ = ("name", "status", "backend", "secs", "detail", "model", "decisions")

    def __init__(self, name, status, backend, secs, detail="", model=None, decisions=()):
        self.name, self.status, self.backend, self.secs, self.detail, self.model = name, status, backend, secs, detail, model
        self.decisions = tuple(decisions)


def _cp(v):
    return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else set(v) if isinstance(v, set) else v


def sos(t):
    """structurally a sum of squares (with non-negative numerals)"""
    v = numval(t)
    if v is not None:
        return v >= 0
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        return all(sos(c) for c in t.children())
    if k == z3.Z3_OP_MUL:
        ch = t.children()
        if len(ch) == 2 and ch[0].eq(ch[1]):
            return True
        return all(sos(c) for c in ch)
    if t.decl().name() in ("sqrt", "exp"):
        return True
    return False


_NARY = {z3.Z3_OP_ADD: lambda ch: z3.Sum(ch) if len(ch) != 2 else ch[0] + ch[1], z3.Z3_OP_MUL: lambda ch: _prod(ch),
         z3.Z3_OP_AND: lambda ch: z3.And(*ch), z3.Z3_OP_OR: lambda ch: z3.Or(*ch), z3.Z3_OP_SUB: lambda ch: _subl(ch),
         z3.Z3_OP_DISTINCT: lambda ch: z3.Distinct(*ch), z3.Z3_OP_EQ: lambda ch: ch[0] == ch[1]}


def _prod(ch):
    r = ch[0]
    for c in ch[1:]:
        r = r * c
    return r


def _subl(ch):
    r = ch[0]
    for c in ch[1:]:
        r = r - c
    return r


HEAVY = {"hyp", "sqrt", "exp", "explog", "expmono", "exp1", "log", "logmono", "pi", "cos", "cosm", "sin", "sinpos", "pow"}
SPECIAL = {"sqrt", "exp", "log", "cos", "sin", "powr", "PI"}


class Dual:
    """the path's solver, next to one without the axioms of the special functions: those define new symbols only, so
    a query in which (and in whose path condition) no special function occurs is decided by the light one"""

    def __init__(self, timeout):
        self.h, self.l = z3.Solver(), z3.Solver()
        self.set("timeout", timeout)

    def set(self, k, v):
        self.h.set(k, v)
        self.l.set(k, v)

    def push(self):
        self.h.push()
        self.l.push()

    def pop(self):
        self.h.pop()
        self.l.pop()

    def add(self, f, heavy=False):
        self.h.add(f)
        if not heavy:
            self.l.add(f)

    def check(self, light=False):
        return (self.l if light else self.h).check()


class Path:
    FORK_TIMEOUT = 1500
    PROVE_TIMEOUT = 15000
    SAVED = ("_nz", "splits", "instances_l", "qfacts", "trigs", "idx_terms", "masks", "ghost", "onces", "imprecise",
             "frozen_notes")

    def __init__(self, task, prefix):
        self.task, self.prefix = task, list(prefix)
        self.serial = task.next_serial()
        self.decisions = []
        self.solver = Dual(self.FORK_TIMEOUT)
        self.heavy = set()
        self._special = {}
        self.facts = []          # path condition and definitions (popped with their scope)
        self.axioms = []         # instances of universally valid facts (never popped)
        self.ctr = {}
        self.axset = {}
        self.exps, self.logs, self.coss, self.divs = [], [], [], []
        self.idx_terms = []
        self.qfacts = []
        self.trigs = []
        self.pdefs = set()
        self.derived = set()    # facts that follow from the others
        self.ptrigs = []        # definitions with explicit parameters: valid in every scope
        self.witness_of = {}    # decl name -> fn(args): an index at which the function is known to be interesting
        self.masks = []
        self.instances_l = []
        self.opaques = {}
        self.odefs = {}
        self.modseen = set()
        self.exact = set()       # functions whose applications are compared by the normal form of their arguments only
        self.congdepth = 0
        self.congmemo = {}
        self.bounds = {}
        self.ghost = {}
        self.splits = {}
        self.inputs = {}
        self.norm0 = poly.Norm(sqrt_ok=sos)
        self.nofork = 0
        self.speculative = 0
        self.keep = []
        self.onces = {}
        self._nz = {}
        self.imprecise = []
        self.frozen_notes = []
        self.registry = []
        self.scope = 0
        self.active = {0}
        self.nscope = 0
        self.subdec = None       # decision source of an inline loop-body exploration
        self.loopdepth = 0
        self.deps = {}
        self.objs = []
        self.splitf = []

    # -- naming
    def fresh(self, base):
        n = self.ctr.get(base, 0)
        self.ctr[base] = n + 1
        return f"{base}!{n}"

    def register(self, o):
        self.registry.append(o)

    # -- scopes
    def mark(self):
        self.nscope += 1
        m = dict(nf=len(self.facts), na=len(self.axioms), scope=self.scope, active=set(self.active),
                 saved={k: _cp(getattr(self, k)) for k in self.SAVED}, nreg=len(self.registry))
        self.scope = self.nscope
        self.active = self.active | {self.scope}
        self.solver.push()
        return m

    def restore(self, m):
        del self.facts[m["nf"]:]
        self.solver.pop()
        for f in self.axioms[m["na"]:]:
            self.solver.add(f, f.get_id() in self.heavy)
        self.scope, self.active = m["scope"], m["active"]
        for k, v in m["saved"].items():
            setattr(self, k, _cp(v))

    def commit(self, m):
        """keep the facts of the scope"""
        fs = self.facts[m["nf"]:]
        self.solver.pop()
        for f in self.axioms[m["na"]:]:
            self.solver.add(f, f.get_id() in self.heavy)
        for f in fs:
            self.solver.add(f)

    # -- facts
    def add(self, f):
        if z3.is_true(f):
            return
        self.facts.append(f)
        h = False
        if self.exact and any(n == "draw_uniform" or n.startswith("misfit") for n in self._syms(f)):
            h = True
            self.heavy.add(f.get_id())
            self.keep.append(f)
        self.solver.add(f, h)

    assume = add

    def axiom(self, key, f):
        k = tuple(x.get_id() if isinstance(x, z3.AstRef) else x for x in key)
        if k in self.axset:
            return False
        self.axset[k] = key
        self.keep.append(key)
        if not z3.is_true(f):
            self.axioms.append(f)
            h = key[0] in HEAVY or (bool(self.exact) and key[0] in ("divmod", "divmodr"))
            if h:
                self.heavy.add(f.get_id())
            self.solver.add(f, h)
        return True

    def special(self, t):
        k = t.get_id()
        r = self._special.get(k)
        if r is None:
            r = self._special[k] = (bool(self._syms(t) & SPECIAL), t)
        return r[0]

    def light(self, goal):
        return not self.special(goal) and (bool(self.exact) or not any(self.special(f) for f in self.facts))

    def once(self, key):
        k = tuple(x.get_id() if isinstance(x, z3.AstRef) else x for x in key)
        if k in self.onces:
            return False
        self.onces[k] = key
        return True

    def known_nonzero(self, t):
        k = t.get_id()
        if k not in self._nz:
            self._nz[k] = (self.quick(t != 0), t)
        return self._nz[k][0]

    def known_nonneg(self, t):
        k = ("nn", t.get_id())
        r = self._nz.get(k)
        if r is None or (not r[0] and r[2] != len(self.facts)):
            r = self._nz[k] = (self.quick(t >= 0, 400), t, len(self.facts))
        return r[0]

    # -- index constants
    def bound(self, n):
        """constant standing for an arbitrary index below n"""
        nm = self.fresh("b!")
        b = z3.Int(nm)
        self.bounds[nm] = z3.Implies(n > 0, z3.And(b >= 0, b < n)) if numval(n) is None else z3.And(b >= 0, b < n)
        return b

    def generic(self, n, base="g!"):
        b = z3.Int(self.fresh(base))
        self.add(z3.And(b >= 0, b < n))
        self.idx_terms.append(b)
        return b

    def consts_of(self, t):
        """index-like constants occurring in t, in order"""
        r = self.deps.get(t.get_id())
        if r is None:
            out, seen, st = [], set(), [t]
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(x) and x.decl().name()[:2] in ("b!", "g!", "k!"):
                        out.append(x)
                    st += reversed(x.children())
            r = (out, t)
            self.deps[t.get_id()] = r
        return r[0]

    def has_bound(self, t):
        return any(c.decl().name()[:2] == "b!" for c in self.consts_of(t))

    def _bfacts(self, *ts):
        out, seen = [], set()
        todo = list(ts)
        while todo:
            t = todo.pop()
            for c in self.consts_of(t):
                n = c.decl().name()
                if n not in seen:
                    seen.add(n)
                    if n in self.bounds:
                        out.append(self.bounds[n])
                        todo.append(self.bounds[n])
        return out

    # -- opaque functions of index-abstracted arguments
    def opaque_decl(self, name, dims, bodies, extra=(), out=(), sort="f"):
        """-> (decl or const, params).  dims: [(n, bound const)]; equal arguments give the same function."""
        bs = [b for _, b in dims]
        bnames = {b.decl().name() for b in bs}
        params, seen = [], set()
        for t in list(bodies) + [n for n, _ in dims] + list(extra):
            for c in self.consts_of(t):
                n = c.decl().name()
                if n not in bnames and n not in seen:
                    seen.add(n)
                    params.append(c)
        sub = [(b, z3.Int(f"$b{i}")) for i, b in enumerate(bs)] + [(q, z3.Int(f"$p{i}")) for i, q in enumerate(params)]
        N = self.norm0
        can = lambda t: N.key(z3.substitute(t, *sub) if sub else t)  # noqa
        key = (name, sort, len(out), tuple(can(n) for n, _ in dims), tuple(can(t) for t in bodies), tuple(can(t) for t in extra))
        d = self.opaques.get(key)
        new = d is None
        if new:
            nm = self.fresh(name + "!")
            srt = {"f": REAL, "i": INT, "b": BOOL}[sort]
            d = z3.Function(nm, *([INT] * (len(params) + len(out))), srt) if params or out else z3.Const(nm, srt)
            self.opaques[key] = d
            self.odefs[nm] = (name, list(dims), list(bodies), list(extra), list(params), len(out))
        inst = (name, sort, len(out), list(dims), list(bodies), list(extra), d, params)
        ikey = (id(d),) + tuple(q.get_id() for q in params)
        if not any(i[0] == ikey for i in self.instances_l):
            for ik, other in self.instances_l:
                if other[6] is d or other[0] != name or name in self.exact:
                    continue
                if self._same_args(inst, other):
                    self._link(inst, other)
                elif self._same_family(inst, other):
                    self._link_family(inst, other)
            self.instances_l.append((ikey, inst))
        return d, params

    def _same_args(self, a, b):
        if a[0] != b[0] or a[1] != b[1] or a[2] != b[2] or len(a[3]) != len(b[3]) or len(a[4]) != len(b[4]) or len(a[5]) != len(b[5]):
            return False
        for (n1, _), (n2, _) in zip(a[3], b[3]):
            if not (n1.eq(n2) or self.quick(n1 == n2, 400)):
                return False
        for x, y in zip(a[5], b[5]):
            if not (x.eq(y) or self.quick(x == y, 400)):
                return False
        sub = [(b2, b1) for (_, b1), (_, b2) in zip(a[3], b[3])]
        for x, y in zip(a[4], b[4]):
            y = z3.substitute(y, *sub) if sub else y
            if not x.eq(y) and not self.equal_terms(x, y):
                if a[0] in ("sum", "off", "piece", "argmax") or not z3.is_arith(x) or not self.holds(x == y, 3000):
                    return False
        return True

    def _same_family(self, a, b):
        """equal as functions of their (bound) parameters"""
        pa, pb = a[7], b[7]
        if not pa or len(pa) != len(pb) or all(x.eq(y) for x, y in zip(pa, pb)):
            return False
        if not all(x.decl().name().startswith("b!") for x in pa + pb):
            return False
        for x, y in zip(pa, pb):
            bx, by = self.bounds[x.decl().name()], self.bounds[y.decl().name()]
            if not z3.simplify(z3.substitute(by, (y, x))).eq(z3.simplify(bx)):
                return False
        sub = list(zip(pb, pa))
        sb = lambda t: z3.substitute(t, *sub)  # noqa
        b2 = (b[0], b[1], b[2], [(sb(n), c) for n, c in b[3]], [sb(t) for t in b[4]], [sb(t) for t in b[5]], b[6], pa)
        return self._same_args(a, b2)

    def _link_family(self, a, b):
        for d1, d2, p1 in ((a[6], b[6], a[7]), (b[6], a[6], a[7])):
            def fn(args, d1=d1, d2=d2, p1=p1):
                sub = list(zip(p1, args))
                c = [z3.substitute(self.bounds[q.decl().name()], *sub) for q in p1]
                return z3.Implies(t_and(*c), d1(*args) == d2(*args))
            self.trigs.append((d1.name(), fn))

    def equal_terms(self, x, y, timeout=600):
        g = x == y
        if z3.is_true(z3.simplify(g)):
            return True
        if z3.is_arith(x):
            dens = self.norm0.equal(x, y)
            if dens is not None and all(self._poly_nonzero(self.norm0, d) for d in dens):
                return True
        return self.quick(g, timeout, trig=True)

    def _link(self, a, b):
        da, pa, db, pb, nout = a[6], a[7], b[6], b[7], a[2]
        ap = lambda d, ps, ii: d(*ps, *ii) if isinstance(d, z3.FuncDeclRef) else d  # noqa
        if nout == 0:
            self.add(ap(da, pa, ()) == ap(db, pb, ()))
            return
        for (d1, p1), (d2, p2) in (((da, pa), (db, pb)), ((db, pb), (da, pa))):
            np1 = len(p1)

            def fn(args, d1=d1, p1=p1, d2=d2, p2=p2, np1=np1):
                c = t_and(*[x == y for x, y in zip(args[:np1], p1) if not x.eq(y)])
                return z3.Implies(c, d1(*args) == ap(d2, p2, args[np1:]))
            self.trigs.append((d1.name(), fn))

    def congruences(self, goal):
        """applications of one opaque function occurring in the goal whose (array) arguments can be shown equal"""
        if self.congdepth >= 2:
            return []
        apps, seen, st = {}, set(), [goal]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                st += x.children()
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    d = self.odefs.get(x.decl().name())
                    if d is not None and d[0] not in self.exact:
                        apps.setdefault((d[0], x.sort().name()), []).append(x)
        out = []
        for (nm, _), xs in apps.items():
            n = 0
            for i in range(len(xs)):
                for j in range(i):
                    a, b = xs[i], xs[j]
                    if a.decl().eq(b.decl()) and not self.odefs[a.decl().name()][4] and self.odefs[a.decl().name()][5] == 0:
                        continue
                    n += 1
                    if n > 10:
                        break
                    k = (a.get_id(), b.get_id(), len(self.facts))
                    if k not in self.congmemo:
                        self.congdepth += 1
                        try:
                            self.congmemo[k] = (self._cong(a, b), a, b)
                        finally:
                            self.congdepth -= 1
                    if self.congmemo[k][0]:
                        out.append(a == b)
        return out

    def _inst(self, x):
        """dims, bodies, extra of an application, at its actual arguments"""
        _, dims, bodies, extra, params, nout = self.odefs[x.decl().name()]
        args = x.children()
        sub = list(zip(params, args[:len(params)]))
        sb = lambda t: z3.substitute(t, *sub) if sub else t  # noqa
        return [(sb(n), b) for n, b in dims], [sb(t) for t in bodies], [sb(t) for t in extra], args[len(params):]

    def _cong(self, a, b):
        da, ba, ea, ia = self._inst(a)
        db, bb, eb, ib = self._inst(b)
        if len(da) != len(db) or len(ba) != len(bb) or len(ea) != len(eb) or len(ia) != len(ib):
            return False
        for x, y in list(zip([n for n, _ in da], [n for n, _ in db])) + list(zip(ea, eb)) + list(zip(ia, ib)):
            if not x.eq(y) and not self.equal_terms(x, y, 1500):
                return False
        # a common fresh index below the common bound
        fresh = [z3.Int(self.fresh("g!c")) for _ in da]
        m = self.mark()
        try:
            for (n, _), f in zip(da, fresh):
                self.add(z3.And(f >= 0, f < n))
            for x, y in zip(ba, bb):
                x = z3.substitute(x, *[(c, f) for (_, c), f in zip(da, fresh)])
                y = z3.substitute(y, *[(c, f) for (_, c), f in zip(db, fresh)])
                if not x.eq(y) and not self.equal_terms(x, y, 1500) and not self.holds(x == y, 3000):
                    return False
            return True
        finally:
            self.restore(m)

    def opaque(self, name, dims, bodies, extra=(), sort="f"):
        d, ps = self.opaque_decl(name, dims, bodies, extra, (), sort)
        return d(*ps) if ps else d

    def sum_of(self, n, b, body):
        N = self.norm0
        try:
            num_, den = N.norm(body)
            num_, den = N._reduce(num_, den)
        except poly.TooBig:
            return self._sum_atom(n, b, body)
        bn = b.decl().name()
        dep = lambda t: any(c.decl().name() == bn for c in self.consts_of(t))  # noqa
        dterm = N.to_term(den)
        if dep(dterm):
            # a product of atoms in the denominator: pull out the part free of b
            if len(den) != 1:
                return self._sum_atom(n, b, body)
            (dm, dc), = den.items()
        else:
            dm, dc = None, None
        groups = {}
        for m, c in num_.items():
            fr = tuple((k, e) for k, e in m if not dep(N.terms[k]))
            bd = tuple((k, e) for k, e in m if dep(N.terms[k]))
            groups.setdefault(bd, {})[fr] = c
        r = z3.RealVal(0)
        for bd, fr in sorted(groups.items(), key=lambda x: repr(x[0])):
            coef = N.to_term(fr)
            if dm is not None:
                dfr = {tuple((k, e) for k, e in dm if not dep(N.terms[k])): dc}
                dbd = {tuple((k, e) for k, e in dm if dep(N.terms[k])): Fraction(1)}
                coef = t_div(coef, N.to_term(dfr))
                s = self._sum_atom(n, b, t_div(N.to_term({bd: Fraction(1)}), N.to_term(dbd)))
            elif not bd:
                s = to_real(n)
                if not self.quick(n >= 0):
                    s = z3.If(n >= 0, s, z3.RealVal(0))
            else:
                s = self._sum_atom(n, b, N.to_term({bd: Fraction(1)}))
            r = t_add(r, t_mul(coef, s))
        return r if dm is not None else t_div(r, dterm)

    def _sum_atom(self, n, b, body):
        s = self.opaque("sum", [(n, b)], [body])
        if self.once(("sumsign", s)):
            if "sum" not in self.exact and self.quick(body >= 0, 300):
                self.add(s >= 0)
            self.add(z3.Implies(n <= 0, s == 0))
        return s

    # -- satisfiability / quick validity under the path condition
    def quick(self, goal, timeout=800, trig=False):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        self.task.stats["quick"] += 1
        t0 = time.time()
        self.solver.set("timeout", timeout)
        self.solver.push()
        for f in self._bfacts(goal):
            self.solver.add(f)
        for f in self.sq_lemmas([goal]):
            self.solver.add(f)
        if trig and (self.trigs or self.ptrigs):
            for f in self.trig_instances([goal]):
                self.solver.add(f)
        self.solver.add(z3.Not(goal))
        r = self.solver.check(not trig and self.light(goal))
        self.solver.pop()
        self.solver.set("timeout", self.FORK_TIMEOUT)
        self.task.stats["solver_s"] += time.time() - t0
        return r == z3.unsat

    def feasible(self, c):
        t0 = time.time()
        self.solver.push()
        for f in self._bfacts(c):
            self.solver.add(f)
        for f in self.sq_lemmas([c]):
            self.solver.add(f)
        self.solver.add(c)
        r = self.solver.check(bool(self.exact) or self.light(c))
        self.solver.pop()
        self.task.stats["solver_s"] += time.time() - t0
        self.task.stats["feas"] += 1
        return r != z3.unsat

    def fork(self, c):
        c = z3.simplify(c) if not (z3.is_true(c) or z3.is_false(c)) else c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.has_bound(c):
            raise Unsupported("a branch depends on an index-abstracted value")
        src = self.subdec
        if src is not None:
            i = len(src.taken)
            if i < len(src.prefix):
                d = src.prefix[i]
                src.taken.append(d)
                self.add(c if d else z3.Not(c))
                return d
        else:
            i = len(self.decisions)
            if i < len(self.prefix):
                d = self.prefix[i]
                self.decisions.append(d)
                self.add(c if d else z3.Not(c))
                return d
        if time.time() > self.task.deadline:
            raise Unsupported("time budget of the task exhausted")
        if self.exact and (self.new_mod(c) or self.new_draw(c)):     # not branched on before: both ways are taken
            ft = ff = True
        else:
            ft, ff = self.feasible(c), self.feasible(z3.Not(c))
        if ft and ff:
            if self.nofork:
                raise Unsupported("a branch inside an index-abstracted computation")
            if src is not None:
                src.todo.append(tuple(src.taken) + (False,))
                src.taken.append(True)
            else:
                self.task.push(tuple(self.decisions) + (False,))
                self.decisions.append(True)
            self.add(c)
            return True
        if not ft and not ff:
            raise PathEnd("infeasible")
        (src.taken if src is not None else self.decisions).append(ft)
        self.add(c if ft else z3.Not(c))
        return ft

    def new_draw(self, c):
        """a condition on a uniform draw no earlier branch looked at"""
        if self.nofork or "draw_uniform" not in self._syms(c):
            return False
        st, new = [c], []
        while st:
            x = st.pop()
            if z3.is_app(x):
                if x.decl().name() == "draw_uniform":
                    new.append(x)
                st += x.children()
        if any(x.get_id() in self.modseen for x in new):
            return False
        for x in new:
            self.modseen.add(x.get_id())
            self.keep.append(x)
        return True

    def new_mod(self, c):
        if self.nofork:
            return False
        t = c.arg(0) if z3.is_not(c) else c
        if not (z3.is_eq(t) and any(z3.is_app(x) and x.decl().eq(F_pymod) and numval(x.arg(1)) is None for x in t.children())):
            return False
        x = [x for x in t.children() if z3.is_app(x) and x.decl().eq(F_pymod)][0]
        if x.get_id() in self.modseen:
            return False
        self.modseen.add(x.get_id())
        self.keep.append(x)
        return True

    # -- flat index bookkeeping: k = i*b + j  <->  (i, j)
    def _skey(self, a, b):
        return (self.norm0.key(a), self.norm0.key(b))

    def split_lookup(self, a, b):
        return self.splits.get(self._skey(a, b))

    def split_register(self, a, b, q, r):
        self.splits[self._skey(a, b)] = (q, r)
        self.splits[self._skey(t_add(t_mul(q, b), r), b)] = (q, r)
        self.splits[("flat",) + self._skey(q, b) + (self.norm0.key(r),)] = a

    def flat(self, q, r, b):
        """q*b + r, remembered (needs 0 <= r < b)"""
        k = self.splits.get(("flat",) + self._skey(q, b) + (self.norm0.key(r),))
        if k is not None:
            return k
        k = t_add(t_mul(q, b), r)
        if numval(k) is None:
            if self.quick(z3.And(r >= 0, r < b)):
                self.splits[self._skey(k, b)] = (q, r)
        return k

    # -- proving
    def trig_instances(self, terms, rounds=3, cap=400):
        out, done, seen = [], set(), set()
        self.truncated = False
        names = {}
        for n, fn in self.trigs + self.ptrigs:
            names.setdefault(n, []).append(fn)
        todo = list(terms)
        for fn in names.pop(None, []):
            f = fn(())
            out.append(f)
            todo.append(f)
        for _ in range(rounds):
            new = []
            for t in todo:
                st = [t]
                while st:
                    x = st.pop()
                    if x.get_id() in seen:
                        continue
                    seen.add(x.get_id())
                    self.keep.append(x)
                    if z3.is_app(x):
                        st += x.children()
                        if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                            for j, fn in enumerate(names[x.decl().name()]):
                                k = (x.get_id(), j)
                                if k not in done:
                                    done.add(k)
                                    try:
                                        f = fn(tuple(x.children()))
                                    except EngineSignal:
                                        continue
                                    if f is not None and not z3.is_true(f):
                                        new.append(f)
            out += new
            todo = new
            if not new or len(out) > cap:
                break
        if todo:
            # did the last round introduce terms whose definition was not unfolded?
            st = list(todo)
            while st and not self.truncated:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    st += x.children()
                    if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                        self.truncated = True
        return out

    def instances(self, goal_terms):
        out = []
        if self.qfacts:
            idx = list(self.idx_terms)
            for t in goal_terms:
                for c in self.consts_of(t):
                    if not any(c.eq(i) for i in idx):
                        idx.append(c)
            for arity, fn in self.qfacts:
                if arity == 1:
                    for i in idx:
                        out.append(fn(i))
                elif arity == 2:
                    for i in idx:
                        for j in idx:
                            out.append(fn(i, j))
        if self.trigs or self.ptrigs:
            out += self.trig_instances(list(goal_terms) + out)
        return [o for o in out if not z3.is_true(o)]

    def check_valid(self, goal, timeout=None, budget=None):
        """-> (status, backend, model or None)"""
        timeout = timeout or self.PROVE_TIMEOUT
        if budget is None:
            budget = [48]
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "proved", "z3-simplify", None
        if z3.is_eq(goal) and z3.is_arith(goal.arg(0)) and self._ring(goal.arg(0), goal.arg(1)):
            return "proved", "ring", None
        ite = self._find_ite(goal)
        if ite is not None and budget[0] > 0:
            c = ite
            if self.quick(c, 600):
                return self.check_valid(self._pick_ite(goal, c, True), timeout, budget)
            if self.quick(z3.Not(c), 600):
                return self.check_valid(self._pick_ite(goal, c, False), timeout, budget)
            budget[0] -= 1
            bes = set()
            for val in (True, False):
                f = c if val else z3.Not(c)
                self.solver.push()
                self.solver.add(f)
                self.facts.append(f)
                self.splitf.append(f)
                n = len(self.facts)
                try:
                    st, be, md = self.check_valid(self._pick_ite(goal, c, val), timeout, budget)
                finally:
                    del self.facts[n - 1:]
                    self.splitf.pop()
                    self.solver.pop()
                if st != "proved":
                    return st, be, md
                bes |= set(be.split("+"))
            return "proved", "+".join(sorted(bes)), None
        self.truncated = False
        extra = self.instances([goal] + self.splitf)
        trunc = self.truncated
        extra += self.congruences(goal)
        extra += self.monolemmas(goal)
        extra += self.sq_lemmas([goal] + self.splitf + extra)
        extra += self._bfacts(goal, *extra)
        t0 = time.time()
        status, backend, model = self._solve(goal, extra, timeout)
        self.task.stats["solver_s"] += time.time() - t0
        if status == "refuted" and trunc:
            status, backend = "unknown", backend + " (definitions unfolded to a bounded depth)"
        return status, backend, model

    def _ring(self, a, b):
        n = poly.Norm()
        try:
            dens = n.equal(a, b)
            if dens is None and ("sqrt" in self._syms(a) or "sqrt" in self._syms(b)):
                n = poly.Norm(sqrt_ok=lambda x: sos(x) or self.known_nonneg(x))
                dens = n.equal(a, b)
        except poly.TooBig:
            return False
        return dens is not None and all(self._poly_nonzero(n, d) for d in dens)

    def _find_ite(self, goal):
        """condition of an innermost arithmetic if-then-else"""
        seen = {}

        def walk(t):
            k = t.get_id()
            if k in seen:
                return seen[k]
            r = None
            if z3.is_app(t):
                for c in t.children():
                    r = walk(c)
                    if r is not None:
                        break
                if r is None and t.decl().kind() == z3.Z3_OP_ITE:
                    r = t.arg(0)
            seen[k] = r
            return r
        return walk(goal)

    def _pick_ite(self, goal, c, val):
        memo = {}

        def walk(t):
            k = t.get_id()
            if k in memo:
                return memo[k][1]
            r = t
            if z3.is_app(t) and t.num_args():
                if t.decl().kind() == z3.Z3_OP_ITE and t.arg(0).eq(c):
                    r = walk(t.arg(1) if val else t.arg(2))
                elif t.eq(c):
                    r = z3.BoolVal(val)
                else:
                    ch = [walk(x) for x in t.children()]
                    if any(not x.eq(y) for x, y in zip(ch, t.children())):
                        r = t.decl()(*ch) if t.decl().kind() not in _NARY else _NARY[t.decl().kind()](ch)
            memo[k] = (t, r)
            return r
        return walk(goal)

    def _poly_nonzero(self, n, d):
        g = n._mgcd(d)
        for k in g:
            t = n.terms[k]
            if not self.quick(t != 0):
                return False
        if len(d) > 1:
            # strip monomial
            r = {}
            for m, c in d.items():
                x = dict(m)
                for k, e in g.items():
                    x[k] -= e
                r[tuple(sorted((k, e) for k, e in x.items() if e))] = c
            if not self.quick(n.to_term(r) != 0, 3000):
                return False
        return True

    def sq_lemmas(self, terms):
        """valid instances of  0 <= u, u + c <= v  ->  (u + c)^2 <= v^2  for the integers squared in these terms"""
        sq, eqs, seen, st = [], [], set(), list(terms)
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                ch = x.children()
                st += ch
                if x.decl().kind() == z3.Z3_OP_MUL and z3.is_int(x):
                    at = [c for c in ch if numval(c) is None]
                    for i, a in enumerate(at):
                        if any(a.eq(b) for b in at[i + 1:]) and not any(a.eq(b) for b in sq):
                            sq.append(a)
                    if len(ch) == 2 and len(at) == 2 and not at[0].eq(at[1]):
                        d = numval(z3.simplify(at[0] - at[1]))
                        if d is not None:       # u * (u + d)
                            u, d = (at[1], int(d)) if at[1].num_args() <= at[0].num_args() else (at[0], -int(d))
                            eqs.append(x == u * u + d * u)
                            if not any(u.eq(b) for b in sq):
                                sq.append(u)
        if len(sq) < 1:
            return []
        consts = list(sq)
        out = eqs
        for u in consts:
            for v in consts:
                if u.eq(v):
                    continue
                for c in range(4):
                    out.append(z3.Implies(z3.And(u >= 0, v >= u + c), v * v >= u * u + 2 * c * u + c * c))
        for u in consts:
            out.append(z3.Implies(u >= 1, u * u >= u))
            out.append(z3.Implies(u >= 2, u * u >= 2 * u))
        return out

    def monolemmas(self, goal):
        """valid facts about products with the divisor of a floor division (helps nonlinear integer goals)"""
        out = []
        for a, b, q, r in self.divs:
            for m in self.ghost.get("multipliers", []):
                out.append(z3.Implies(z3.And(b > 0, q >= m + 1), b * q >= b * m + b))
                out.append(z3.Implies(z3.And(b > 0, q <= m - 1), b * q <= b * m - b))
                out.append(z3.Implies(q == m, b * q == b * m))
        return out

    def _solve(self, goal, extra, timeout):
        if self.exact:      # definitions alone, then with the branch conditions, before everything else
            for fs in ((), [f for f in self.facts if f.get_id() not in self.heavy]):
                s = z3.Solver()
                s.set("timeout", 1000)
                for f in extra:
                    s.add(f)
                for f in fs:
                    s.add(f)
                s.add(z3.Not(goal))
                if s.check() == z3.unsat:
                    return "proved", "z3", None
        near = self._near(goal, extra)
        if near is not None:
            s = z3.Solver()
            s.set("timeout", 300)
            for f in near:
                s.add(f)
            s.add(z3.Not(goal))
            if s.check() == z3.unsat:
                return "proved", "z3", None
        s = z3.Solver()
        s.set("timeout", min(timeout, 6000))
        for f in self.axioms:
            s.add(f)
        for f in self.facts:
            s.add(f)
        for f in extra:
            s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3", None
        if r == z3.sat:
            return "refuted", "z3", s.model()
        # second try: only facts sharing symbols, nlsat-friendly tactic
        s2 = z3.Then("simplify", "solve-eqs", "smt").solver()
        s2.set("timeout", timeout)
        for f in self._relevant(goal, extra):
            s2.add(f)
        s2.add(z3.Not(goal))
        r = s2.check()
        if r == z3.unsat:
            return "proved", "z3-relevant", None
        try:
            s3 = z3.Tactic("qfnra-nlsat").solver()
            s3.set("timeout", timeout)
            rel = self._relevant(goal, extra)
            sub = self._ackermann([*rel, z3.Not(goal)]) if len(rel) < 400 else []
            for f in sub:
                s3.add(f)
            r = s3.check()
            if r == z3.unsat:
                return "proved", "z3-nlsat", None
        except z3.Z3Exception:
            pass
        st = self._cvc5(goal, extra, timeout)
        if st == "unsat":
            return "proved", "cvc5", None
        if st == "sat":
            return "refuted", "cvc5", None
        return "unknown", "z3", None

    def _ackermann(self, fs):
        """replace arithmetic UF applications by fresh reals (sound for unsat)"""
        subs, seen = {}, set()

        def walk(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            for c in t.children():
                walk(c)
            if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_arith(t):
                if t.get_id() not in subs:
                    subs[t.get_id()] = (t, z3.Real(f"ack!{len(subs)}") if z3.is_real(t) else z3.Int(f"ack!{len(subs)}"))
        for f in fs:
            walk(f)
        pairs = list(subs.values())
        return [z3.substitute(f, *pairs) if pairs else f for f in fs]

    def _syms(self, t, acc=None):
        acc = set() if acc is None else acc
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc.add(x.decl().name())
                st += x.children()
        return acc

    def _fsyms(self, f):
        """symbols of a fact (kept while the task runs)"""
        c = _SYMS.get(f.get_id())
        if c is None:
            if len(_SYMS) > 20000:
                _SYMS.clear()
            c = _SYMS[f.get_id()] = (f, self._syms(f))
        return c[1]

    def _near(self, goal, extra):
        """the facts about the symbols that only few facts mention, if they are few"""
        facts = list(self.facts) + list(self.axioms) + list(extra)
        if len(facts) < 60:
            return None
        syms = [self._fsyms(f) for f in facts]
        count = {}
        for s in syms:
            for n in s:
                count[n] = count.get(n, 0) + 1
        want = self._syms(goal)
        more = set(want).union(*[self._syms(f) for f in self.splitf])
        near = [f for f, s in zip(facts, syms) if any(n in want and count[n] < 12 for n in s) or s <= more]
        return near if near and len(near) < len(facts) // 2 else None

    def _relevant(self, goal, extra):
        facts = list(self.facts) + list(self.axioms) + list(extra)
        syms = [self._fsyms(f) for f in facts]
        want = self._syms(goal)
        used = set()
        for _ in range(2):
            for i, s in enumerate(syms):
                if i not in used and s & want:
                    used.add(i)
            for i in used:
                if len(syms[i]) < 8:
                    want = want | syms[i]
        return [facts[i] for i in sorted(used)]

    def _cvc5(self, goal, extra, timeout):
        try:
            import cvc5
        except ImportError:
            return "unknown"
        s = z3.Solver()
        for f in self._relevant(goal, extra):
            s.add(f)
        s.add(z3.Not(goal))
        txt = "(set-logic ALL)\n" + s.to_smt2()
        try:
            tm = cvc5.TermManager()
            sl = cvc5.Solver(tm)
            sl.setOption("tlimit-per", str(timeout))
            sl.setOption("nl-cov", "true")
            ip = cvc5.InputParser(sl)
            ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = ip.getSymbolManager()
            res = "unknown"
            while True:
                c = ip.nextCommand()
                if c.isNull():
                    break
                o = str(c.invoke(sl, sm)).strip()
                if o in ("sat", "unsat", "unknown"):
                    res = o
            return res
        except Exception:
            return "unknown"

    def holds(self, goal, timeout=4000):
        """quiet validity check used by heuristics and congruence"""
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        st, _, _ = self.check_valid(goal, timeout)
        return st == "proved"

    def prove(self, name, goal, detail=""):
        """record an obligation; returns True when discharged"""
        if not isinstance(goal, z3.BoolRef):
            goal = goal.t if hasattr(goal, "t") else z3.BoolVal(bool(goal))
        t0 = time.time()
        if t0 > self.task.deadline:
            raise Unsupported("time budget of the task exhausted")
        parts = self._conjuncts(goal)
        status, backend, model, bad = "proved", set(), None, None
        for g in parts:
            st, be, md = self.check_valid(g)
            backend.add(be)
            if st != "proved":
                status, model, bad = st, md, g
                break
        ob = Ob(name, status, "+".join(sorted(backend)), time.time() - t0,
                detail if status == "proved" else f"{detail} goal: {str(bad)[:1500]}", None, self.decisions)
        if status != "proved":
            ob.model = self.concretise(model)
            if status == "refuted" and any(n.startswith("hv!") for n in self._syms(bad)):
                ob.status = "unknown"
                ob.detail += " [depends on loop state that was not summarised]"
            elif status == "refuted" and self._incomplete(bad):
                ob.status = "unknown"
                ob.detail += " [" + self._incomplete(bad) + "]"
            elif status == "refuted" and self.imprecise:
                ob.status = "unknown"
                ob.detail += " [loop state lost: " + "; ".join(self.imprecise)[:400] + "]"
        self.task.obligation(self, ob)
        return status == "proved"

    TRANSC = ("exp", "log", "cos", "sin", "powr", "arccos", "arcsin", "arctan", "tan", "sinh", "cosh")

    def _incomplete(self, g):
        """why a countermodel of this goal may be an artefact of the theory"""
        sy = self._syms(g)
        t = [n for n in sy if n in self.TRANSC]
        if t:
            return "the theory of " + ", ".join(sorted(t)) + " is incomplete"
        fam = {}
        for n in sy:
            if "!" in n and n[:2] not in ("b!", "g!", "k!"):
                fam.setdefault(n.split("!")[0], set()).add(n)
        for k, v in fam.items():
            if len(v) > 1 and k not in self.inputs:
                return f"several applications of the uninterpreted function {k}"
        return ""

    def _conjuncts(self, g):
        if z3.is_and(g):
            r = []
            for c in g.children():
                r += self._conjuncts(c)
            return r
        return [g]

    def concretise(self, model):
        out = {}
        if model is None:
            return out
        for name, v in self.inputs.items():
            try:
                out[name] = v.model_value(model)
            except Exception as e:  # noqa
                out[name] = f"? {e}"
        return out


class Task:
    """Explore all paths of one harness."""
    MAX_PATHS = 4000
    _serial = 0

    def __init__(self, name, harness, budget=300):
        self.name, self.harness = name, harness
        self.work = []
        self.obs = []
        self.stats = dict(paths=0, quick=0, feas=0, solver_s=0.0, loops_cut=0, executions=0)
        self.budget = budget
        self.deadline = time.time() + budget
        self.unsupported = []
        self.covered = 0
        self.covers = {}
        self.stubs_used = set()
        self.funcs = set()
        self.imprecise = set()
        self.wall = 0.0

    @staticmethod
    def next_serial():
        Task._serial += 1
        return Task._serial

    def push(self, prefix):
        self.work.append(tuple(prefix))

    def obligation(self, path, ob):
        if path.speculative:
            return
        self.obs.append(ob)

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    def run(self):
        _SYMS.clear()
        t0 = time.time()
        self.deadline = t0 + self.budget
        self.work = [()]
        while self.work:
            if self.stats["paths"] >= self.MAX_PATHS:
                self.unsupported.append("too many paths")
                break
            if time.time() > self.deadline:
                self.unsupported.append("time budget exhausted")
                break
            prefix = self.work.pop()
            p = Path(self, prefix)
            set_cur(p)
            self.stats["executions"] += 1
            self.stats["paths"] += 1
            try:
                self.harness(p)
                if p.solver.check() == z3.unsat:
                    self.stats["vacuous"] = self.stats.get("vacuous", 0) + 1
                else:
                    self.covered += 1
            except PathEnd:
                pass
            except Unsupported as u:
                self.unsupported.append(str(u))
                if DEBUG:
                    import traceback
                    traceback.print_exc()
            except RecursionError:
                self.unsupported.append("recursion without contract")
            finally:
                set_cur(None)
        self.wall = time.time() - t0
        return self

    @property
    def failed(self):
        return [o for o in self.obs if o.status != "proved"]
