"""Symbolic scalars and lists.  Floats are mathematical reals, complex numbers pairs of reals."""
from fractions import Fraction
import z3
from . import core
from .core import (Unsupported, cur, numval, num, to_real, t_add, t_sub, t_mul, t_div, t_neg, t_cmp, t_ite, t_and,
                   t_or, t_not, t_sqrt, t_abs, t_pow, t_divmod, t_trunc, t_exp, t_log, t_cos, t_sin)

KORD = {"b": 0, "i": 1, "f": 2, "c": 3}
ZERO = z3.RealVal(0)


def promote(*ks):
    return max(ks, key=lambda k: KORD[k])


# ---------------------------------------------------------------- element tuples: (re,) or (re, im)
def cast(e, k, to):
    if k == to:
        return e
    if to == "b":
        if k == "c":
            return (t_or(t_cmp("ne", e[0], ZERO), t_cmp("ne", e[1], ZERO)),)
        return (t_cmp("ne", e[0], z3.IntVal(0) if k == "i" else ZERO),)
    if k == "b":
        one, zero = (z3.IntVal(1), z3.IntVal(0)) if to == "i" else (z3.RealVal(1), ZERO)
        r = t_ite(e[0], one, zero)
        return (r, ZERO) if to == "c" else (r,)
    if to == "c":
        return (to_real(e[0]), ZERO)
    if to == "f":
        return (to_real(e[0]),)          # complex -> float drops the imaginary part, as numpy does
    if to == "i":
        return (t_trunc(e[0]),)
    raise Unsupported(f"cast {k}->{to}")


def e_add(a, b):
    return tuple(t_add(x, y) for x, y in zip(a, b))


def e_sub(a, b):
    return tuple(t_sub(x, y) for x, y in zip(a, b))


def e_mul(a, b):
    if len(a) == 1:
        return (t_mul(a[0], b[0]),)
    return (t_sub(t_mul(a[0], b[0]), t_mul(a[1], b[1])), t_add(t_mul(a[0], b[1]), t_mul(a[1], b[0])))


def e_div(a, b):
    if len(a) == 1:
        return (t_div(a[0], b[0]),)
    if numval(b[1]) == 0:
        return (t_div(a[0], b[0]), t_div(a[1], b[0]))
    d = t_add(t_mul(b[0], b[0]), t_mul(b[1], b[1]))
    return (t_div(t_add(t_mul(a[0], b[0]), t_mul(a[1], b[1])), d),
            t_div(t_sub(t_mul(a[1], b[0]), t_mul(a[0], b[1])), d))


def e_neg(a):
    return tuple(t_neg(x) for x in a)


def e_abs(a, k):
    if k == "c":
        if numval(a[1]) == 0:
            return (t_abs(a[0]),)
        if numval(a[0]) == 0:
            return (t_abs(a[1]),)
        s = t_add(t_mul(a[0], a[0]), t_mul(a[1], a[1]))
        r = t_sqrt(s)
        p = cur()
        p.axiom(("hyp", s), z3.And(s >= 0, (r == 0) == z3.And(a[0] == 0, a[1] == 0)))
        # |z| written for the same vector up to sign / scaling is found through r*r == s
        return (r,)
    return (t_abs(a[0]),)


def e_pow(a, ka, b, kb):
    """a ** b, elementwise; returns (elem, kind)"""
    v = numval(b[0]) if kb != "c" else None
    if kb == "c":
        raise Unsupported("complex exponent")
    if ka == "c":
        if v is not None and v.denominator == 1 and 0 <= v <= 8:
            r = (z3.RealVal(1), ZERO)
            for _ in range(int(v)):
                r = e_mul(r, a)
            return r, "c"
        raise Unsupported("complex power")
    if ka == "b":
        a, ka = cast(a, "b", "i"), "i"
    if kb == "b":
        b, kb = cast(b, "b", "i"), "i"
    if ka == "i" and kb == "i":
        if v is not None and v >= 0:
            return (t_pow(a[0], b[0]),), "i"
        if v is not None:
            return (t_pow(to_real(a[0]), b[0]),), "f"
        return (t_pow(to_real(a[0]), to_real(b[0])),), "f"
    return (t_pow(to_real(a[0]), b[0]),), "f"


def e_exp(a, k):
    if k == "c":
        m = t_exp(a[0])
        return (t_mul(m, t_cos(a[1])), t_mul(m, t_sin(a[1])))
    return (t_exp(cast(a, k, "f")[0]),)


def binop(op, a, ka, b, kb):
    """-> (elem, kind)"""
    if op in ("add", "sub", "mul"):
        k = promote(ka, kb)
        if k == "b":
            if op == "mul":
                return (t_and(a[0], b[0]),), "b"
            if op == "add":
                return (t_or(a[0], b[0]),), "b"
            k = "i"
        a, b = cast(a, ka, k), cast(b, kb, k)
        return {"add": e_add, "sub": e_sub, "mul": e_mul}[op](a, b), k
    if op == "div":
        k = promote(ka, kb, "f")
        return e_div(cast(a, ka, k), cast(b, kb, k)), k
    if op == "pow":
        return e_pow(a, ka, b, kb)
    if op in ("lt", "le", "gt", "ge"):
        k = promote(ka, kb)
        if k == "c":
            # numpy orders complex numbers lexicographically; python refuses
            a, b = cast(a, ka, k), cast(b, kb, k)
            strict = {"lt": "lt", "le": "lt", "gt": "gt", "ge": "gt"}[op]
            return (t_or(t_cmp(strict, a[0], b[0]), t_and(t_cmp("eq", a[0], b[0]), t_cmp(op, a[1], b[1]))),), "b"
        if k == "b":
            k = "i"
        return (t_cmp(op, cast(a, ka, k)[0], cast(b, kb, k)[0]),), "b"
    if op in ("eq", "ne"):
        k = promote(ka, kb)
        a, b = cast(a, ka, k), cast(b, kb, k)
        if k == "b":
            r = a[0] == b[0] if not (z3.is_true(b[0]) or z3.is_false(b[0])) else (a[0] if z3.is_true(b[0]) else t_not(a[0]))
        else:
            r = t_and(*[t_cmp("eq", x, y) for x, y in zip(a, b)])
        return (r if op == "eq" else t_not(r),), "b"
    if op in ("floordiv", "mod"):
        k = promote(ka, kb)
        if k in "bi":
            q, r = t_divmod(cast(a, ka, "i")[0], cast(b, kb, "i")[0])
            return (q if op == "floordiv" else r,), "i"
        if k == "f":
            x, y = cast(a, ka, "f")[0], cast(b, kb, "f")[0]
            q = core.t_floor(t_div(x, y))
            return ((to_real(q),) if op == "floordiv" else (t_sub(x, t_mul(y, to_real(q))),)), "f"
        raise Unsupported("complex floor division")
    if op in ("and", "or", "xor"):
        if ka == "b" and kb == "b":
            return ({"and": t_and, "or": t_or, "xor": z3.Xor}[op](a[0], b[0]),), "b"
        raise Unsupported("bitwise operation on integers")
    if op in ("max", "min"):
        k = promote(ka, kb)
        if k == "c":
            raise Unsupported("complex maximum")
        x, y = cast(a, ka, k)[0], cast(b, kb, k)[0]
        if k == "b":
            return ((t_or if op == "max" else t_and)(x, y),), "b"
        return (t_ite(t_cmp("ge" if op == "max" else "le", x, y), x, y),), k
    raise Unsupported(op)


# ---------------------------------------------------------------- scalars
def simplify_app(b):
    """a sufficient condition for b != 0 that needs no special-function axiom"""
    if len(b.e) == 1 and z3.is_app(b.e[0]) and b.e[0].decl().name() == "powr":
        return b.e[0].arg(0) > 0
    return None


class Sc:
    """Symbolic scalar. kind b/i/f/c; np=True for numpy scalars."""
    __slots__ = ("kind", "e", "np")
    __array_priority__ = 10

    def __init__(self, kind, e, np=False):
        self.kind, self.e, self.np = kind, e, np

    @property
    def t(self):
        return self.e[0]

    def const(self):
        """python value when the term is a numeral"""
        if self.kind == "b":
            return True if z3.is_true(self.t) else False if z3.is_false(self.t) else None
        vs = [numval(x) for x in self.e]
        if any(v is None for v in vs):
            return None
        if self.kind == "i":
            return int(vs[0])
        return vs[0] if self.kind == "f" else (vs[0], vs[1])

    # -- conversions
    def __bool__(self):
        return cur().fork(cast(self.e, self.kind, "b")[0])

    def __index__(self):
        c = self.const()
        if self.kind == "i" and c is not None:
            return c
        raise Unsupported("symbolic integer where CPython needs a concrete one")

    def __hash__(self):
        c = self.const()
        if c is None:
            raise Unsupported("hash of a symbolic value")
        return hash(c)

    def __format__(self, spec):
        if spec and spec[-1] == "d" and self.kind not in "ib":
            raise ValueError("Unknown format code 'd' for object of type 'float'")
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __repr__(self):
        return f"Sc({self.kind},{self.e})"

    def __round__(self, n=None):
        if self.kind == "i" and n is None:
            return self
        raise Unsupported("round")

    # -- arithmetic
    def _bin(self, op, o, rev=False):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        a, b = (o2, self) if rev else (self, o2)
        if op in ("lt", "le", "gt", "ge") and (a.kind == "c" or b.kind == "c") and not (a.np or b.np):
            raise TypeError(f"'{op}' not supported between instances of complex")
        np = a.np or b.np
        if op in ("div", "floordiv", "mod") and not np:
            z = cast(b.e, b.kind, "b")[0]
            q = simplify_app(b)
            if not z3.is_true(z) and not (q is not None and cur().quick(q)) and not cur().quick(z):
                if not cur().fork(z):
                    raise ZeroDivisionError("division by zero")
        e, k = binop(op, a.e, a.kind, b.e, b.kind)
        return mkscalar(k, e, np)

    def __add__(self, o): return self._bin("add", o)
    def __radd__(self, o): return self._bin("add", o, True)
    def __sub__(self, o): return self._bin("sub", o)
    def __rsub__(self, o): return self._bin("sub", o, True)
    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            raise Unsupported("sequence repetition by a symbolic count")
        return self._bin("mul", o)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            raise Unsupported("sequence repetition by a symbolic count")
        return self._bin("mul", o, True)
    def __truediv__(self, o): return self._bin("div", o)
    def __rtruediv__(self, o): return self._bin("div", o, True)
    def __floordiv__(self, o): return self._bin("floordiv", o)
    def __rfloordiv__(self, o): return self._bin("floordiv", o, True)
    def __mod__(self, o): return self._bin("mod", o)
    def __rmod__(self, o): return self._bin("mod", o, True)
    def __divmod__(self, o): return self._bin("floordiv", o), self._bin("mod", o)
    def __pow__(self, o): return self._bin("pow", o)
    def __rpow__(self, o): return self._bin("pow", o, True)
    def __lt__(self, o): return self._bin("lt", o)
    def __le__(self, o): return self._bin("le", o)
    def __gt__(self, o): return self._bin("gt", o)
    def __ge__(self, o): return self._bin("ge", o)
    def __and__(self, o): return self._bin("and", o)
    def __rand__(self, o): return self._bin("and", o, True)
    def __or__(self, o): return self._bin("or", o)
    def __ror__(self, o): return self._bin("or", o, True)
    def __xor__(self, o): return self._bin("xor", o)
    def __rxor__(self, o): return self._bin("xor", o, True)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin("eq", o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._bin("ne", o)

    def __neg__(self): return mkscalar(self.kind if self.kind != "b" else "i", e_neg(cast(self.e, self.kind, "i") if self.kind == "b" else self.e), self.np)
    def __pos__(self): return self
    def __invert__(self):
        if self.kind == "b":
            return mkscalar("b", (t_not(self.t),), self.np)
        raise Unsupported("~ on a number")

    def __abs__(self):
        if self.kind == "b":
            return mkscalar("i", cast(self.e, "b", "i"), self.np)
        return mkscalar("f" if self.kind == "c" else self.kind, e_abs(self.e, self.kind), self.np)

    # -- numpy scalar / python number attributes
    @property
    def real(self): return mkscalar("f" if self.kind == "c" else self.kind, (self.e[0],), self.np)

    @property
    def imag(self): return mkscalar("f", (self.e[1],), self.np) if self.kind == "c" else mkscalar("f", (ZERO,), self.np)

    def conjugate(self): return mkscalar("c", (self.e[0], t_neg(self.e[1])), self.np) if self.kind == "c" else self
    conj = conjugate

    def is_integer(self):
        return mkscalar("b", (z3.IsInt(self.t),)) if self.kind == "f" else True

    @property
    def shape(self):
        self._np("shape")
        return ()

    @property
    def size(self):
        self._np("size")
        return 1

    @property
    def ndim(self):
        self._np("ndim")
        return 0

    def _np(self, what):
        if not self.np:
            raise AttributeError(f"'{ {'b': 'bool', 'i': 'int', 'f': 'float', 'c': 'complex'}[self.kind]}' object has no attribute '{what}'")

    @property
    def dtype(self):
        self._np("dtype")
        from .npshim import dtype_of
        return dtype_of(self.kind)

    def item(self):
        self._np("item")
        return Sc(self.kind, self.e, False)

    def astype(self, dt, **kw):
        self._np("astype")
        from .npshim import as_dtype
        return mkscalar(as_dtype(dt).kind, cast(self.e, self.kind, as_dtype(dt).kind), True)

    def sum(self, *a, **k):
        self._np("sum")
        return self

    def copy(self):
        self._np("copy")
        return self

    def flatten(self, order="C"):
        self._np("flatten")
        from .arrays import from_list
        return from_list([self])

    ravel = flatten

    def __iter__(self):
        raise TypeError("object is not iterable")

    def __len__(self):
        raise TypeError("object has no len()")


def mkscalar(kind, e, np=False):
    if kind == "i" and not np:
        v = numval(e[0])
        if v is not None:
            return int(v)
    if kind == "b":
        if z3.is_true(e[0]):
            return True
        if z3.is_false(e[0]):
            return False
    return Sc(kind, e, np)


def lift(o):
    if isinstance(o, Sc):
        return o
    if isinstance(o, bool):
        return Sc("b", (z3.BoolVal(o),))
    if isinstance(o, int):
        return Sc("i", (z3.IntVal(o),))
    if isinstance(o, (float, Fraction)):
        return Sc("f", (num(o),))
    if isinstance(o, complex):
        return Sc("c", (num(o.real), num(o.imag)))
    from .arrays import SArr
    if isinstance(o, SArr) and o.ndim == 0:
        return Sc(o.kind, o.read(()), True)
    return None


def is_num(o):
    return isinstance(o, (Sc, bool, int, float, complex, Fraction))


def it(v):
    """integer term of an index-like value"""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Sc):
        if v.kind == "i":
            return v.t
        if v.kind == "b":
            return cast(v.e, "b", "i")[0]
        raise TypeError("only integers can be used as indices or sizes ('float' object cannot be interpreted as an integer)")
    if isinstance(v, z3.ArithRef):
        return v
    from .arrays import SArr
    if isinstance(v, SArr) and v.ndim == 0 and v.kind == "i":
        return v.read(())[0]
    raise TypeError(f"'{type(v).__name__}' object cannot be interpreted as an integer")


def ival(t):
    """python int or Sc of an integer term"""
    t = z3.simplify(t) if numval(t) is None and not z3.is_const(t) else t
    return mkscalar("i", (t,))


def rterm(v):
    """real term of a real scalar"""
    s = lift(v)
    if s is None:
        raise Unsupported(f"expected a scalar, got {type(v).__name__}")
    return cast(s.e, s.kind, "f")[0]


def sym_int(name, lo=None, hi=None):
    t = z3.Int(name)
    p = cur()
    if lo is not None:
        p.assume(t >= it(lo))
    if hi is not None:
        p.assume(t <= it(hi))
    s = Sc("i", (t,))
    p.inputs[name] = s
    return s


def sym_real(name, np=False):
    s = Sc("f", (z3.Real(name),), np)
    cur().inputs[name] = s
    return s


def sym_bool(name):
    s = Sc("b", (z3.Bool(name),))
    cur().inputs[name] = s
    return s


def sym_cplx(name, np=False):
    s = Sc("c", (z3.Real(name + "_re"), z3.Real(name + "_im")), np)
    cur().inputs[name] = s
    return s


# ---------------------------------------------------------------- lists of symbolic length
class PList:
    """python list; `items` concrete prefix, then an optional symbolic segment (n, fn(k)->value), then a concrete tail"""
    _serial = 0

    def __init__(self, items=(), seg=None, tail=()):
        self.items, self.seg, self.tail = list(items), seg, list(tail)
        p = core._cur
        if p is not None:
            p.register(self)

    def copy_state(self):
        return (list(self.items), self.seg, list(self.tail))

    def set_state(self, st):
        self.items, self.seg, self.tail = list(st[0]), st[1], list(st[2])

    def concrete(self):
        return self.seg is None

    def length(self):
        if self.seg is None:
            return z3.IntVal(len(self.items))
        return t_add(t_add(z3.IntVal(len(self.items)), self.seg[0]), z3.IntVal(len(self.tail)))

    def __len__(self):
        if self.seg is None:
            return len(self.items)
        raise Unsupported("len of a symbolic list in C code")

    def append(self, x):
        (self.items if self.seg is None else self.tail).append(x)

    def extend(self, xs):
        if isinstance(xs, PList) and not xs.concrete():
            if not self.concrete():
                raise Unsupported("extend of symbolic lists")
            self.seg, self.tail = xs.seg, []
            self.items += xs.items
            self.tail = list(xs.tail)
            return
        for x in xs:
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        r = PList(*self.copy_state())
        r.extend(o)
        return r

    def __radd__(self, o):
        return PList(list(o)) + self

    def __mul__(self, n):
        if self.concrete() and isinstance(n, int):
            return PList(self.items * n)
        if self.concrete() and len(self.items) == 1 and isinstance(n, Sc):
            x = self.items[0]
            p = cur()
            nt = it(n)
            nt = nt if p.quick(nt >= 0) else t_ite(nt >= 0, nt, z3.IntVal(0))
            return PList([], (nt, lambda k: x))
        raise Unsupported("list repetition")

    __rmul__ = __mul__

    def at(self, k):
        """element at integer term k, 0 <= k < length known"""
        v = numval(k)
        h = len(self.items)
        if v is not None and v < h:
            return self.items[int(v)]
        if self.seg is None:
            return self._pick(self.items, k)
        n, fn = self.seg
        off = t_sub(k, z3.IntVal(h))
        p = cur()
        if h and not p.quick(k >= h):
            if p.fork(k < h):
                return self._pick(self.items, k)
        if not self.tail or p.quick(off < n) or p.fork(off < n):
            return fn(off)
        return self._pick(self.tail, t_sub(off, n))

    def _pick(self, items, k):
        p = cur()
        k = z3.simplify(k)
        v = numval(k)
        if v is not None:
            return items[int(v)]
        if all(is_num(x) for x in items) and items:
            r = items[-1]
            for j in range(len(items) - 2, -1, -1):
                r = ite_val(k == j, items[j], r)
            return r
        for j in range(len(items)):
            if p.fork(k == j):
                return items[j]
        raise core.PathEnd("list index")

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.concrete():
                return PList(self.items[i])
            return self._slice(i)
        n = self.length()
        k = it(i)
        p = cur()
        v = numval(k)
        if v is not None and v < 0 and self.seg is not None and -v <= len(self.tail):
            return self.tail[int(v)]
        if numval(n) is not None and v is not None:
            return self.at(z3.IntVal(int(v) if v >= 0 else int(v) + int(numval(n)))) if -numval(n) <= v < numval(n) else self._ierr()
        if not p.quick(z3.And(k >= -n, k < n)):
            if not p.fork(z3.And(k >= -n, k < n)):
                self._ierr()
        if v is not None:
            k = k if v >= 0 else z3.simplify(t_add(k, n))
        elif not p.quick(k >= 0):
            if p.fork(k < 0):
                k = t_add(k, n)
        return self.at(k)

    def _slice(self, s):
        if s.step not in (None, 1):
            raise Unsupported("slice of a symbolic list")
        n = self.length()
        a, b = clamp_slice(s, n)
        return PList([], (z3.simplify(t_sub(b, a)), lambda k: self_at(self, t_add(a, k))))

    def _ierr(self):
        raise IndexError("list index out of range")

    def __setitem__(self, i, x):
        if self.concrete() and isinstance(i, (int, slice)):
            self.items[i] = x
            return
        raise Unsupported("assignment to a symbolic list position")

    def __iter__(self):
        if self.concrete():
            return iter(list(self.items))
        raise Unsupported("iteration over a symbolic list in C code")

    def __contains__(self, x):
        if self.concrete():
            return x in self.items
        raise Unsupported("in on a symbolic list")

    def __bool__(self):
        if self.concrete():
            return bool(self.items)
        return bool(mkscalar("b", (self.length() > 0,)))

    def __eq__(self, o):
        if isinstance(o, PList) and o.concrete() and self.concrete():
            return self.items == o.items
        if isinstance(o, list) and self.concrete():
            return self.items == o
        if o is None or isinstance(o, str):
            return False
        raise Unsupported("comparison of symbolic lists")

    def __hash__(self):
        raise TypeError("unhashable type: 'list'")

    def __repr__(self):
        return "[...]" if not self.concrete() else repr(self.items)

    def pop(self, *a):
        if self.concrete():
            return self.items.pop(*a)
        if self.tail and not a:
            return self.tail.pop()
        raise Unsupported("pop from a symbolic list")

    def insert(self, i, x):
        if self.concrete() or i == 0:
            self.items.insert(i, x)
            return
        raise Unsupported("insert")

    def clear(self):
        self.items, self.seg, self.tail = [], None, []

    def copy(self):
        return PList(*self.copy_state())

    def index(self, x):
        if self.concrete():
            return self.items.index(x)
        raise Unsupported("list.index")

    def sort(self, **k):
        if self.concrete() and not any(isinstance(x, Sc) for x in self.items):
            self.items.sort(**k)
            return
        raise Unsupported("sort")

    def reverse(self):
        if self.concrete():
            self.items.reverse()
            return
        raise Unsupported("reverse")

    def count(self, x):
        if self.concrete() and not any(isinstance(i, Sc) for i in self.items):
            return self.items.count(x)
        raise Unsupported("list.count")


def self_at(l, k):
    return l.at(k)


def ite_val(c, a, b):
    """value-level if"""
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    la, lb = lift(a), lift(b)
    if la is not None and lb is not None:
        k = promote(la.kind, lb.kind)
        return mkscalar(k, tuple(t_ite(c, x, y) for x, y in zip(cast(la.e, la.kind, k), cast(lb.e, lb.kind, k))), la.np or lb.np)
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        r = [ite_val(c, x, y) for x, y in zip(a, b)]
        return type(a)._make(r) if hasattr(type(a), "_make") else tuple(r)
    from .arrays import SArr, ite_arr
    if isinstance(a, SArr) and isinstance(b, SArr):
        return ite_arr(c, a, b)
    raise Unsupported("value-level conditional of unlike values")


def clamp_slice(s, n):
    """start/stop terms (step 1) of a slice over length n, clamped as python does"""
    p = cur()

    def bound(v, default):
        if v is None:
            return default
        t = it(v)
        c = numval(t)
        if c is not None:
            if c == 0:
                return t
            if c < 0:
                t = z3.simplify(t_add(n, t))
                return t if p.quick(t >= 0) else t_ite(t_cmp("ge", t, z3.IntVal(0)), t, z3.IntVal(0))
        elif not p.quick(t >= 0):
            t = t_ite(t < 0, t_ite(t_add(n, t) >= 0, t_add(n, t), z3.IntVal(0)), t)
        return t if p.quick(t <= n) else t_ite(t_cmp("le", t, n), t, n)
    a, b = bound(s.start, z3.IntVal(0)), bound(s.stop, n)
    if not p.quick(a <= b):
        b = t_ite(t_cmp("le", a, b), b, a)
    return a, b


def _sc_model(self, model):
    r = [str(model.eval(x, model_completion=True)) for x in self.e]
    return r if len(r) > 1 else r[0]


Sc.model_value = _sc_model


_FLOATATTR = set(dir(float)) | set(dir(complex)) | set(dir(int)) | {"T", "dtype", "size", "shape", "ndim", "item", "tolist", "max", "min", "mean", "std",
                                                                      "astype", "reshape", "squeeze", "round", "clip", "all", "any", "dot"}


def _sc_getattr(self, name):
    if name.startswith("__") or name not in _FLOATATTR:
        raise AttributeError(f"scalar has no attribute {name}")
    raise Unsupported(f"scalar attribute {name}")


Sc.__getattr__ = _sc_getattr


def _pl_getattr(self, name):
    if name.startswith("__") or name not in dir(list):
        raise AttributeError(f"'list' object has no attribute '{name}'")
    raise Unsupported(f"list attribute {name}")


PList.__getattr__ = _pl_getattr
