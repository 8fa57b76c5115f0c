"""Symbolic numpy arrays: symbolic shape, element function, shared buffers with views, in-place writes."""
import z3
from . import core
from .core import (Unsupported, cur, numval, t_add, t_sub, t_mul, t_div, t_cmp, t_ite, t_and, t_or, t_not,
                   t_divmod, to_real, INT, REAL)
from .values import (Sc, PList, mkscalar, lift, cast, promote, binop, e_abs, e_neg, it, ival, clamp_slice, is_num, ZERO)

I0, I1 = z3.IntVal(0), z3.IntVal(1)


def simp(t):
    if numval(t) is not None or z3.is_const(t):
        return t
    return z3.simplify(t)


class EF:
    """memoised element function: idx tuple of Int terms -> element tuple"""
    __slots__ = ("fn", "memo")

    def __init__(self, fn):
        self.fn, self.memo = fn, {}

    def __call__(self, idx):
        p = cur()
        k = (p.serial,) + tuple(i.get_id() for i in idx)
        r = self.memo.get(k)
        if r is not None and r[2] in p.active:
            return r[1]
        v = self.fn(idx)
        self.memo[k] = (idx, v, p.scope)
        return v


class Buffer:
    def __init__(self, shape, kind, ef, name=None):
        self.shape, self.kind, self.ef, self.name = tuple(shape), kind, ef, name
        self.dt = None           # extra dtype tag (e.g. 'float32')
        self.ver = 0
        self.log = None
        self.readonly = False
        cur().register(self)

    def copy_state(self):
        return self.ef

    def set_state(self, st):
        if st is not self.ef:
            self.ef = st
            self.ver += 1

    def write(self, cond, val):
        """cond(bidx)->Bool term, val(bidx)->element of self.kind"""
        if self.readonly:
            raise ValueError("assignment destination is read-only")
        old = self.ef

        def fn(bidx):
            c = cond(bidx)
            if z3.is_true(c):
                return val(bidx)
            if z3.is_false(c):
                return old(bidx)
            o, n = old(bidx), val(bidx)
            return tuple(t_ite(c, x, y) for x, y in zip(n, o))
        if self.dt == "float32":
            v0 = val
            val = lambda b: round32(v0(b))  # noqa
        if self.log is not None:
            self.log.append((cond, val))
        self.ef = EF(fn)
        self.ver += 1


F_r32 = z3.Function("round32", REAL, REAL)


def round32(e):
    return tuple(F_r32(to_real(x)) if numval(x) is None or numval(x).denominator != 1 else x for x in e)


class SArr:
    __array_priority__ = 1000
    __slots__ = ("buf", "shp", "vmap", "vinv", "kind", "lastnz", "__weakref__")

    def __init__(self, buf, shp=None, vmap=None, vinv=None, kind=None):
        self.buf = buf
        self.shp = tuple(buf.shape if shp is None else shp)
        self.vmap, self.vinv = vmap, vinv
        self.kind = kind or buf.kind
        self.lastnz = None

    # -- element access
    def read(self, idx):
        return self.buf.ef(tuple(idx) if self.vmap is None else self.vmap(tuple(idx)))

    def snap(self):
        f, m = self.buf.ef, self.vmap
        return f if m is None else (lambda idx: f(m(tuple(idx))))

    def write(self, cond, val):
        """cond(idx), val(idx) in this view's coordinates"""
        if self.vmap is None:
            self.buf.write(cond, val)
            return
        if self.vinv is None:
            raise Unsupported("write through this view")
        inv = self.vinv

        def c2(b):
            c, idx = inv(b)
            return t_and(c, cond(idx)) if not z3.is_false(c) else c
        self.buf.write(c2, lambda b: val(inv(b)[1]))

    # -- metadata
    @property
    def ndim(self):
        return len(self.shp)

    @property
    def shape(self):
        return tuple(ival(s) for s in self.shp)

    @shape.setter
    def shape(self, v):
        raise Unsupported("assignment to .shape")

    @property
    def size(self):
        r = I1
        for s in self.shp:
            r = t_mul(r, s)
        return ival(r)

    @property
    def dtype(self):
        from .npshim import dtype_of
        return dtype_of(self.kind, self.buf.dt)

    @property
    def itemsize(self):
        return {"b": 1, "i": 8, "f": 8, "c": 16}[self.kind]

    @property
    def nbytes(self):
        return self.size * self.itemsize

    def slen(self):
        if not self.shp:
            raise TypeError("len() of unsized object")
        return self.shp[0]

    def __len__(self):
        v = numval(self.slen())
        if v is None:
            raise Unsupported("len of a symbolic array in C code")
        return int(v)

    def __bool__(self):
        if self.ndim == 0:
            return bool(Sc(self.kind, self.read(())))
        if all(numval(s) == 1 for s in self.shp):
            return bool(Sc(self.kind, self.read(tuple(I0 for _ in self.shp))))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __iter__(self):
        n = numval(self.slen())
        if n is None:
            raise Unsupported("iteration over a symbolic array in C code")
        return iter([self[k] for k in range(int(n))])

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __format__(self, spec):
        if self.ndim and spec:
            raise TypeError("unsupported format string passed to numpy.ndarray.__format__")
        return "<arr>"

    def __repr__(self):
        return f"<SArr {self.kind} {self.shp}>"

    def __contains__(self, x):
        return bool(reduce_any(self == x))

    def __int__(self):
        raise Unsupported("int() of an array")

    # -- arithmetic
    def _bin(self, op, o, rev=False):
        o = as_operand(o)
        if o is None:
            return NotImplemented
        return ew2(op, o, self) if rev else ew2(op, self, o)

    def __add__(self, o): return self._bin("add", o)
    def __radd__(self, o): return self._bin("add", o, True)
    def __sub__(self, o): return self._bin("sub", o)
    def __rsub__(self, o): return self._bin("sub", o, True)
    def __mul__(self, o): return self._bin("mul", o)
    def __rmul__(self, o): return self._bin("mul", o, True)
    def __truediv__(self, o): return self._bin("div", o)
    def __rtruediv__(self, o): return self._bin("div", o, True)
    def __floordiv__(self, o): return self._bin("floordiv", o)
    def __rfloordiv__(self, o): return self._bin("floordiv", o, True)
    def __mod__(self, o): return self._bin("mod", o)
    def __rmod__(self, o): return self._bin("mod", o, True)
    def __pow__(self, o): return self._bin("pow", o)
    def __rpow__(self, o): return self._bin("pow", o, True)
    def __lt__(self, o): return self._bin("lt", o)
    def __le__(self, o): return self._bin("le", o)
    def __gt__(self, o): return self._bin("gt", o)
    def __ge__(self, o): return self._bin("ge", o)
    def __and__(self, o): return self._bin("and", o)
    def __rand__(self, o): return self._bin("and", o, True)
    def __or__(self, o): return self._bin("or", o)
    def __ror__(self, o): return self._bin("or", o, True)
    def __xor__(self, o): return self._bin("xor", o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return ew1(lambda e: (z3.BoolVal(False),), self, "b")
        return self._bin("eq", o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return ew1(lambda e: (z3.BoolVal(True),), self, "b")
        return self._bin("ne", o)

    def __neg__(self): return ew1(e_neg, self, self.kind)
    def __pos__(self): return self.copy()
    def __invert__(self):
        if self.kind != "b":
            raise Unsupported("~ on numbers")
        return ew1(lambda e: (t_not(e[0]),), self, "b")

    def __abs__(self):
        return ew1(lambda e: e_abs(e, self.kind), self, "f" if self.kind == "c" else self.kind)

    def _inplace(self, op, o):
        o = as_operand(o)
        if o is None:
            return NotImplemented
        r = ew2(op, self, o)
        if not same_shape(r, self):
            raise ValueError("non-broadcastable output operand")
        if promote(r.kind, self.kind) != self.kind:
            raise TypeError("Cannot cast ufunc output from a wider dtype with casting rule 'same_kind'")
        f, k, to = r.snap(), r.kind, self.kind
        self.write(lambda idx: z3.BoolVal(True), lambda idx: cast(f(idx), k, to))
        return self

    def __iadd__(self, o): return self._inplace("add", o)
    def __isub__(self, o): return self._inplace("sub", o)
    def __imul__(self, o): return self._inplace("mul", o)
    def __itruediv__(self, o): return self._inplace("div", o)
    def __ipow__(self, o): return self._inplace("pow", o)
    def __iand__(self, o): return self._inplace("and", o)
    def __ior__(self, o): return self._inplace("or", o)

    def __matmul__(self, o):
        from .npshim import matmul
        return matmul(self, o)

    def __rmatmul__(self, o):
        from .npshim import matmul
        return matmul(o, self)

    # -- indexing
    def __getitem__(self, key):
        if self.lastnz is not None and isinstance(key, int) and key == -1 and is_lastnz(self):
            return lastnz(self, IndexError("index -1 is out of bounds for axis 0 with size 0"))
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # -- methods
    @property
    def T(self):
        return transpose(self)

    def transpose(self, *axes):
        return transpose(self, *axes)

    def swapaxes(self, a, b):
        if self.ndim == 2 and {a % 2, b % 2} == {0, 1}:
            return transpose(self)
        raise Unsupported("swapaxes")

    def copy(self, order="C"):
        return mat(self.shp, self.kind, self.snap(), dt=self.buf.dt)

    def astype(self, dt, order=None, casting=None, subok=None, copy=True):
        from .npshim import as_dtype
        d = as_dtype(dt)
        if d.kind == self.kind and d.tag == self.buf.dt and copy is False:
            return self
        f, k = self.snap(), self.kind
        if d.tag == "float32":
            return mat(self.shp, d.kind, lambda idx: round32(cast(f(idx), k, d.kind)), dt=d.tag)
        return mat(self.shp, d.kind, lambda idx: cast(f(idx), k, d.kind))

    def flatten(self, order="C"):
        return ravel(self, order).copy()

    def ravel(self, order="C"):
        return ravel(self, order)

    @property
    def flat(self):
        return ravel(self, "C")

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, PList)):
            shape = tuple(shape[0])
        return reshape(self, shape, order)

    def squeeze(self, axis=None):
        p = cur()
        keep = []
        for d, s in enumerate(self.shp):
            if axis is not None and d != axis % self.ndim:
                keep.append(d)
                continue
            one = p.fork(s == 1) if numval(s) is None else numval(s) == 1
            if axis is not None and not one:
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
            if not one:
                keep.append(d)
        key = tuple(slice(None) if d in keep else 0 for d in range(self.ndim))
        return getitem(self, key)

    @property
    def real(self):
        if self.kind != "c":
            return self
        return ew1(lambda e: (e[0],), self, "f")

    @property
    def imag(self):
        return ew1((lambda e: (e[1],)) if self.kind == "c" else (lambda e: (ZERO,)), self, "f")

    def conj(self):
        return ew1((lambda e: (e[0], core.t_neg(e[1]))) if self.kind == "c" else (lambda e: e), self, self.kind)

    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return reduce_sum(self, axis) / n

    def dot(self, o):
        from .npshim import matmul
        if is_num(o):
            return self * o
        return matmul(self, o)

    def max(self, axis=None, **k):
        return reduce_ext(self, "max", axis)

    def min(self, axis=None, **k):
        return reduce_ext(self, "min", axis)

    def any(self, axis=None, **k):
        return reduce_any(self, axis)

    def all(self, axis=None, **k):
        if axis is not None:
            raise Unsupported("all(axis)")
        r = reduce_any(ew1(lambda e: (t_not(cast(e, self.kind, "b")[0]),), self, "b"))
        return mkscalar("b", (t_not(lift(r).t),), True)

    def argmax(self, axis=None, **k):
        from . import npshim
        return npshim.argmax(self, axis)

    def nonzero(self):
        from . import npshim
        return npshim.nonzero(self)

    def fill(self, v):
        setitem(self, Ellipsis, v)

    def tolist(self):
        if self.ndim == 1:
            n = numval(self.shp[0])
            f, k = self.snap(), self.kind
            if n is not None:
                return PList([mkscalar(k, f((z3.IntVal(i),))) for i in range(int(n))])
            return PList([], (self.shp[0], lambda i: mkscalar(k, f((i,)))))
        raise Unsupported("tolist")

    def item(self, *a):
        if not a and all(numval(s) == 1 for s in self.shp):
            return mkscalar(self.kind, self.read(tuple(I0 for _ in self.shp)))
        raise Unsupported("item")

    def clip(self, lo, hi):
        from . import npshim
        return npshim.clip(self, lo, hi)

    def repeat(self, n, axis=None):
        from . import npshim
        return npshim.repeat(self, n, axis)

    def cumsum(self, axis=None):
        from . import npshim
        return npshim.cumsum(self, axis)

    def sort(self, axis=-1, **k):
        from . import npshim
        r = npshim.sort(self.copy(), axis)
        setitem(self, Ellipsis, r)

    def std(self, *a, **k):
        raise Unsupported("std")

    def setflags(self, write=None, **k):
        if write is False:
            self.buf.readonly = True

    def tobytes(self):
        raise Unsupported("tobytes")

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def model_value(self, model, lim=4):
        dims = [min(int(str(model.eval(s, model_completion=True))), lim) for s in self.shp]

        def rec(pre, rest):
            if not rest:
                e = self.read(tuple(z3.IntVal(i) for i in pre))
                return [str(model.eval(x, model_completion=True)) for x in e] if len(e) > 1 else str(model.eval(e[0], model_completion=True))
            return [rec(pre + [i], rest[1:]) for i in range(rest[0])]
        return {"shape": [str(model.eval(s, model_completion=True)) for s in self.shp], "leading": rec([], dims)}


# ---------------------------------------------------------------- construction
def mat(shape, kind, fn, dt=None, name=None):
    b = Buffer(tuple(simp(s) for s in shape), kind, fn if isinstance(fn, EF) else EF(fn), name)
    b.dt = dt
    return SArr(b)


def const_arr(shape, kind, e):
    return mat(shape, kind, lambda idx: e)


def sym_arr(name, shape, kind="f"):
    """arbitrary array (an input)"""
    p = cur()
    shp = tuple(it(s) for s in shape)
    n = len(shp)
    sort = {"b": z3.BoolSort(), "i": INT, "f": REAL, "c": REAL}[kind]
    if kind == "c":
        fr, fi = z3.Function(name + "_re", *([INT] * n), sort), z3.Function(name + "_im", *([INT] * n), sort)
        a = mat(shp, kind, lambda idx: (fr(*idx), fi(*idx)), name=name)
    elif n == 0:
        c = z3.Const(name, sort)
        a = mat(shp, kind, lambda idx: (c,), name=name)
    else:
        f = z3.Function(name, *([INT] * n), sort)
        a = mat(shp, kind, lambda idx: (f(*idx),), name=name)
    p.inputs[name] = a
    return a


def fresh_arr(base, shape, kind):
    p = cur()
    a = sym_arr(p.fresh(base), [s for s in shape], kind)
    return a


def from_list(xs):
    """array of a python list (of scalars, or of arrays / nested lists of one shape)"""
    if isinstance(xs, (tuple, list)):
        xs = PList(list(xs))
    p = cur()
    if isinstance(xs, PList) and not xs.concrete():
        n = xs.length()
        st = PList(*xs.copy_state())
        p.nofork += 1
        try:
            probe = st.seg[1](p.bound(st.seg[0]))
        finally:
            p.nofork -= 1
        extra = [x for x in st.items + st.tail]
        lp = lift(probe)
        if lp is not None:
            kind = lp.kind
            for x in extra:
                kind = promote(kind, lift(x).kind)
            h, m = len(st.items), st.seg[0]

            def fn(idx):
                k = idx[0]
                s = lift(st.seg[1](t_sub(k, z3.IntVal(h))))
                r = cast(s.e, s.kind, kind)
                for j, x in enumerate(st.items):
                    x = lift(x)
                    r = tuple(t_ite(t_cmp("eq", k, z3.IntVal(j)), a, b) for a, b in zip(cast(x.e, x.kind, kind), r))
                for j, x in enumerate(st.tail):
                    x = lift(x)
                    r = tuple(t_ite(t_cmp("eq", k, t_add(m, z3.IntVal(h + j))), a, b) for a, b in zip(cast(x.e, x.kind, kind), r))
                return r
            return mat((n,), kind, fn)
        if isinstance(probe, SArr) and not extra:
            for s in probe.shp:
                if p.has_bound(s):
                    raise Unsupported("array of arrays of varying shape")
            kind = probe.kind
            return mat((n,) + probe.shp, kind, lambda idx: st.seg[1](idx[0]).read(idx[1:]))
        raise Unsupported("array of a symbolic list")
    items = list(xs.items) if isinstance(xs, PList) else list(xs)
    items = [from_list(x) if isinstance(x, (list, tuple, PList)) else x for x in items]
    if not items:
        return mat((I0,), "f", lambda idx: (ZERO,))
    if any(isinstance(x, SArr) for x in items):
        items = [x if isinstance(x, SArr) else arr0(x) for x in items]
        for x in items[1:]:
            if x.ndim != items[0].ndim or not all(dim_eq(a, b) for a, b in zip(x.shp, items[0].shp)):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        kind = promote(*[x.kind for x in items])
        snaps = [(x.snap(), x.kind) for x in items]

        def fn(idx):
            r = None
            for j in range(len(snaps) - 1, -1, -1):
                e = cast(snaps[j][0](idx[1:]), snaps[j][1], kind)
                r = e if r is None else tuple(t_ite(t_cmp("eq", idx[0], z3.IntVal(j)), a, b) for a, b in zip(e, r))
            return r
        return mat((z3.IntVal(len(items)),) + items[0].shp, kind, fn)
    sc = [lift(x) for x in items]
    if any(s is None for s in sc):
        raise Unsupported("array of non-numeric objects")
    kind = promote(*[s.kind for s in sc])
    es = [cast(s.e, s.kind, kind) for s in sc]

    def fn1(idx):
        k = idx[0]
        v = numval(k)
        if v is not None and 0 <= v < len(es):
            return es[int(v)]
        r = es[-1]
        for j in range(len(es) - 2, -1, -1):
            r = tuple(t_ite(t_cmp("eq", k, z3.IntVal(j)), a, b) for a, b in zip(es[j], r))
        return r
    return mat((z3.IntVal(len(es)),), kind, fn1)


def arr0(x):
    s = lift(x)
    return mat((), s.kind, lambda idx: s.e)


def as_arr(x):
    if isinstance(x, SArr):
        return x
    if is_num(x):
        return arr0(x)
    if isinstance(x, (list, tuple, PList)):
        return from_list(x)
    if hasattr(x, "toarray"):
        return x.toarray()
    raise Unsupported(f"array from {type(x).__name__}")


def as_operand(o):
    if isinstance(o, (SArr, Sc)) or is_num(o):
        return o
    if isinstance(o, (list, tuple, PList)):
        return from_list(o)
    return None


# ---------------------------------------------------------------- shapes
def dim_eq(a, b):
    """do two dims agree on this path (forks when undetermined)"""
    if a.eq(b):
        return True
    x, y = numval(a), numval(b)
    if x is not None and y is not None:
        return x == y
    return cur().fork(a == b)


def same_shape(a, b):
    return len(a.shp) == len(b.shp) and all(dim_eq(x, y) for x, y in zip(a.shp, b.shp))


def bcast_dims(a, b):
    """-> (dim, use_a, use_b): whether a's/b's index is used (False: index 0)"""
    p = cur()
    if a.eq(b):
        return a, True, True
    x, y = numval(a), numval(b)
    if x == 1 and y == 1:
        return a, True, True
    if x == 1:
        return b, False, True
    if y == 1:
        return a, True, False
    if x is not None and y is not None:
        if x == y:
            return a, True, True
        raise ValueError("operands could not be broadcast together")
    if p.quick(a == b) or p.fork(a == b):
        return (a if x is not None else b if y is not None else a), True, True
    if p.fork(a == 1):
        return b, False, True
    if p.fork(b == 1):
        return a, True, False
    raise ValueError("operands could not be broadcast together")


def bcast(shapes):
    """-> (result shape, per operand map fn(idx)->idx)"""
    nd = max((len(s) for s in shapes), default=0)
    res = [I1] * nd
    for s in shapes:
        for d in range(len(s)):
            rd = nd - len(s) + d
            res[rd] = bcast_dims(res[rd], s[d])[0]
    maps = []
    for s in shapes:
        off = nd - len(s)
        use = []
        for d in range(len(s)):
            use.append(bcast_dims(res[off + d], s[d])[2])
        maps.append((lambda use, off: lambda idx: tuple(idx[off + d] if u else I0 for d, u in enumerate(use)))(use, off))
    return tuple(res), maps


def ew(fn, kind, *ops):
    """elementwise: fn(list of elems)->elem"""
    ops = [as_arr(o) for o in ops]
    shape, maps = bcast([o.shp for o in ops])
    sn = [o.snap() for o in ops]
    r = mat(shape, kind, lambda idx: fn([s(m(idx)) for s, m in zip(sn, maps)]))
    if not shape:
        return mkscalar(kind, r.read(()), True)
    return r


def ew1(fn, a, kind):
    f = a.snap()
    return mat(a.shp, kind, lambda idx: fn(f(idx)))


def ew2(op, a, b):
    a, b = as_arr(a), as_arr(b)
    ka, kb = a.kind, b.kind
    kind = result_kind(op, a, b)
    r = ew(lambda es: cast(*binop(op, es[0], ka, es[1], kb), kind), kind, a, b)
    if isinstance(r, SArr) and "float32" in (a.buf.dt, b.buf.dt) and kind in "fc":
        o = b if a.buf.dt == "float32" else a
        if o.ndim == 0 or o.buf.dt == "float32":
            f = r.snap()
            return mat(r.shp, kind, lambda idx: round32(f(idx)), dt="float32")
    return r


def result_kind(op, a, b):
    ka, kb = a.kind, b.kind
    k = promote(ka, kb)
    if op in ("add", "mul"):
        return k
    if op == "sub":
        return "i" if k == "b" else k
    if op == "div":
        return promote(k, "f")
    if op in ("lt", "le", "gt", "ge", "eq", "ne"):
        return "b"
    if op in ("and", "or", "xor"):
        return k
    if op in ("floordiv", "mod"):
        return "i" if k == "b" else k
    if op in ("max", "min"):
        return k
    if op == "pow":
        if k in "bi":
            if b.ndim == 0:
                v = numval(b.read(())[0]) if kb != "b" else 1
                if v is not None and v < 0:
                    raise ValueError("Integers to negative integer powers are not allowed.")
                return "i" if v is not None else "f"
            return "f"
        return k
    raise Unsupported(op)


def where3(c, a, b):
    c, a, b = as_arr(c), as_arr(a), as_arr(b)
    k = promote(a.kind, b.kind)
    kc, ka, kb = c.kind, a.kind, b.kind
    return ew(lambda es: tuple(t_ite(cast(es[0], kc, "b")[0], x, y) for x, y in zip(cast(es[1], ka, k), cast(es[2], kb, k))),
              k, c, a, b)


def ite_arr(c, a, b):
    if a.ndim != b.ndim or not all(cur().quick(x == y) for x, y in zip(a.shp, b.shp)):
        raise Unsupported("conditional arrays of different shape")
    k = promote(a.kind, b.kind)
    fa, fb, ka, kb = a.snap(), b.snap(), a.kind, b.kind
    return mat(a.shp, k, lambda idx: tuple(t_ite(c, x, y) for x, y in zip(cast(fa(idx), ka, k), cast(fb(idx), kb, k))))


# ---------------------------------------------------------------- views
def view(a, shape, m, inv):
    """new view of array a: m(idx)->a idx, inv(a idx)->(cond, idx)"""
    am, ai = a.vmap, a.vinv
    vm = m if am is None else (lambda idx: am(m(idx)))
    if inv is None:
        vi = None
    elif am is None:
        vi = inv
    elif ai is None:
        vi = None
    else:
        def vi(b):
            c, idx = ai(b)
            c2, idx2 = inv(idx)
            return t_and(c, c2), idx2
    return SArr(a.buf, tuple(simp(s) for s in shape), vm, vi, a.kind)


def transpose(a, *axes):
    n = a.ndim
    if axes and isinstance(axes[0], (tuple, list, PList)):
        axes = tuple(axes[0])
    perm = tuple(axes) if axes and axes[0] is not None else tuple(range(n - 1, -1, -1))
    inv = [0] * n
    for d, s in enumerate(perm):
        inv[s] = d
    return view(a, [a.shp[s] for s in perm], lambda idx: tuple(idx[inv[d]] for d in range(n)),
                lambda b: (z3.BoolVal(True), tuple(b[s] for s in perm)))


def flat_index(idx, shp):
    """row-major flat index"""
    p = cur()
    k = idx[0]
    for d in range(1, len(idx)):
        k = p.flat(k, idx[d], shp[d])
    return k


def unflat_index(k, shp):
    out = []
    for d in range(len(shp) - 1, 0, -1):
        q, r = t_divmod(k, shp[d])
        out.append(r)
        k = q
    out.append(k)
    return tuple(reversed(out))


def total(shp):
    r = I1
    for s in shp:
        r = t_mul(r, s)
    return r


def ravel(a, order="C"):
    if order == "F":
        a = transpose(a)
        if a.ndim > 1:
            a = a.copy()
    elif order not in ("C", "A", "K"):
        raise ValueError("order must be one of 'C', 'F', 'A', or 'K'")
    return reshape(a, (total(a.shp),))


def reshape(a, shape, order="C"):
    p = cur()
    shape = [it(s) for s in shape]
    if order == "F":
        if len(shape) == 1 and a.ndim == 1:
            return reshape(a, shape)
        r = reshape(transpose(a).copy() if a.ndim > 1 else a, list(reversed(shape)))
        return transpose(r)
    old = a.shp
    tot = total(old)
    neg = [d for d, s in enumerate(shape) if numval(s) == -1]
    if len(neg) == 1:
        rest = total([s for d, s in enumerate(shape) if d != neg[0]])
        if numval(rest) == 1:
            shape[neg[0]] = tot
        elif len(old) == 2 and any(p.quick(rest == o) for o in old):
            shape[neg[0]] = old[0] if p.quick(rest == old[1]) else old[1]
        else:
            q, r = t_divmod(tot, rest)
            if not p.fork(r == 0):
                raise ValueError("cannot reshape array")
            shape[neg[0]] = q
    if len(shape) == len(old) and all(x.eq(y) or p.quick(x == y) for x, y in zip(shape, old)):
        return view(a, shape, lambda idx: idx, lambda b: (z3.BoolVal(True), b))
    goal = total(shape) == tot
    n0 = core.poly.Norm()
    if not (n0.equal(total(shape), tot) == [] or p.holds(goal, 1500)):
        if not p.fork(goal):
            raise ValueError("cannot reshape array of this size into the given shape")
    if len(old) == 0:
        return view(a, shape, lambda idx: (), None)
    if len(shape) == 0:
        return view(a, shape, lambda idx: tuple(I0 for _ in old), None)

    def m(idx):
        return unflat_index(flat_index(idx, shape), old) if len(old) > 1 else (flat_index(idx, shape),)

    def inv(b):
        k = flat_index(b, old)
        return z3.BoolVal(True), (unflat_index(k, shape) if len(shape) > 1 else (k,))
    if a.vmap is not None and a.vinv is not None and not getattr(a, "contig", False):
        # numpy may return a copy here; a write through it would be ambiguous
        if len(old) > 1:
            return view(a.copy(), shape, m, inv)
    return view(a, shape, m, inv)


def norm_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    out = []
    nsp = sum(1 for k in key if k is not None and k is not Ellipsis)
    for k in key:
        if isinstance(k, SArr) and k.kind == "b":
            nsp += k.ndim - 1
    for k in key:
        if k is Ellipsis:
            out += [slice(None)] * (a.ndim - nsp)
        else:
            out.append(k)
    if not any(k is Ellipsis for k in key):
        out += [slice(None)] * (a.ndim - nsp)
    return out


def norm_int(k, n):
    """index term normalised to [0, n); IndexError when out of range"""
    p = cur()
    t = it(k)
    v, nv = numval(t), numval(n)
    if v is not None and nv is not None:
        if not -nv <= v < nv:
            raise IndexError("index out of bounds")
        return z3.IntVal(int(v if v >= 0 else v + nv))
    if v is not None:
        c = (n > t) if v >= 0 else (n >= -t)
        if not p.fork(c):
            raise IndexError("index out of bounds")
        return t if v >= 0 else simp(t_add(n, t))
    if p.quick(z3.And(t >= 0, t < n)):
        return t
    if not p.fork(z3.And(t >= -n, t < n)):
        raise IndexError("index out of bounds")
    if p.quick(t >= 0):
        return t
    return t_ite(t < 0, t_add(n, t), t)


def is_fancy(k):
    return isinstance(k, (PList, list)) or (isinstance(k, SArr) and k.ndim > 0)


def getitem(a, key):
    keys = norm_key(a, key)
    if len([k for k in keys if k is not None]) > a.ndim and not any(isinstance(k, SArr) and k.kind == "b" for k in keys):
        raise IndexError("too many indices for array")
    if any(is_fancy(k) for k in keys):
        return fancy_get(a, keys)
    r = basic_view(a, keys)
    if r.ndim == 0 and a.ndim >= 0:
        return mkscalar(r.kind, r.read(()), True)
    return r


def basic_view(a, keys):
    p = cur()
    spec = []      # per source dim: ('i', t) or ('s', start, step, outdim)
    shape = []
    d = 0
    src = 0
    for k in keys:
        if k is None:
            shape.append(I1)
            d += 1
            continue
        n = a.shp[src]
        if isinstance(k, slice):
            step = 1 if k.step is None else k.step
            if isinstance(step, Sc):
                step = step.const()
            if step is None:
                raise Unsupported("symbolic slice step")
            if step == 1:
                s, e = clamp_slice(k, n)
                ln = simp(t_sub(e, s))
            elif step == -1:
                if k.start is None:
                    s = t_sub(n, I1)
                else:
                    s = norm_bound_neg(k.start, n, "start")
                e = z3.IntVal(-1) if k.stop is None else norm_bound_neg(k.stop, n, "stop")
                ln = simp(t_sub(s, e))
                if not p.quick(ln >= 0):
                    ln = t_ite(ln >= 0, ln, I0)
            elif step > 1:
                s, e = clamp_slice(slice(k.start, k.stop), n)
                q, _ = t_divmod(t_add(t_sub(e, s), z3.IntVal(step - 1)), z3.IntVal(step))
                ln = simp(q)
            else:
                raise Unsupported("slice step")
            spec.append(("s", s, step, d))
            shape.append(ln)
            d += 1
        else:
            if isinstance(k, (bool,)):
                raise Unsupported("boolean scalar index")
            if isinstance(k, Sc) and k.kind == "f" or isinstance(k, float):
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
            spec.append(("i", norm_int(k, n)))
        src += 1
    nd = len(shape)

    def m(idx):
        out = []
        for s in spec:
            if s[0] == "i":
                out.append(s[1])
            elif s[2] == 1:
                out.append(t_add(s[1], idx[s[3]]))
            else:
                out.append(t_add(s[1], t_mul(z3.IntVal(s[2]), idx[s[3]])))
        return tuple(out)

    lens = list(shape)

    def inv(b):
        conds, idx = [], [I0] * nd
        for s, x in zip(spec, b):
            if s[0] == "i":
                conds.append(t_cmp("eq", x, s[1]))
            else:
                if s[2] == 1:
                    o = t_sub(x, s[1])
                elif s[2] == -1:
                    o = t_sub(s[1], x)
                else:
                    o, r = t_divmod(t_sub(x, s[1]), z3.IntVal(s[2]))
                    conds.append(t_cmp("eq", r, I0))
                conds.append(t_cmp("ge", o, I0))
                conds.append(t_cmp("lt", o, lens[s[3]]))
                idx[s[3]] = o
        return t_and(*conds), tuple(idx)
    # whole-dimension slices need no bounds check on the inverse (buffer indices are in range)
    return view(a, shape, m, inv)


def norm_bound_neg(v, n, which):
    """bound of a negative-step slice"""
    p = cur()
    t = it(v)
    c = numval(t)
    if c is not None and c < 0:
        t = t_add(n, t)
        return t if p.quick(t >= -1) else t_ite(t >= -1, t, z3.IntVal(-1))
    if c is None and not p.quick(t >= 0):
        raise Unsupported("negative-step slice with a bound of unknown sign")
    hi = t_sub(n, I1)
    return t if p.quick(t <= hi) else t_ite(t <= hi, t, hi)


# ---------------------------------------------------------------- masks and fancy indexing
class Mask:
    """boolean mask: sel: [0,cnt) -> index tuple, rank its inverse (row-major)"""

    def __init__(self, arr):
        p = cur()
        self.shp = arr.shp
        self.f = arr.snap()
        nm = p.fresh("mask")
        n = len(self.shp)
        self.cnt = z3.Int(nm + "_cnt")
        self.sel = [z3.Function(f"{nm}_sel{d}", INT, INT) for d in range(n)]
        self.rank = z3.Function(nm + "_rank", *([INT] * n), INT)
        p.axiom(("mask0", self.cnt), self.cnt >= 0)
        tot = total(self.shp)
        p.axiom(("mask1", self.cnt), z3.Implies(z3.And(*[s >= 0 for s in self.shp]), self.cnt <= tot) if n else z3.BoolVal(True))

    def inb(self, idx):
        return z3.And(*[z3.And(i >= 0, i < s) for i, s in zip(idx, self.shp)])

    def at_sel(self, k):
        """indices of the k-th selected entry, with its facts"""
        p = cur()
        idx = tuple(s(k) for s in self.sel)
        if p.axiom(("sel", self.cnt, k), z3.Implies(z3.And(k >= 0, k < self.cnt), z3.And(self.inb(idx), self.rank(*idx) == k))):
            m = self.f(idx)[0]
            p.axiom(("selm", self.cnt, k), z3.Implies(z3.And(k >= 0, k < self.cnt), m))
        return idx

    def at_rank(self, idx):
        p = cur()
        r = self.rank(*idx)
        m = self.f(idx)[0]
        p.axiom(("rank", self.cnt) + tuple(idx),
                z3.Implies(z3.And(self.inb(idx), m), z3.And(r >= 0, r < self.cnt, *[s(r) == i for s, i in zip(self.sel, idx)])))
        return r


class FlatMask:
    """row-major flattening of a two-dimensional mask, or the other way round: same selection, other indices"""

    def __init__(self, m, arr, n1):
        self.m, self.n1 = m, n1
        self.shp, self.f, self.cnt = arr.shp, arr.snap(), m.cnt

    def at_sel(self, k):
        idx = self.m.at_sel(k)
        return (t_add(t_mul(idx[0], self.n1), idx[1]),) if len(idx) == 2 else tuple(t_divmod(idx[0], self.n1))

    def at_rank(self, idx):
        return self.m.at_rank((t_add(t_mul(idx[0], self.n1), idx[1]),) if len(idx) == 2 else tuple(t_divmod(idx[0], self.n1)))


def get_mask(arr):
    """mask object; provably equal masks share their selection"""
    p = cur()
    for m, scope in p.masks:
        if len(m.shp) == arr.ndim and all(x.eq(y) or p.quick(x == y) for x, y in zip(m.shp, arr.shp)):
            idx = tuple(p.bound(s) for s in arr.shp)
            a, b = m.f(idx)[0], arr.read(idx)[0]
            if a.eq(b) or p.quick(a == b, 1500):
                return m
    for m, scope in p.masks:
        if {len(m.shp), arr.ndim} == {1, 2}:
            grid = m.shp if len(m.shp) == 2 else arr.shp
            if not dim_eq(total(grid), (arr.shp if arr.ndim == 1 else m.shp)[0]):
                continue
            i, j = (p.bound(s) for s in grid)
            q = t_add(t_mul(i, grid[1]), j)
            one, two = ((q,), (i, j)) if arr.ndim == 1 else ((i, j), (q,))
            a, b = m.f(two)[0], arr.read(one)[0]
            if a.eq(b) or p.quick(a == b, 1500):
                r = FlatMask(m, arr, grid[1])
                p.masks.append((r, p.scope))
                return r
    m = Mask(arr)
    p.masks.append((m, p.scope))
    return m


def fancy_get(a, keys):
    p = cur()
    if any(k is None for k in keys):
        raise Unsupported("newaxis with fancy indexing")
    fk = [i for i, k in enumerate(keys) if is_fancy(k)]
    if len(fk) == 1:
        j = fk[0]
        k = keys[j]
        k = from_list(k) if isinstance(k, (PList, list)) else k
        if k.kind == "b":
            src = sum(1 if not (is_fancy(x) and isinstance(x, SArr) and x.kind == "b") else x.ndim for x in keys[:j])
            for d in range(k.ndim):
                if not dim_eq(k.shp[d], a.shp[src + d]):
                    raise IndexError("boolean index did not match indexed array along dimension")
            if len(keys) == 1 or (j == 0 and all(isinstance(x, slice) and x == slice(None) for x in keys[1:])):
                m = get_mask(k)
                f, nd = a.snap(), k.ndim
                return mat((m.cnt,) + a.shp[nd:], a.kind, lambda idx: f(m.at_sel(idx[0]) + tuple(idx[1:])))
            if k.ndim == 1:
                m = get_mask(k)
                pre = basic_view(a, [slice(None) if x is keys[j] else x for x in keys])
                if any(not isinstance(x, slice) for x in keys[:j]):
                    raise Unsupported("mixed indexing")
                f = pre.snap()
                shp = list(pre.shp)
                shp[j] = m.cnt
                return mat(shp, a.kind, lambda idx: f(tuple(idx[:j]) + m.at_sel(idx[j]) + tuple(idx[j + 1:])))
            raise Unsupported("mixed mask indexing")
        if k.kind == "i":
            if any(not isinstance(x, slice) for i, x in enumerate(keys) if i != j):
                raise Unsupported("mixed fancy indexing")
            pre = basic_view(a, [slice(None) if i == j else x for i, x in enumerate(keys)])
            f, n = pre.snap(), pre.shp[j]
            g = index_array(k, n)
            shp = list(pre.shp[:j]) + list(k.shp) + list(pre.shp[j + 1:])
            kd = k.ndim
            return mat(shp, a.kind, lambda idx: f(tuple(idx[:j]) + (g(idx[j:j + kd]),) + tuple(idx[j + kd:])))
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    ks = [from_list(k) if isinstance(k, (PList, list)) else k for k in keys]
    if len(fk) == len(keys) and all(isinstance(k, SArr) and k.kind == "i" for k in ks):
        shape, maps = bcast([k.shp for k in ks])
        gs = [index_array(k, n) for k, n in zip(ks, a.shp)]
        f = a.snap()
        return mat(shape, a.kind, lambda idx: f(tuple(g(m(idx)) for g, m in zip(gs, maps))))
    raise Unsupported("fancy indexing")


def index_array(k, n):
    """element function of an integer index array, bounds-checked"""
    p = cur()
    f = k.snap()
    idx = tuple(p.bound(s) for s in k.shp)
    e = f(idx)[0]
    if p.quick(z3.And(e >= 0, e < n)):
        return lambda i: f(tuple(i))[0]
    if p.quick(z3.And(e >= -n, e < 0)):
        return lambda i: t_add(f(tuple(i))[0], n)
    if p.quick(z3.And(e >= -n, e < n)):
        return lambda i: t_ite(f(tuple(i))[0] < 0, t_add(f(tuple(i))[0], n), f(tuple(i))[0])
    raise Unsupported("index array whose bounds are not established")


def setitem(a, key, val):
    p = cur()
    keys = norm_key(a, key)
    if any(is_fancy(k) for k in keys):
        return fancy_set(a, keys, val)
    if len([k for k in keys if k is not None]) > a.ndim:
        raise IndexError("too many indices for array")
    v = basic_view(a, keys)
    w = as_operand(val)
    if w is None:
        if hasattr(val, "toarray"):
            raise Unsupported("assignment of a sparse matrix")
        raise TypeError(f"float() argument must be a string or a real number, not '{type(val).__name__}'")
    if v.ndim == 0:
        if isinstance(w, SArr):
            if w.ndim and not all(dim_eq(s, I1) for s in w.shp):
                raise ValueError("setting an array element with a sequence.")
            s = Sc(w.kind, w.read(tuple(I0 for _ in w.shp)), True)
        else:
            s = lift(w)
        if s.kind == "c" and v.kind != "c" and not s.np:
            raise TypeError("can't convert complex to float")
        e = cast(s.e, s.kind, v.kind)
        v.write(lambda idx: z3.BoolVal(True), lambda idx: e)
        return
    write_bcast(v, w, lambda idx: z3.BoolVal(True))


def write_bcast(v, w, cond):
    w = as_arr(w)
    # leading 1-dims of the value may be dropped
    while w.ndim > v.ndim:
        if not dim_eq(w.shp[0], I1):
            raise ValueError("could not broadcast input array")
        w = w[0]
    off = v.ndim - w.ndim
    use = []
    for d in range(w.ndim):
        a, b = v.shp[off + d], w.shp[d]
        if a.eq(b):
            use.append(True)
        elif numval(b) == 1:
            use.append(False)
        elif cur().quick(a == b) or cur().fork(a == b):
            use.append(True)
        elif cur().fork(b == 1):
            use.append(False)
        else:
            raise ValueError("could not broadcast input array from one shape into another")
    f, k, to = w.snap(), w.kind, v.kind
    v.write(cond, lambda idx: cast(f(tuple(idx[off + d] if u else I0 for d, u in enumerate(use))), k, to))


def fancy_set(a, keys, val):
    p = cur()
    fk = [i for i, k in enumerate(keys) if is_fancy(k)]
    if len(fk) == 1:
        j = fk[0]
        k = keys[j]
        k = from_list(k) if isinstance(k, (PList, list)) else k
        if k.kind == "b" and j == 0 and all(isinstance(x, slice) and x == slice(None) for x in keys[1:]):
            for d in range(k.ndim):
                if not dim_eq(k.shp[d], a.shp[d]):
                    raise IndexError("boolean index did not match indexed array along dimension")
            kf, nd = k.snap(), k.ndim
            cond = lambda idx: kf(tuple(idx[:nd]))[0]  # noqa
            w = as_operand(val)
            if w is None:
                raise TypeError("cannot assign")
            if not isinstance(w, SArr) or w.ndim == 0:
                s = lift(w)
                if s.kind == "c" and a.kind != "c" and not s.np:
                    raise TypeError("can't convert complex to float")
                e = cast(s.e, s.kind, a.kind)
                a.write(cond, lambda idx: e)
                return
            m = get_mask(k)
            if nd == a.ndim and w.ndim == 1:
                f, kd, to = w.snap(), w.kind, a.kind
                if not (w.shp[0].eq(m.cnt) or p.quick(w.shp[0] == m.cnt)):
                    if numval(w.shp[0]) == 1 or not p.fork(w.shp[0] == m.cnt):
                        if p.fork(w.shp[0] == 1):
                            a.write(cond, lambda idx: cast(f((I0,)), kd, to))
                            return
                        raise ValueError("NumPy boolean array indexing assignment cannot assign input values to the output values where the mask is true")
                a.write(cond, lambda idx: cast(f((m.at_rank(tuple(idx)),)), kd, to))
                return
            raise Unsupported("mask assignment")
        if k.kind == "i":
            raise Unsupported("assignment through an index array")
    raise Unsupported("fancy assignment")


# ---------------------------------------------------------------- functionals (sums and opaque functions of arrays)
def functional(name, n_terms, bodies, scal=(), real=True):
    """Canonical term  name(λb. bodies(b); scal): equal arguments give equal results.

    n_terms: list of dims (terms) of the index space; bodies: list of (dims, elem fn list) - here a list of terms
    already evaluated at the bound constants `bs`."""
    raise NotImplementedError


def sum_term(n, f):
    """Σ_{0<=b<n} f(b) as a real term (f returns a real/int term)"""
    p = cur()
    n = simp(n)
    v = numval(n)
    if v is not None and v <= 0:
        return ZERO
    if v is not None and v <= 3:
        r = ZERO
        for j in range(int(v)):
            r = t_add(r, to_real(f(z3.IntVal(j))))
        return r
    b = p.bound(n)
    body = to_real(f(b))
    return p.sum_of(n, b, body)


def reduce_sum(a, axis=None, keepdims=False):
    a = as_arr(a)
    if a.kind == "b":
        a = ew1(lambda e: cast(e, "b", "i"), a, "i")
    kind = a.kind

    def comp(f, c, dims):
        """sum over all dims of component c"""
        def rec(pre, rest):
            if not rest:
                return f(tuple(pre))[c]
            return sum_term(rest[0], lambda b: rec(pre + [b], rest[1:]))
        return rec([], list(dims))
    f = a.snap()
    nc = 2 if kind == "c" else 1

    def fin(t):
        return t if kind != "i" else t
    if axis is None or a.ndim <= 1:
        if axis not in (None, 0, -1) and not (isinstance(axis, tuple)):
            raise ValueError("axis out of bounds")
        if kind == "c" and a.ndim == 1:
            es = csum(a.shp[0], lambda b: f((b,)))
        else:
            es = tuple(comp(f, c, a.shp) for c in range(nc))
        if kind == "i":
            return mkscalar("f", es, True) if not all(z3.is_int(x) for x in es) else mkscalar("i", es, True)
        return mkscalar(kind, es, True)
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            return reduce_sum(a)
        raise Unsupported("sum over several axes")
    ax = axis % a.ndim
    shp = a.shp[:ax] + a.shp[ax + 1:]
    out = mat(shp, "f" if kind == "i" else kind,
              lambda idx: tuple(sum_term(a.shp[ax], lambda b, c=c: f(tuple(idx[:ax]) + (b,) + tuple(idx[ax:]))[c]) for c in range(nc)))
    if keepdims:
        out = reshape(out, tuple(I1 if d == ax else s for d, s in enumerate(a.shp)))
    return out


def csum(n, f):
    return (sum_term(n, lambda b: f(b)[0]), sum_term(n, lambda b: f(b)[1]))


def reduce_any(a, axis=None):
    a = as_arr(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("any(axis)")
    p = cur()
    f, k = a.snap(), a.kind
    g = lambda idx: cast(f(idx), k, "b")[0]  # noqa
    dims = a.shp
    if not dims:
        return mkscalar("b", (g(()),), True)
    if len(dims) == 1 and numval(dims[0]) is not None and numval(dims[0]) <= 4:
        return mkscalar("b", (t_or(*[g((z3.IntVal(j),)) for j in range(int(numval(dims[0])))]),), True)
    idx = tuple(p.bound(s) for s in dims)
    body = g(idx)
    r = p.opaque("any", list(zip(dims, idx)), [body], sort="b")
    if p.once(("any", r)):
        w = tuple(z3.Int(p.fresh("g!w")) for _ in dims)
        inb = lambda ii: z3.And(*[z3.And(i >= 0, i < s) for i, s in zip(ii, dims)])  # noqa
        p.idx_terms += [x for x in w]
        p.add(z3.Implies(r, z3.And(inb(w), g(w))))
        p.qfacts.append((len(dims), lambda *ii: z3.Implies(z3.And(inb(ii), g(ii)), r)))
    return mkscalar("b", (r,), True)


def reduce_ext(a, which, axis=None):
    """max/min of all entries (or along an axis)"""
    a = as_arr(a)
    p = cur()
    if a.kind == "c":
        raise Unsupported("max of complex")
    if axis is not None and a.ndim > 1:
        ax = axis % a.ndim
        f = a.snap()
        rest = a.shp[:ax] + a.shp[ax + 1:]
        return mat(rest, a.kind, lambda idx: (ext_term(which, [a.shp[ax]], lambda ii: f(tuple(idx[:ax]) + tuple(ii) + tuple(idx[ax:]))[0], a.kind),))
    if which == "max" and is_lastnz(a):
        return lastnz(a, ValueError("zero-size array to reduction operation maximum which has no identity"))
    f, k = a.snap(), a.kind
    if k == "b":
        raise Unsupported("max of bools")
    n = total(a.shp)
    if not p.quick(z3.And(*[s > 0 for s in a.shp])):
        if not p.fork(z3.And(*[s > 0 for s in a.shp])):
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
    return mkscalar(k, (ext_term(which, list(a.shp), lambda ii: f(tuple(ii))[0], k),), True)


def is_lastnz(a):
    """the (unmodified) result of nonzero() of a vector"""
    return a.lastnz is not None and a.vmap is None and a.buf.ef is a.lastnz[2]


def lastnz(a, exc):
    """its last = largest entry: a definition in terms of the vector, also after the loop that computed it"""
    n, g, _ = a.lastnz
    p = cur()
    b = p.bound(n)
    gb = g(b)
    d, params = p.opaque_decl("last_nonzero", [(n, b)], [gb], sort="i")
    isf = isinstance(d, z3.FuncDeclRef)
    r = d(*params) if isf else d
    key = ("last_nonzero", d.name() if isf else d.decl().name())
    if key not in p.pdefs:
        p.pdefs.add(key)
        body = gb

        def facts(args):
            sub = list(zip(params, args))
            at = lambda i: z3.substitute(body, (b, i), *sub)  # noqa
            n2 = z3.substitute(n, *sub) if sub else n
            rr = d(*args) if isf else d
            top = at(rr)
            idx = list(p.idx_terms)
            for x in apps_of(top, p.witness_of):
                idx.append(p.witness_of[x.decl().name()](tuple(x.children())))
            out = []
            for i in idx:
                if not i.eq(rr):
                    out.append(z3.Implies(z3.And(i >= 0, i < n2, at(i)), z3.And(i <= rr, rr < n2, top)))
            return t_and(*out)
        if isf:
            p.ptrigs.append((d.name(), facts))
        else:
            p.ptrigs.append((None, lambda args: facts(())))
    have = z3.substitute(gb, (b, r))
    fid = z3.And(r >= 0, r < n, have).get_id()
    if any(x.get_id() == fid for x in p.facts):
        pass
    elif not p.quick(z3.And(r >= 0, r < n, have), 3000, trig=True):
        if not p.fork(z3.And(r >= 0, r < n, have)):
            raise exc
    else:
        f = z3.And(r >= 0, r < n, have)
        p.keep.append(f)
        p.derived.add(f.get_id())
        p.add(f)
    if p.once(("lastidx", r)):
        p.idx_terms.append(r)
    return mkscalar("i", (r,), True)


def apps_of(t, names):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            st += x.children()
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                out.append(x)
    return out


def ext_term(which, dims, g, kind):
    p = cur()
    if all(numval(d) == 1 for d in dims):
        return g(tuple(I0 for _ in dims))
    idx = tuple(p.bound(s) for s in dims)
    body = g(idx)
    r = p.opaque(which, list(zip(dims, idx)), [body], sort=kind)
    if p.once((which, r)):
        w = tuple(z3.Int(p.fresh("g!w")) for _ in dims)
        inb = lambda ii: z3.And(*[z3.And(i >= 0, i < s) for i, s in zip(ii, dims)])  # noqa
        p.idx_terms += list(w)
        p.add(z3.Implies(z3.And(*[d > 0 for d in dims]), z3.And(inb(w), g(w) == r)))
        p.qfacts.append((len(dims), lambda *ii: z3.Implies(inb(ii), (g(ii) <= r) if which == "max" else (g(ii) >= r))))
    return r


def prod_terms(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = t_mul(r, x)
    return r


_NDATTR = {"T", "all", "any", "argmax", "argmin", "argpartition", "argsort", "astype", "base", "byteswap", "choose", "clip", "compress",
           "conj", "conjugate", "copy", "ctypes", "cumprod", "cumsum", "data", "diagonal", "dot", "dtype", "dump", "dumps", "fill", "flags",
           "flat", "flatten", "getfield", "imag", "item", "itemset", "itemsize", "max", "mean", "min", "nbytes", "ndim", "newbyteorder",
           "nonzero", "partition", "prod", "ptp", "put", "ravel", "real", "repeat", "reshape", "resize", "round", "searchsorted", "setfield",
           "setflags", "shape", "size", "sort", "squeeze", "std", "strides", "sum", "swapaxes", "take", "tobytes", "tofile", "tolist",
           "tostring", "trace", "transpose", "var", "view"}


def _arr_getattr(self, name):
    if name in _NDATTR:
        raise Unsupported(f"ndarray.{name}")
    raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")


SArr.__getattr__ = _arr_getattr
