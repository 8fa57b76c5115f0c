"""Loops with a symbolic trip count, cut at an inductive description of the loop state.

The body is a closure (loader.py), so it can be run several times inline with the program state saved and restored.
For every location the body modifies (locals, attributes, buffers, lists, ghost counters) the engine looks for a
definition  value(k)  of its content after k iterations:
   * candidates offered by the contract (hook), pruned to an inductive set (Houdini),
   * closed forms found by running the generic iteration once (counters, sums, last values, write regions, appends),
   * otherwise the location is havocked ("hv!" symbols; a refutation that depends on one is not believed).
Every kept definition holds on entry and is preserved by every path through the body: both are proved.
"""
import time
import types
import z3
from . import core, poly
from .core import (Unsupported, PathEnd, cur, numval, t_add, t_sub, t_mul, t_div, t_cmp, t_ite, t_and, t_or, t_not, to_real)
from .values import Sc, PList, mkscalar, lift, cast, it, ival, is_num, ite_val, promote
from .arrays import SArr, Buffer, EF, mat, simp

LOOPINFO = {}
I0 = z3.IntVal(0)
UNROLL = 12


class _Sig:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


BRK, CNT, RET = _Sig("BRK"), _Sig("CNT"), _Sig("RET")


def isret(r):
    return isinstance(r, tuple) and len(r) == 2 and r[0] is RET


class Seq:
    """symbolic sequence: length term n, item(k)"""

    def __init__(self, n, item, conc=None):
        self.n, self._item, self.conc = n, item, conc

    def item(self, k):
        return self._item(k)

    def concrete(self):
        return self.conc is not None

    def items(self):
        return self.conc

    def __iter__(self):
        if self.conc is not None:
            return iter(self.conc)
        v = numval(self.n)
        if v is not None:
            return iter([self.item(z3.IntVal(j)) for j in range(int(v))])
        raise Unsupported("iteration over a symbolic sequence in C code")

    def __getitem__(self, k):
        return self.item(it(k))

    def __contains__(self, x):
        raise Unsupported("in on a symbolic range")

    def __len__(self):
        v = numval(self.n)
        if v is None:
            raise Unsupported("len of a symbolic sequence in C code")
        return int(v)

    def pxv_len(self):
        return ival(self.n)


def to_seq(x):
    if isinstance(x, Seq):
        v = numval(x.n)
        if v is not None and x.conc is None and v <= 64:
            return Seq(x.n, x.item, [x.item(z3.IntVal(j)) for j in range(int(v))])
        return x
    if isinstance(x, PList):
        if x.concrete():
            return Seq(z3.IntVal(len(x.items)), lambda k: x.at(k), list(x.items))
        st = PList(*x.copy_state())
        return Seq(st.length(), st.at)
    if isinstance(x, SArr):
        n = simp(x.slen())
        v = numval(n)
        if v is not None and v <= 64:
            return Seq(n, lambda k: x[ival(k)], [x[j] for j in range(int(v))])

        def item(k):
            from .arrays import basic_view
            r = basic_view_at(x, k)
            return r
        return Seq(n, item)
    if isinstance(x, (Sc,)):
        raise TypeError("object is not iterable")
    if hasattr(x, "pxv_seq"):
        return x.pxv_seq()
    xs = list(x)
    return Seq(z3.IntVal(len(xs)), lambda k: PList(xs).at(k), xs)


def basic_view_at(x, k):
    """row k of x for 0 <= k < len(x) (no bounds fork)"""
    from .arrays import view
    if x.ndim == 1:
        return mkscalar(x.kind, x.read((k,)), True)
    return view(x, x.shp[1:], lambda idx: (k,) + tuple(idx), lambda b: (t_cmp("eq", b[0], k), tuple(b[1:])))


def freeze_fn(f):
    """copy of a closure with its current bindings (arrays as they are now)"""
    if not isinstance(f, types.FunctionType) or not f.__closure__:
        return f
    cells = []
    for c in f.__closure__:
        try:
            v = c.cell_contents
        except ValueError:
            cells.append(types.CellType())
            continue
        if isinstance(v, SArr):
            sn = v.snap()
            v = mat(v.shp, v.kind, sn, dt=v.buf.dt)
        elif isinstance(v, PList):
            v = PList(*v.copy_state())
        elif isinstance(v, types.FunctionType) and v.__name__ == "<lambda>":
            v = freeze_fn(v)
        cells.append(types.CellType(v))
    return types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))


def comp(fn, iterable, cond, kind):
    s = to_seq(iterable)
    if s.concrete():
        out = []
        for v in s.items():
            if cond is None or cond(v):
                out.append(fn(v))
        return PList(out)
    if cond is not None:
        raise Unsupported("filtered comprehension over a symbolic sequence")
    p = cur()
    if fn.__name__ == "g" and fn.__closure__:        # star(f, n)
        inner = [c.cell_contents for c in fn.__closure__ if callable(c.cell_contents)]
        if inner:
            from .pybuiltins import star
            n = [c.cell_contents for c in fn.__closure__ if isinstance(c.cell_contents, int)][0]
            fz = star(freeze_fn(inner[0]), n)
        else:
            fz = fn
    else:
        fz = freeze_fn(fn)
    p.nofork += 1
    b0 = p.bound(s.n)
    try:
        v0 = fz(s.item(b0))
    finally:
        p.nofork -= 1

    memo = {}

    def item(k):
        q = cur()
        key = (q.serial, k.get_id())
        r = memo.get(key)
        if r is not None and r[2] in q.active:
            return r[1]
        q.nofork += 1
        try:
            v = fz(s.item(k))
        except Exception:           # k out of range: the value there does not matter
            v = subst_val(v0, [(b0, k)])
        finally:
            q.nofork -= 1
        memo[key] = (k, v, q.scope)
        return v
    return PList([], (s.n, item))


def run_for(key, iterable, body, get, set_, loc):
    s = to_seq(iterable)
    if s.concrete():
        for v in s.items():
            r = body(v)
            if r is BRK or isret(r):
                return r
        return CNT
    return Cut(key, s.n, s.item, None, body, get, set_, loc).run()


def run_while(key, cond, body, get, set_, loc):
    for _ in range(400):
        c = cond()
        if isinstance(c, Sc):
            t = simp(cast(c.e, c.kind, "b")[0])
            if not (z3.is_true(t) or z3.is_false(t)):
                return Cut(key, None, None, cond, body, get, set_, loc).run()
            c = z3.is_true(t)
        if not c:
            return CNT
        r = body()
        if r is BRK or isret(r):
            return r
    raise Unsupported("long concrete while loop")


# ------------------------------------------------------------------ program state
def is_inst(o):
    return type(o).__module__.startswith("pxmcmc") or getattr(type(o), "pxv_state", False)


def reach(roots):
    seen, out, st = set(), [], list(roots)
    while st:
        o = st.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (list, tuple)):
            st += list(o)
        elif isinstance(o, PList):
            st += o.items + o.tail
        elif isinstance(o, dict):
            out.append(o)
            st += list(o.values())
        elif isinstance(o, types.MethodType):
            st.append(o.__self__)
        elif is_inst(o) and hasattr(o, "__dict__") and not isinstance(o, type):
            out.append(o)
            st += list(o.__dict__.values())
    return out


class State:
    """snapshot of everything the loop body can modify"""

    def __init__(self, cut):
        self.loc = cut.get()
        self.objs = []
        for o in cut.objs:
            self.objs.append((o, dict(o) if isinstance(o, dict) else dict(o.__dict__)))
        self.bufs = [(b, b.copy_state()) for b in cut.regs]
        self.ghost = dict(cur().ghost)

    def set(self, cut):
        cut.set_(dict(self.loc))
        for o, d in self.objs:
            t = o if isinstance(o, dict) else o.__dict__
            if t != d if all(v is t.get(k, t) for k, v in d.items()) and len(t) == len(d) else True:
                t.clear()
                t.update(d)
        for b, s in self.bufs:
            b.set_state(s)
        cur().ghost = dict(self.ghost)


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Sc) and isinstance(b, Sc):
        return a.kind == b.kind and all(x.eq(y) for x, y in zip(a.e, b.e))
    if isinstance(a, (bool, int, str, float)) and type(a) is type(b):
        return a == b
    if isinstance(a, tuple) and type(a) is type(b) and len(a) == len(b):
        return all(same_val(x, y) for x, y in zip(a, b))
    return False


class SubDec:
    def __init__(self, prefix, todo):
        self.prefix, self.taken, self.todo = list(prefix), [], todo


class MISSING:
    def __repr__(self):
        return "<unbound>"


MISSING = MISSING()


def ghost0(name):
    """a ghost variable not touched yet: counters of random draws start at 0"""
    return ival(I0) if isinstance(name, str) and name.startswith("rng_") else MISSING


class Loc:
    """a modifiable location"""

    def __init__(self, kind, ref, name):
        self.kind, self.ref, self.name = kind, ref, name

    def key(self):
        return (self.kind, id(self.ref) if self.kind != "L" else "", self.name)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def __repr__(self):
        if self.kind == "L":
            return self.name
        if self.kind == "A":
            return f"{type(self.ref).__name__}.{self.name}"
        if self.kind == "B":
            return f"buffer {self.ref.name or ''}"
        return f"{self.kind} {self.name}"

    def get(self, locs):
        if self.kind == "L":
            return locs.get(self.name, MISSING)
        if self.kind == "A":
            d = self.ref if isinstance(self.ref, dict) else self.ref.__dict__
            return d.get(self.name, MISSING)
        if self.kind == "G":
            return cur().ghost.get(self.name, ghost0(self.name))
        return self.ref.copy_state()

    def put(self, locs, v):
        if self.kind == "L":
            if v is MISSING:
                locs.pop(self.name, None)
            else:
                locs[self.name] = v
        elif self.kind == "A":
            d = self.ref if isinstance(self.ref, dict) else self.ref.__dict__
            if v is MISSING:
                d.pop(self.name, None)
            else:
                d[self.name] = v
        elif self.kind == "G":
            cur().ghost[self.name] = v
        else:
            self.ref.set_state(v)


def hv_in(t, but=()):
    """does the term mention havocked symbols"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n.startswith("hv!") and n not in but:
                    return True
                d = cur().odefs.get(n)
                if d is not None:
                    st += [m for m, _ in d[1]] + d[2] + d[3]
            st += x.children()
    return False


def subst_val(v, pairs):
    """value with index constants replaced"""
    if isinstance(v, Sc):
        return mkscalar(v.kind, tuple(reax(z3.substitute(x, *pairs)) for x in v.e), v.np)
    if isinstance(v, SArr):
        f = v.snap()
        shp = [z3.substitute(s, *pairs) for s in v.shp]
        ph = [z3.Int(cur().fresh("g!s")) for _ in v.shp]
        # evaluate once at placeholder indices, then substitute
        e = f(tuple(ph))
        return mat(shp, v.kind, lambda idx: tuple(reax(z3.substitute(x, *pairs, *list(zip(ph, idx)))) for x in e), dt=v.buf.dt)
    if isinstance(v, tuple):
        return mktup(type(v), [subst_val(x, pairs) for x in v])
    if v is None or isinstance(v, (int, str, bool)):
        return v
    raise Unsupported(f"loop value of type {type(v).__name__}")


def reax(t):
    """re-create the axioms of special functions in a substituted term"""
    p = cur()
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            st += x.children()
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n in core.REAX:
                    core.REAX[n](*x.children())
    return t


def val_terms(v):
    if isinstance(v, Sc):
        return list(v.e)
    if isinstance(v, tuple):
        return [t for x in v for t in val_terms(x)]
    return []


class Def:
    """definition of a location's content after k iterations"""
    name = "free"
    obligation = True

    def value(self, k, cut):
        raise NotImplementedError

    def check(self, k1, v, cut):
        """goals for `v` being the content after k1 iterations"""
        raise NotImplementedError


class Free(Def):
    def __init__(self, loc, entry, samples):
        self.loc, self.entry, self.samples = loc, entry, samples

    def value(self, k, cut):
        vs = [v for v in [self.entry] + self.samples if v is not MISSING]
        if self.entry is MISSING:
            return MISSING
        try:
            return havoc_like(vs, self.loc, k, self.entry)
        except Unsupported:
            # a scratch local of another type each time: unbound until it is assigned (a read before that is noticed)
            if self.loc.kind == "L" and not cut.maybe.get(self.loc) and (cut.phase == "generic" or self.loc.name not in cut.info["live"]):
                return MISSING
            raise

    def check(self, k1, v, cut):
        return []


def kindof(v):
    if isinstance(v, Sc):
        return v.kind
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, float):
        return "f"
    return None


def havoc_like(vs, loc, k, entry):
    p = cur()
    base = f"hv!{loc.name if isinstance(loc.name, str) else 'x'}"
    v0 = vs[0]
    ks = [kindof(v) for v in vs]
    if all(x is not None for x in ks):
        kd = promote(*ks)
        nm = p.fresh(base)
        np = any(isinstance(v, Sc) and v.np for v in vs)
        if kd == "c":
            return Sc("c", (z3.Real(nm + "r"), z3.Real(nm + "i")), np)
        return Sc(kd, ({"b": z3.Bool, "i": z3.Int, "f": z3.Real}[kd](nm),), np)
    if all(isinstance(v, SArr) for v in vs):
        if all(v.ndim == v0.ndim for v in vs) and all(x.eq(y) or p.quick(x == y) for v in vs[1:] for x, y in zip(v0.shp, v.shp)):
            from .arrays import sym_arr
            a = sym_arr(p.fresh(base), [s for s in v0.shp], promote(*[v.kind for v in vs]))
            p.inputs.pop(a.buf.name, None)
            return a
    if all(isinstance(v, tuple) for v in vs) and len({len(v) for v in vs}) == 1:
        return mktup(type(v0), [havoc_like([v[j] for v in vs], loc, k, None) for j in range(len(v0))])
    if all(v is None or v == v0 for v in vs if not isinstance(v, (Sc, SArr))) and all(not isinstance(v, (Sc, SArr)) for v in vs):
        return v0
    if entry is not None or v0 is None:
        rest = [v for v in vs[1:]]
        if v0 is None and rest and not any(v is None for v in rest):
            if p.fork(k == 0):
                return None
            return havoc_like(rest, loc, k, rest[0])
    raise Unsupported(f"loop-carried {loc!r} changes its type or shape")


class Closed(Def):
    """fn(k) -> value; scalars and tuples of scalars"""
    name = "closed form"

    def __init__(self, loc, fn, entry, what="closed form"):
        self.loc, self.fn, self.entry, self.name = loc, fn, entry, what

    def value(self, k, cut):
        return self.fn(k)

    def check(self, k1, v, cut):
        return eq_goals(v, self.fn(k1))


def eq_goals(a, b):
    if isinstance(a, SArr) and isinstance(b, SArr):
        if a.ndim != b.ndim:
            return [z3.BoolVal(False)]
        p = cur()
        gs = [x == y for x, y in zip(a.shp, b.shp) if not x.eq(y)]
        idx = tuple(p.bound(s) for s in a.shp)
        k = promote(a.kind, b.kind)
        return gs + [x == y for x, y in zip(cast(a.read(idx), a.kind, k), cast(b.read(idx), b.kind, k))]
    la, lb = lift(a), lift(b)
    if la is not None and lb is not None:
        k = promote(la.kind, lb.kind)
        return [x == y for x, y in zip(cast(la.e, la.kind, k), cast(lb.e, lb.kind, k))]
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return [g for x, y in zip(a, b) for g in eq_goals(x, y)]
    return [z3.BoolVal(a is b or (not isinstance(a, (Sc, SArr)) and not isinstance(b, (Sc, SArr)) and a == b))]


class Last(Def):
    """value assigned by the latest iteration: fn(k-1) for k>0, entry for k == 0"""
    name = "last value"

    def __init__(self, loc, fn, entry, live):
        self.loc, self.fn, self.entry, self.live = loc, fn, entry, live

    def value(self, k, cut):
        p = cur()
        if self.entry is MISSING or not same_type(self.entry, self.fn(I0)):
            if not self.live and cut.phase == "exit":
                return MISSING
            if cut.phase == "generic" and not cut.maybe.get(self.loc):
                return MISSING
            if p.fork(k > 0):
                return self.fn(t_sub(k, z3.IntVal(1)))
            return self.entry
        return ite_val(simp(t_cmp("gt", k, I0)), self.fn(t_sub(k, z3.IntVal(1))), self.entry)

    def check(self, k1, v, cut):
        return eq_goals(v, self.fn(t_sub(k1, z3.IntVal(1))))


def same_type(a, b):
    if lift(a) is not None and lift(b) is not None:
        return True
    if isinstance(a, SArr) and isinstance(b, SArr):
        return a.ndim == b.ndim and all(x.eq(y) for x, y in zip(a.shp, b.shp))
    return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(same_type(x, y) for x, y in zip(a, b))


class Region(Def):
    """buffer: each iteration writes its own cells"""
    name = "write region"

    def __init__(self, loc, cut, R, V, entry, kx=None, inv=None, params=()):
        self.loc, self.R, self.V, self.entry, self.kx, self.inv, self.params = loc, R, V, entry, kx, inv, params
        # the parameters as constants of the defining iteration of outer loops

    def written(self, k, x):
        t = self.kx(x) if self.kx is not None else self.inv(*self.params, *x)
        return t_and(t_cmp("ge", t, I0), t_cmp("lt", t, k), self.R(t, x))

    def at(self, k, cut):
        R, V, entry, kx, inv, params = self.R, self.V, self.entry, self.kx, self.inv, self.params

        def fn(x):
            p = cur()
            if kx is not None:
                t = kx(x)
                g = []
            else:
                t = inv(*params, *x)
            w = t_and(t_cmp("ge", t, I0), t_cmp("lt", t, k), R(t, x))
            w2 = simp(w)
            if z3.is_false(w2):
                return entry(x)
            if p.quick(t_not(w), 300):
                return entry(x)
            v = V(t, x)
            if p.quick(w, 300):
                return v
            return tuple(t_ite(w, a, b) for a, b in zip(v, entry(x)))
        return EF(fn)

    def value(self, k, cut):
        if cut.phase == "generic" and cut.own_region:
            base = self.at(k, cut)
            return base
        return self.at(k, cut)

    def check(self, k1, v, cut):
        p = cur()
        x = tuple(p.bound(s) for s in self.loc.ref.shape)
        exp = self.at(k1, cut)
        return [a == b for a, b in zip(v(x), exp(x))]


class Append(Def):
    """list: each iteration appends one value fn(k)"""
    name = "append"

    def __init__(self, loc, entry, fn):
        self.loc, self.entry, self.fn = loc, entry, fn

    def value(self, k, cut):
        items, seg, tail = self.entry
        if seg is None:
            return (items, (k, self.fn), [])
        n0, f0 = seg
        t = len(tail)
        fn = self.fn

        def g(j):
            p = cur()
            return ite_or_fork(j, n0, t, f0, tail, fn)
        return (items, (t_add(t_add(n0, z3.IntVal(t)), k), g), [])

    def check(self, k1, v, cut):
        exp = self.value(k1, cut)
        a, b = PList(*v), PList(*exp)
        gs = [a.length() == b.length()]
        p = cur()
        if len(v[0]) != len(exp[0]) or not all(same_val(x, y) for x, y in zip(v[0], exp[0])):
            return [z3.BoolVal(False)]
        # last element, and the segment
        last = v[2][-1] if v[2] else None
        if last is None or len(v[2]) != 1:
            return [z3.BoolVal(False)]
        return gs + eq_goals(last, self.fn(t_sub(k1, z3.IntVal(1))))


def ite_or_fork(j, n0, t, f0, tail, fn):
    p = cur()
    if p.quick(j < n0) or (not p.quick(j >= n0) and p.fork(j < n0)):
        return f0(j)
    off = t_sub(j, n0)
    if t:
        for q in range(t):
            if p.fork(off == q):
                return tail[q]
    return fn(t_sub(off, z3.IntVal(t)))


# ------------------------------------------------------------------ the cut
class Live(list):
    """names used after the loop (and their tuple components)"""

    def __contains__(self, k):
        return list.__contains__(self, k) or (isinstance(k, str) and "#" in k and list.__contains__(self, k.split("#")[0]))


def mktup(cls, items):
    return cls._make(items) if hasattr(cls, "_make") else tuple(items)


class Cut:
    def __init__(self, key, n, item, cond, body, get, set_, loc):
        self.key, self.n, self.item, self.cond = key, n, item, cond
        self.tcls = {}
        self.body, self.get, self.set_ = body, lambda: self.flat(get()), lambda d: set_(self.pack(d))
        self.info = dict(LOOPINFO.get(key, dict(line=0, names=[], live=[], qual=str(key), kind="?")))
        self.info["live"] = Live(self.info["live"])
        p = cur()
        roots = [v for k, v in loc.items() if not k.startswith("_pxv_")] + list(get().values())
        self.objs = reach(roots)
        self.regs = [o for o in p.registry]
        self.maybe = {}
        self.phase = "init"
        self.own_region = None
        self.hook = p.ghost.get("loop_hook")
        self.ginfo = None

    # -- a local holding a tuple is a group of locals, one per component
    def flat(self, d):
        out = {}
        for k, v in d.items():
            if isinstance(v, tuple) and v:
                t = (type(v), len(v))
                if self.tcls.setdefault(k, t) != t:
                    raise Unsupported("a tuple that changes its type or length in a loop")
                out.update(self.flat({f"{k}#{i}": x for i, x in enumerate(v)}))
            else:
                out[k] = v
        return out

    def pack(self, d):
        d = dict(d)
        for k in sorted(self.tcls, key=lambda k: -k.count("#")):
            cls, n = self.tcls[k]
            vs = [d.pop(f"{k}#{i}", MISSING) for i in range(n)]
            have = [v for v in vs if v is not MISSING]
            if not have:
                continue
            if len(have) < n or k in d:
                raise Unsupported("a tuple that is only partly defined")
            d[k] = mktup(cls, vs)
        return d

    # -- running the body
    def step(self, k):
        """one iteration; returns the outcome"""
        if self.cond is not None:
            c = self.cond()
            if not c:
                raise PathEnd("loop condition false")
            return self.body()
        return self.body(self.item(k))

    def explore(self, prep, after, speculative=True):
        """run one iteration on every path through it; prep() sets the state and returns k"""
        p = cur()
        todo = [()]
        n = 0
        while todo:
            n += 1
            if n > 96:
                raise Unsupported("too many paths through a loop body")
            if time.time() > p.task.deadline:
                raise Unsupported("time budget of the task exhausted")
            prefix = todo.pop()
            m = p.mark()
            dec, old = SubDec(prefix, todo), p.subdec
            p.subdec = dec
            nf = len(p.facts)
            p.speculative += 1 if speculative else 0
            try:
                self.entry.set(self)
                k = prep()
                nf2 = len(p.facts)
                try:
                    out = ("ok", self.step(k))
                except Exception as e:      # exception of the program
                    out = ("exc", e)
                after(k, out, dec, p.facts[nf2:])
            except PathEnd:
                pass
            finally:
                p.speculative -= 1 if speculative else 0
                p.subdec = old
                p.restore(m)
                self.entry.set(self)

    def changed(self, before):
        """locations whose content differs from state `before`"""
        out = []
        now = self.get()
        for nm in set(now) | set(before.loc):
            if not same_val(now.get(nm, MISSING), before.loc.get(nm, MISSING)):
                out.append(Loc("L", None, nm))
        for o, d in before.objs:
            t = o if isinstance(o, dict) else o.__dict__
            for nm in set(t) | set(d):
                if not same_val(t.get(nm, MISSING), d.get(nm, MISSING)):
                    out.append(Loc("A", o, nm))
        for b, s in before.bufs:
            st = b.copy_state()
            if isinstance(b, Buffer):
                if st is not s:
                    out.append(Loc("B", b, b.name))
            elif not (len(st[0]) == len(s[0]) and len(st[2]) == len(s[2]) and st[1] is s[1]
                      and all(same_val(x, y) for x, y in zip(st[0] + st[2], s[0] + s[2]))):
                out.append(Loc("P", b, "list"))
        g = cur().ghost
        for nm in set(g) | set(before.ghost):
            if not same_val(g.get(nm, MISSING), before.ghost.get(nm, MISSING)):
                out.append(Loc("G", None, nm))
        return out

    def generic_k(self):
        p = cur()
        k = z3.Int(p.fresh("k!"))
        p.add(k >= 0)
        if self.n is not None:
            p.add(k < self.n)
        p.idx_terms.append(k)
        return k

    def set_generic(self, k, phase="generic"):
        """state after k iterations, by the current definitions"""
        p = cur()
        self.phase = phase
        locs = self.get()
        for loc in self.order:
            d = self.defs[loc]
            loc.put(locs, d.value(k, self))
        self.set_(locs)
        if self.hook is not None and self.hooked:
            self.hook.state(self, k)

    def log_on(self):
        for loc in self.defs:
            if loc.kind == "B":
                loc.ref.log = []

    def outer_log(self, k):
        """report the effect of the first k iterations to the enclosing loop's write log"""
        for b, lg in self.outer_logs:
            b.log = lg
            for loc in self.defs:
                if loc.kind == "B" and loc.ref is b:
                    d, st = self.defs[loc], b.copy_state()
                    c = (lambda x, d=d: d.written(k, x)) if isinstance(d, Region) else (lambda x: z3.BoolVal(True))
                    b.log.append((c, st))

    # -- main
    def run(self):
        p = cur()
        p.task.stats["loops_cut"] += 1
        p.loopdepth += 1
        try:
            return self._run()
        finally:
            p.loopdepth -= 1

    def _run(self):
        p = cur()
        self.outer_logs = [(b, b.log) for b in self.regs if isinstance(b, Buffer) and b.log is not None]
        for b, _ in self.outer_logs:
            b.log = None
        self.entry = State(self)
        self.defs, self.order = {}, []
        self.samples = {}
        self.hooked = False
        if self.hook is not None:
            self.hooked = self.hook.claims(self)
        try:
            self._pilot()
            self._define()
            self._prove()
        except Exception as e:      # nothing here is an exception of the program: those are caught where the body runs
            import traceback
            if core.DEBUG:
                traceback.print_exc()
            raise Unsupported(f"loop summary failed: {type(e).__name__}: {e}")
        # choose the way out
        for prefix in self.exits:
            b = z3.Bool(p.fresh("exit"))
            if p.fork(b):
                return self._leave_early(prefix)
        return self._leave()

    def _note_changes(self, before):
        new = False
        now = self.get()
        for loc in self.changed(before):
            v = loc.get(now)
            sl = self.samples.setdefault(loc, [])
            if not any(same_val(v, x) for x in sl) and len(sl) < 6:
                sl.append(v)
            if loc not in self.defs:
                new = True
                self.newlocs.add(loc)
        return new

    def _pilot(self):
        """find the modified locations: two iterations from the entry state, then generic ones"""
        p = cur()
        self.newlocs = set()
        self.pil = []

        def after0(k, out, dec, facts):
            if out[0] == "exc":
                return
            self._note_changes(self.entry)
            if out[1] is not CNT or isret(out[1]):
                return
            now = self.get()
            self.pil.append({loc: loc.get(now) for loc in self.changed(self.entry) if loc.kind in "LAG"})
            if p.ghost.get("pilot2", True):
                try:
                    if self.n is not None and p.quick(self.n <= 1):
                        return
                    if self.n is not None:
                        p.add(self.n > 1)
                    self.step(z3.IntVal(1))
                except Exception:
                    return
                self._note_changes(self.entry)

        def prep0():
            if self.n is not None:
                p.add(self.n > 0)
            return I0
        self.explore(prep0, after0)
        for _ in range(6):
            if not self.newlocs:
                break
            for loc in self.newlocs:
                self.defs[loc] = Free(loc, loc.get(self.entry.loc), self.samples[loc])
                if loc.kind in "BP":
                    self.defs[loc] = FreeContent(loc, self.entry, self)
                elif p.exact:
                    d = self.guess_counter(loc)
                    if d is not None:
                        self.defs[loc] = d
            self.order = list(self.defs)
            self.newlocs = set()
            self._generic_probe()

    def guess_counter(self, loc):
        """an integer the first iteration increments by the same constant on every path (a guess: proved or dropped later)"""
        e = lift(self._entry_val(loc)) if is_num(self._entry_val(loc)) else None
        if e is None or e.kind != "i" or not self.pil:
            return None
        c = None
        for d in self.pil:
            v = lift(d[loc]) if loc in d and is_num(d[loc]) else None
            if v is None or v.kind != "i":
                return None
            x = numval(z3.simplify(v.e[0] - e.e[0]))
            if x is None or (c is not None and x != c):
                return None
            c = x
        return Closed(loc, lambda k: mkscalar("i", (simp(t_add(e.e[0], t_mul(z3.IntVal(int(c)), k))),), e.np), self._entry_val(loc), "counter")

    def _generic_probe(self):
        """one generic iteration with the current definitions; collects the end states"""
        p = cur()
        self.ends = []

        def prep():
            k = self.generic_k()
            self.set_generic(k)
            self.log_on()
            self.start = State(self)
            return k

        def after(k, out, dec, facts):
            if out[0] == "exc":
                e = out[1]
                if core.DEBUG:
                    import traceback
                    print("probe:", traceback.format_exception(e)[-3:])
                if isinstance(e, NameError) and getattr(e, "name", None):
                    for loc in self.defs:
                        if loc.kind == "L" and loc.name.split("#")[0] == e.name and not self.maybe.get(loc):
                            self.maybe[loc] = True
                            self.retry = True
                return
            self._note_changes(self.start)
            if out[1] is BRK or isret(out[1]):
                return
            self.capture(k, dec, facts)
        for _ in range(4):
            self.retry = False
            self.ends = []
            try:
                self.explore(prep, after)
            finally:
                for loc in self.defs:
                    if loc.kind == "B":
                        loc.ref.log = None
            if not self.retry:
                break

    def capture(self, k, dec, facts):
        """what the generic iteration did, as terms over k (evaluated inside the iteration's scope)"""
        p = cur()
        now = self.get()
        end = {}
        pc = [f for f in facts]
        for loc in self.defs:
            v = loc.get(now)
            if loc.kind == "B":
                logs = loc.ref.log or []
                x = tuple(z3.Int(f"g!x{d}") for d in range(len(loc.ref.shape)))
                R, V = z3.BoolVal(False), None
                m = p.mark()
                try:
                    for xx, s in zip(x, loc.ref.shape):
                        p.add(z3.And(xx >= 0, xx < s))
                    for c, val in logs:
                        ct = simp(c(x))
                        if z3.is_false(ct):
                            continue
                        m2 = p.mark()
                        p.add(ct)
                        vt = val(x)
                        p.restore(m2)
                        V = vt if V is None or z3.is_true(ct) else tuple(t_ite(ct, a, b) for a, b in zip(vt, V))
                        R = t_or(R, ct)
                except PathEnd:
                    pass
                finally:
                    p.restore(m)
                end[loc] = ("R", x, R, V)
            elif loc.kind == "P":
                end[loc] = ("P", v)
            else:
                end[loc] = ("V", v)
        self.ends.append(dict(k=k, pc=list(dec_conds(p, dec, facts)), end=end, start={l: self._start_of(l) for l in self.defs}))

    def _start_of(self, loc):
        if loc.kind in "BP":
            for b, s in self.start.bufs:
                if b is loc.ref:
                    return s
        if loc.kind == "G":
            return self.start.ghost.get(loc.name, ghost0(loc.name))
        if loc.kind == "L":
            return self.start.loc.get(loc.name, MISSING)
        for o, d in self.start.objs:
            if o is loc.ref:
                return d.get(loc.name, MISSING)
        return MISSING

    # -- definitions
    def _define(self):
        p = cur()
        if self.hooked:
            self.hook.define(self)
        for _ in range(5):
            self._generic_probe()
            if self.newlocs:
                for loc in self.newlocs:
                    self.defs[loc] = FreeContent(loc, self.entry, self) if loc.kind in "BP" else Free(loc, loc.get(self.entry.loc), self.samples[loc])
                self.order = list(self.defs)
                self.newlocs = set()
                continue
            prog = False
            for loc in list(self.defs):
                d = self.defs[loc]
                if isinstance(d, (Free, FreeContent)) and self.ends:
                    nd = self.closed_form(loc)
                    if nd is not None:
                        self.defs[loc] = nd
                        prog = True
            if not prog:
                break

    def closed_form(self, loc):
        p = cur()
        try:
            if loc.kind == "B":
                return self.region(loc)
            if loc.kind == "P":
                return self.appends(loc)
            return self.scalar_form(loc)
        except (Unsupported, poly.TooBig) as e:
            if core.DEBUG:
                print("closed_form", loc, e)
            return None

    def _merge(self, vals):
        """one value over k from the sub-paths: [(pc, k, value)] -> fn(t); raises when not expressible"""
        k0 = vals[0][1]
        out = None
        allsame = all(same_val(subst_val(v, [(k, k0)]) if not k.eq(k0) else v, vals[0][2]) for _, k, v in vals[1:])
        vv = vals[:1] if allsame else vals
        for pc, k, v in reversed(vv):
            for t in val_terms(v):
                if hv_in(t):
                    raise Unsupported("depends on havocked state")
            c = z3.substitute(t_and(*pc), (k, k0)) if pc else z3.BoolVal(True)
            v = subst_val(v, [(k, k0)]) if not k.eq(k0) else v
            if out is None:
                out = v
            else:
                if hv_in(c):
                    raise Unsupported("condition depends on havocked state")
                out = ite_val(c, v, out)
        if isinstance(out, SArr):
            x = tuple(z3.Int(f"g!x{d}") for d in range(out.ndim))
            if any(hv_in(t) for t in out.read(x)) or any(hv_in(s) for s in out.shp):
                raise Unsupported("depends on havocked state")
        return lambda t: subst_val(out, [(k0, t)])

    def scalar_form(self, loc):
        p = cur()
        entry = loc.get(self.entry.loc) if loc.kind != "G" else self.entry.ghost.get(loc.name, ghost0(loc.name))
        if loc.kind == "A":
            for o, d in self.entry.objs:
                if o is loc.ref:
                    entry = d.get(loc.name, MISSING)
        ends = [(e["pc"], e["k"], e["end"][loc][1], e["start"][loc]) for e in self.ends]
        if any(v is MISSING for _, _, v, _ in ends):
            return None
        le = lift(entry) if entry is not MISSING else None
        if le is not None and all(lift(v) is not None and lift(s) is not None for _, _, v, s in ends) and le.kind in "if":
            N = p.norm0
            ds = []
            for pc, k, v, s in ends:
                lv, ls = lift(v), lift(s)
                if lv.kind not in "if":
                    break
                a, b = cast(lv.e, lv.kind, "f")[0], cast(ls.e, ls.kind, "f")[0]
                n1, d1 = N.norm(t_sub(a, b))
                dt = t_div(N.to_term(n1), N.to_term(d1)) if d1 != N.ONE else N.to_term(n1)
                ds.append((pc, k, z3.simplify(dt) if not hv_in(dt) else dt))
            else:
                if all(not hv_in(d) for _, _, d in ds):
                    isint = le.kind == "i" and all(lift(v).kind == "i" for _, _, v, _ in ends)
                    fn = self._merge([(pc, k, Sc("f", (d,))) for pc, k, d in ds])
                    return self.accumulate(loc, entry, le, fn, isint)
        if p.exact and entry is MISSING and loc.kind == "L" and loc.name not in self.info["live"] and not self.maybe.get(loc):
            return None     # assigned in every iteration before it is read
        if all(v is not MISSING for _, _, v, _ in ends):
            fn = self._merge([(pc, k, v) for pc, k, v, _ in ends])
            return Last(loc, fn, entry, loc.kind != "L" or loc.name in self.info["live"])
        return None

    def accumulate(self, loc, entry, le, fn, isint):
        """entry + Σ_{t<k} fn(t)"""
        p = cur()
        kk = z3.Int("$k")
        d = lift(fn(kk))
        dt = cast(d.e, d.kind, "f")[0]
        N = p.norm0
        num_, den = N.norm(dt)
        deg, ok = 0, True
        dep = lambda t: "$k" in p._syms(t)  # noqa
        coefs = {}
        if dep(N.to_term(den)):
            ok = False
        else:
            for m, c in num_.items():
                e, rest = 0, []
                for a, x in m:
                    if N.terms[a].eq(kk):
                        e = x
                    elif dep(N.terms[a]):
                        ok = False
                    else:
                        rest.append((a, x))
                coefs.setdefault(e, {})[tuple(rest)] = c
                deg = max(deg, e)
        e0 = cast(le.e, le.kind, "f")[0]
        if ok and deg <= 3:
            from fractions import Fraction as F

            def val(k):
                kr = to_real(k)
                pw = [None,
                      kr,
                      t_mul(z3.RealVal(F(1, 2)), t_sub(t_mul(kr, kr), kr)),
                      t_mul(z3.RealVal(F(1, 6)), t_add(t_sub(t_mul(z3.RealVal(2), t_mul(kr, t_mul(kr, kr))), t_mul(z3.RealVal(3), t_mul(kr, kr))), kr)),
                      t_mul(z3.RealVal(F(1, 4)), t_mul(t_mul(kr, t_sub(kr, z3.RealVal(1))), t_mul(kr, t_sub(kr, z3.RealVal(1)))))]
                r = e0
                for e, c in coefs.items():
                    r = t_add(r, t_mul(t_div(N.to_term(c), N.to_term(den)) if den != N.ONE else N.to_term(c), pw[e + 1]))
                if isint:
                    return mkscalar("i", (int_poly(r, k),), le.np)
                return Sc("f", (r,), le.np)
            if isint and not int_ok(coefs, den, N, deg):
                return None
            if isint:
                def val(k):  # noqa
                    return mkscalar("i", (int_closed(le.e[0], coefs, N, k),), le.np)
            return Closed(loc, val, entry, "counter")

        def vsum(k):
            from .arrays import sum_term
            s = sum_term(k, lambda b: cast(lift(fn(b)).e, lift(fn(b)).kind, "f")[0])
            return Sc("f", (t_add(e0, s),), True)
        if isint:
            return self.int_sum(loc, entry, le, fn)
        return SumTo(loc, vsum, fn, entry, e0)

    def int_sum(self, loc, entry, le, fn):
        """partial sums of non-negative integers in a loop with a known number of iterations"""
        from .npshim import offsets
        p = cur()
        if self.n is None:
            return None

        def inc(t):
            d = lift(fn(t))
            e = z3.simplify(d.e[0]) if d.kind == "i" else d.e[0]
            if z3.is_int(e):
                return e
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
                return e.arg(0)
            N = p.norm0
            nm, den = N.norm(e)
            r = int_term_r(nm, N) if den == N.ONE else None
            if r is None:
                raise Unsupported("integer partial sum")
            return r
        b = p.bound(self.n)
        if not p.quick(inc(b) >= 0, 1500, trig=True):
            return None
        off, _ = offsets(self.n, inc)
        return IntSum(loc, lambda k: mkscalar("i", (t_add(le.e[0], off(k)),), le.np), fn, entry, inc)

    def appends(self, loc):
        items = None
        vals = []
        st0 = None
        for b, s in self.entry.bufs:
            if b is loc.ref:
                st0 = s
        for e in self.ends:
            v, s = e["end"][loc][1], e["start"][loc]
            # the generic start state is a segment with an empty tail
            if s[1] is None or v[1] is not s[1] or len(v[2]) - len(s[2]) != 1 or len(v[0]) != len(s[0]):
                return None
            vals.append((e["pc"], e["k"], v[2][-1]))
        fn = self._merge(vals)
        return Append(loc, st0, fn)

    def region(self, loc):
        p = cur()
        ends = self.ends
        k0 = ends[0]["k"]
        R, V = z3.BoolVal(False), None
        x = tuple(z3.Int(f"g!x{d}") for d in range(len(loc.ref.shape)))
        own = f"hv!{loc.ref.name or 'buf'}"
        for e in ends:
            _, _, r, v = e["end"][loc]
            if v is None or z3.is_false(r):
                continue
            pc = [c for c in e["pc"]]
            c = t_and(*pc, r)
            c = z3.substitute(c, (e["k"], k0))
            v = tuple(z3.substitute(t, (e["k"], k0)) for t in v)
            V = v if V is None else tuple(t_ite(c, a, b) for a, b in zip(v, V))
            R = t_or(R, c)
        if V is None:
            return None
        if hv_in(R):
            if core.DEBUG:
                print("region of", loc, "depends on havocked state:", R)
            return None
        selfread = any(hv_in(t) for t in V)
        Rf = lambda t, xx: z3.substitute(R, (k0, t), *list(zip(x, xx)))  # noqa
        if selfread and self.own_region is None:
            d = self.defs[loc]
            if isinstance(d, FreeContent) and d.own is None:
                if not self.disjoint(loc, Rf, x):
                    return None
                d.own = Rf
                return d      # retry with the entry content visible inside the iteration's own region
            return None
        if selfread:
            return None
        if not self.disjoint(loc, Rf, x):
            return None
        Vf = lambda t, xx: tuple(reax(z3.substitute(q, (k0, t), *list(zip(x, xx)))) for q in V)  # noqa
        entry = None
        for b, s in self.entry.bufs:
            if b is loc.ref:
                entry = s
        kx = self.solve_k(R, k0, x)
        if kx is not None:
            return Region(loc, self, Rf, Vf, entry, kx=lambda xx: z3.substitute(kx, *list(zip(x, xx))))
        names = {k0.decl().name()} | {q.decl().name() for q in x}
        params = [c for c in p.consts_of(R) if c.decl().name() not in names]
        inv = z3.Function(p.fresh("inv"), *([z3.IntSort()] * (len(params) + len(x))), z3.IntSort())
        n = self.n
        start = getattr(self, "rstart", None)
        np_ = len(params)

        def trig(args):
            """(0<=t<n and R(t,x)) -> inv(x) == t, for the index-like terms around"""
            q = cur()
            ps, xx = args[:np_], args[np_:]
            out = []
            cands = []
            for i in list(q.idx_terms) + [c for a in xx for c in q.consts_of(a)]:
                for off in (0, 1, 2):
                    cands.append(simp(t_sub(i, z3.IntVal(off))))
            seen = []
            for t in cands:
                if any(t.eq(s) for s in seen):
                    continue
                seen.append(t)
                sub = list(zip(params, ps))
                r = Rf(t, xx)
                r = z3.substitute(r, *sub) if sub else r
                dom = z3.And(t >= 0, t < n) if n is not None else t >= 0
                out.append(z3.Implies(z3.And(dom, r), inv(*args) == t))
            return z3.And(*out) if out else None
        p.trigs.append((inv.name(), trig))
        return Region(loc, self, Rf, Vf, entry, inv=inv, params=params)

    def disjoint(self, loc, Rf, x):
        p = cur()
        m = p.mark()
        try:
            k1, k2 = z3.Int(p.fresh("k!")), z3.Int(p.fresh("k!"))
            p.add(z3.And(k1 >= 0, k1 < k2))
            if self.n is not None:
                p.add(k2 < self.n)
            for xx, s in zip(x, loc.ref.shape):
                p.add(z3.And(xx >= 0, xx < s))
            ok = p.holds(z3.Not(z3.And(Rf(k1, x), Rf(k2, x))), 6000)
            if core.DEBUG and not ok:
                print("not disjoint", loc, Rf(k1, x))
            return ok
        finally:
            p.restore(m)

    def solve_k(self, R, k, x):
        """term t(x) with R(k,x) -> k == t(x)"""
        p = cur()
        cands = []
        N = p.norm0

        def walk(t):
            if z3.is_eq(t) and z3.is_int(t.arg(0)):
                cands.append(t_sub(t.arg(0), t.arg(1)))
            elif z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                return
            if z3.is_app(t):
                for c in t.children():
                    walk(c)
        walk(R)
        m = p.mark()
        try:
            p.add(k >= 0)
            if self.n is not None:
                p.add(k < self.n)
            for d in cands:
                num_, den = N.norm(d)
                if den != N.ONE:
                    continue
                lin, rest, bad = 0, {}, False
                for mm, c in num_.items():
                    a = [q for q in mm if N.terms[q[0]].eq(k)]
                    if a:
                        if len(mm) == 1 and mm[0][1] == 1:
                            lin = c
                        else:
                            bad = True
                    else:
                        if any(k.decl().name() in p._syms(N.terms[q[0]]) for q in mm):
                            bad = True
                        rest[mm] = c
                if bad or lin not in (1, -1):
                    continue
                t = int_term({mm: -c / lin for mm, c in rest.items()}, N)
                if t is None:
                    continue
                if p.quick(z3.Implies(R, k == t), 1500):
                    return t
        finally:
            p.restore(m)
        return None

    # -- final verification and exit
    def _prove(self):
        p = cur()
        for rnd in range(8):
            self.exits = []
            fails = []
            self.want = []

            def prep():
                k = self.generic_k()
                self.set_generic(k)
                self.assume_rel(k)
                return k

            def after(k, out, dec, facts):
                if out[0] == "exc" or out[1] is BRK or isret(out[1]):
                    if p.check_valid(z3.BoolVal(False), 3000)[0] != "proved":
                        self.exits.append(tuple(dec.taken))
                    return
                k1 = simp(t_add(k, z3.IntVal(1)))
                now = self.get()
                if self.hooked:
                    self.hook.arrival(self, k, now)
                for loc in self.order:
                    d = self.defs[loc]
                    if isinstance(d, (Free, FreeContent)):
                        continue
                    for g in d.check(k1, loc.get(now), self):
                        st = p.check_valid(g, 8000)
                        self.want.append((loc, d, st))
                        if st[0] != "proved":
                            if core.DEBUG:
                                print("not preserved:", loc, d.name, g, st[0], st[2])
                            fails.append(loc)
                            break
                if self.hooked:
                    fails.extend(self.hook.check_rel(self, k, k1, now))
            self.explore(prep, after)
            if not fails:
                break
            for loc in fails:
                if isinstance(loc, Loc):
                    self.drop(loc)
                    p.imprecise.append(f"{self.info['qual']}:{self.info['line']} {loc!r}")
            if self.hooked:
                self.hook.dropped(self, fails)
        else:
            raise Unsupported("loop invariants do not stabilise")
        # entry
        if self.hooked:
            self.hook.check_entry(self)
        if not p.speculative:
            for loc in self.order:
                d = self.defs[loc]
                if isinstance(d, (Free, FreeContent)):
                    continue
                be = "+".join(sorted({s[1] for l, _, s in self.want if l == loc})) or "definition"
                p.task.obligation(p, core.Ob(f"{self.info['qual']}: loop invariant [{d.name}] of {loc!r} holds initially and is preserved", "proved", be, 0.0, f"line {self.info['line']}"))
            if self.hooked:
                self.hook.report(self)
        # one pass in earnest, so that obligations stated inside the body (callee preconditions) are recorded
        def last(k, out, dec, facts):
            if self.hooked and out[0] == "ok" and out[1] is not BRK and not isret(out[1]):
                now = self.get()
                self.hook.arrival(self, k, now)
                self.hook.final(self, k, now)
        self.explore(lambda: self._prep_final(), last, speculative=False)

    def _prep_final(self):
        k = self.generic_k()
        self.set_generic(k)
        self.assume_rel(k)
        return k

    def assume_rel(self, k):
        if self.hooked:
            self.hook.assume(self, k)

    def drop(self, loc):
        d = self.defs[loc]
        self.defs[loc] = FreeContent(loc, self.entry, self) if loc.kind in "BP" else Free(loc, self._entry_val(loc), self.samples.get(loc, []))

    def _entry_val(self, loc):
        if loc.kind == "L":
            return self.entry.loc.get(loc.name, MISSING)
        if loc.kind == "G":
            return self.entry.ghost.get(loc.name, ghost0(loc.name))
        for o, d in self.entry.objs:
            if o is loc.ref:
                return d.get(loc.name, MISSING)
        return MISSING

    def _leave_early(self, prefix):
        p = cur()
        self.entry.set(self)
        k = self.generic_k()
        old = p.subdec
        # the sub-path's decisions are replayed, then normal forking resumes
        dec = Replay(prefix, old, p)
        p.subdec = dec
        try:
            self.set_generic(k)
            self.outer_log(k)
            self.assume_rel(k)
            try:
                r = self.step(k)
            finally:
                p.subdec = old
        except EngineStop:
            raise PathEnd("exit path")
        if r is CNT:
            raise PathEnd("not an exit")
        return r

    def _leave(self):
        p = cur()
        self.entry.set(self)
        if self.n is not None:
            N = self.n
            p.add(N >= 0)
        else:
            N = z3.Int(p.fresh("k!n"))
            p.add(N >= 0)
        self.set_generic(N, "exit")
        self.outer_log(N)
        self.assume_rel(N)
        if self.cond is not None:
            c = self.cond()
            lc = lift(c)
            if lc is not None and not isinstance(c, bool):
                p.add(t_not(cast(lc.e, lc.kind, "b")[0]))
            elif c:
                raise PathEnd("loop continues")
            # the condition held one iteration earlier
            m = State(self)
            try:
                self.set_generic(simp(t_sub(N, z3.IntVal(1))), "exit")
                c = self.cond()
                lc = lift(c)
                if lc is not None:
                    t = cast(lc.e, lc.kind, "b")[0]
                    if not hv_in(t):
                        p.add(z3.Implies(N > 0, t))
            except (NameError,):
                pass
            m.set(self)
        if self.hooked:
            self.hook.left(self, N)
        return CNT


class EngineStop(BaseException):
    pass


class Replay(SubDec):
    """decisions of an early exit replayed on the main path; further forks go to the enclosing source"""

    def __init__(self, prefix, outer, p):
        self.prefix, self.taken, self.todo = list(prefix), [], _Sink()


class _Sink(list):
    def append(self, x):
        raise Unsupported("an early loop exit forks differently on replay")


class SumTo(Closed):
    name = "partial sum"

    def __init__(self, loc, fn, term, entry, e0):
        Closed.__init__(self, loc, fn, entry, "partial sum")
        self.term = term

    def check(self, k1, v, cut):
        # by the definition of the sum: v == value(k1-1) + term(k1-1)
        k = simp(t_sub(k1, z3.IntVal(1)))
        a, b = lift(self.fn(k)), lift(self.term(k))
        lv = lift(v)
        return [cast(lv.e, lv.kind, "f")[0] == t_add(a.e[0], cast(b.e, b.kind, "f")[0])]


class IntSum(Closed):
    def __init__(self, loc, fn, term, entry, inc):
        Closed.__init__(self, loc, fn, entry, "partial sum")
        self.inc = inc

    def check(self, k1, v, cut):
        k = simp(t_sub(k1, z3.IntVal(1)))
        a, lv = lift(self.fn(k)), lift(v)
        return [lv.e[0] == t_add(a.e[0], self.inc(k))]


class FreeContent(Def):
    """buffer or list content unknown"""

    def __init__(self, loc, entry, cut):
        self.loc = loc
        self.own = None
        for b, s in entry.bufs:
            if b is loc.ref:
                self.entry = s

    def value(self, k, cut):
        p = cur()
        b = self.loc.ref
        if self.loc.kind == "P":
            items, seg, tail = self.entry
            nm = p.fresh("hv!list")
            sample = None
            for s in cut.samples.get(self.loc, []):
                xs = s[2] if s[1] is not None else s[0][len(items):]
                if xs:
                    sample = xs[-1]
            n = z3.Int(nm + "n")
            p.add(n >= (0 if seg is None else seg[0]))
            kd = kindof(sample)
            if kd is None:
                def fn(j):
                    raise Unsupported("element of a list built by an unsummarised loop")
                return (items, (n, fn), [])
            srt = {"b": z3.BoolSort(), "i": z3.IntSort(), "f": z3.RealSort()}.get(kd)
            if srt is None:
                raise Unsupported("list of complex values built by a loop")
            f = z3.Function(nm, z3.IntSort(), srt)
            return (items, (n, lambda j: mkscalar(kd, (f(j),))), [])
        nm = p.fresh(f"hv!{b.name or 'buf'}")
        nd = len(b.shape)
        if b.kind == "c":
            fr, fi = z3.Function(nm + "r", *([z3.IntSort()] * nd), z3.RealSort()), z3.Function(nm + "i", *([z3.IntSort()] * nd), z3.RealSort())
            ef = lambda x: (fr(*x), fi(*x))  # noqa
        else:
            srt = {"b": z3.BoolSort(), "i": z3.IntSort(), "f": z3.RealSort()}[b.kind]
            f = z3.Function(nm, *([z3.IntSort()] * nd), srt)
            ef = lambda x: (f(*x),)  # noqa
        if self.own is not None and cut.phase == "generic":
            own, entry = self.own, self.entry

            def g(x):
                q = cur()
                c = simp(own(k, x))
                if z3.is_true(c) or q.quick(c, 400):
                    return entry(x)
                if z3.is_false(c) or q.quick(z3.Not(c), 400):
                    return ef(x)
                return tuple(t_ite(c, a, e) for a, e in zip(entry(x), ef(x)))
            return EF(g)
        return EF(ef)

    def check(self, k1, v, cut):
        return []


def dec_conds(p, dec, facts):
    return [f for f in facts if f.get_id() not in p.derived]


def int_ok(coefs, den, N, deg):
    if den != N.ONE:
        return False
    for e, c in coefs.items():
        for m, q in c.items():
            if q.denominator != 1:
                return False
            if any(not z3.is_int(N.terms[a]) for a, _ in m):
                return False
    return deg <= 1


def int_term(pd, N):
    r = z3.IntVal(0)
    for m, c in pd.items():
        if c.denominator != 1:
            return None
        t = z3.IntVal(int(c))
        for a, e in m:
            q = N.terms[a]
            if not z3.is_int(q):
                return None
            for _ in range(e):
                t = t_mul(t, q)
        r = t_add(r, t)
    return r


def int_term_r(pd, N):
    """integer term of a polynomial over integer atoms given as reals"""
    r = z3.IntVal(0)
    for m, c in pd.items():
        if c.denominator != 1:
            return None
        t = z3.IntVal(int(c))
        for a, e in m:
            q = N.terms[a]
            if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_TO_REAL:
                q = q.arg(0)
            if not z3.is_int(q):
                return None
            for _ in range(e):
                t = t_mul(t, q)
        r = t_add(r, t)
    return r


def int_closed(e0, coefs, N, k):
    r = e0
    for e, c in coefs.items():
        ct = int_term(c, N)
        if e == 0:
            r = t_add(r, t_mul(ct, k))
        elif e == 1:
            # Σ t = k(k-1)/2, kept integral: an even coefficient divides out, otherwise integer division
            half = {m: q / 2 for m, q in c.items()}
            if all(q.denominator == 1 for q in half.values()):
                r = t_add(r, t_mul(int_term(half, N), t_sub(t_mul(k, k), k)))
            else:
                r = t_add(r, t_mul(ct, (t_sub(t_mul(k, k), k)) / z3.IntVal(2)))
    return r


def int_poly(r, k):
    raise Unsupported("integer closed form")
