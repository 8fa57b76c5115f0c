"""Concrete side: independent numeric oracles run against the real package in CPython.

They are not what decides a property (the contracts are); they replay a failed obligation on the real code, stand in
(bounded) where an obligation could not be decided, and cross-check the verifier's reading of the code on every run.
"""
import contextlib
import io
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

REPO = os.environ.get("PXV_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

import numpy as np  # noqa

ORACLES = {}
HINTS = []


class Fail(Exception):
    pass


class Skip(Exception):
    """this case says nothing"""


# ---- record the global random draws (before the package is imported, so that "from numpy.random import randn" is seen too)
class Rec:
    def __init__(self):
        self.normals, self.uniforms, self.laplaces = [], [], []

    def clear(self):
        self.normals, self.uniforms, self.laplaces = [], [], []

    def flat(self, which):
        a = getattr(self, which)
        return np.concatenate([np.ravel(x) for x in a]) if a else np.zeros(0)


REC = Rec()


def _wrap(name, which, std=lambda a, k: True):
    orig = getattr(np.random, name)

    def f(*a, **k):
        r = orig(*a, **k)
        if std(a, k):
            getattr(REC, which).append(np.array(r, dtype=float))
        return r
    f.__name__ = name
    setattr(np.random, name, f)


for _n in ("randn", "standard_normal"):
    _wrap(_n, "normals")
_wrap("normal", "normals", lambda a, k: (a[0] if a else k.get("loc", 0)) == 0 and (a[1] if len(a) > 1 else k.get("scale", 1)) == 1)
for _n in ("rand", "random", "random_sample", "ranf", "sample"):
    _wrap(_n, "uniforms")
_wrap("uniform", "uniforms", lambda a, k: (a[0] if a else k.get("low", 0)) == 0 and (a[1] if len(a) > 1 else k.get("high", 1)) == 1)


# ---- registration
def oracle(prop, quick=20, deep=200, name=None):
    def deco(fn):
        ORACLES.setdefault(prop, []).append((name or fn.__name__, fn, quick, deep))
        return fn
    return deco


class Ctx:
    """one case: random source, size hint, and the inputs to report"""

    def __init__(self, rng, rnd, seed):
        self.rng, self.round, self.seed, self.inputs = rng, rnd, seed, {}
        self.trivial = False
        # sizes suggested by the verifier's counterexamples and by the integer constants of the source
        self.hint = HINTS[(rnd // 3) % len(HINTS)] + rnd % 3 - 1 if HINTS else None

    def size(self, default, cap, lo=1):
        """a dimension, the suggested one if there is one"""
        if self.hint is not None and lo <= self.hint <= cap:
            return self.hint
        return default

    def inp(self, **k):
        self.inputs.update(k)

    def n(self, lo=1, hi=8):
        """dimension: small first"""
        if self.hint is not None and self.rng.random() < 0.6 and lo <= self.hint <= 130:
            return self.hint
        return int(self.rng.integers(lo, min(hi, lo + 1 + self.round) + 1))

    def pick(self, *xs):
        return xs[int(self.rng.integers(len(xs)))]

    def vec(self, n, kind="f", special=True):
        r = self.rng
        shape = n if isinstance(n, tuple) else (n,)
        if kind == "i":
            return r.integers(-5, 6, size=shape)
        x = r.normal(size=shape) * 10.0 ** r.integers(-2, 3)
        if kind == "c":
            x = x + 1j * r.normal(size=shape)
        if special and x.size:
            m = r.random(size=shape)
            x[m < 0.12] = 0
            x[(m > 0.12) & (m < 0.2)] = r.choice([1.0, -1.0, 0.5, 2.0])
            if self.hint is not None and r.random() < 0.5:
                x[(m > 0.2) & (m < 0.4)] = self.hint * r.choice([1.0, -1.0, 1.5, 0.99])
        return x


def js(v, lim=60):
    if isinstance(v, np.ndarray):
        f = v.ravel()
        return dict(shape=list(v.shape), dtype=str(v.dtype), data=[js(x) for x in f[:lim].tolist()], truncated=bool(f.size > lim))
    if isinstance(v, complex):
        return repr(v)
    if isinstance(v, (np.generic,)):
        return js(v.item())
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [js(x) for x in v[:lim]]
    if isinstance(v, dict):
        return {str(k): js(x) for k, x in v.items()}
    if hasattr(v, "toarray"):
        return js(v.toarray())
    return repr(v)[:200]


def same(what, got, want, rtol=1e-7, atol=None):
    """numeric equality up to rounding, shapes included"""
    g, w = np.asarray(got), np.asarray(want)
    g, w = [a.astype(complex if any(isinstance(x, complex) for x in a.ravel()) else float) if a.dtype == object else a for a in (g, w)]
    if g.shape != w.shape:
        raise Fail(f"{what}: shape {g.shape}, expected {w.shape}")
    if g.size == 0:
        return
    sc = float(np.max(np.abs(w[np.isfinite(w)]))) if np.isfinite(w).any() else 1.0
    a = (1e-9 * max(sc, 1e-6) if atol is None else atol)
    bad = ~(np.isclose(g, w, rtol=rtol, atol=a, equal_nan=True))
    if bad.any():
        i = tuple(int(x[0]) for x in np.nonzero(np.atleast_1d(bad)))
        raise Fail(f"{what}: entry {i} is {np.atleast_1d(g)[i]!r}, expected {np.atleast_1d(w)[i]!r}")


def raises(what, types, fn, *a, **k):
    try:
        r = fn(*a, **k)
    except types:
        return
    except Exception as e:
        raise Fail(f"{what}: raised {type(e).__name__} ({e}) instead of {types}")
    raise Fail(f"{what}: not refused, returned {r!r:.100}")


class Frozen:
    """inputs that must come out as they went in"""

    def __init__(self, **k):
        self.k, self.v = k, {a: self.freeze(b) for a, b in k.items()}

    @staticmethod
    def freeze(b):
        if isinstance(b, np.ndarray):
            return (b.dtype, b.shape, b.tobytes())
        if hasattr(b, "toarray"):
            return (type(b), b.toarray().tobytes())
        if isinstance(b, (list, tuple)):
            return [Frozen.freeze(x) for x in b]
        if isinstance(b, dict):
            return {k: Frozen.freeze(x) for k, x in b.items()}
        return repr(b)

    def check(self, when=""):
        for a, b in self.k.items():
            if self.freeze(b) != self.v[a]:
                raise Fail(f"{a} was modified{when}")


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as s:
        yield s


class TooLong(Exception):
    pass


@contextlib.contextmanager
def limit(secs):
    def h(*a):
        raise TooLong(f"did not complete within {secs} s")
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_case(prop, name, fn, seed, rnd):
    h = zlib.crc32(f"{prop}/{name}/{seed}/{rnd}".encode())
    c = Ctx(np.random.default_rng(h), rnd, seed)
    np.random.seed(h % (2 ** 32))
    REC.clear()
    try:
        with limit(150):
            fn(c)
        return "ok", c, None
    except Skip:
        return "skip", c, None
    except Fail as e:
        return "fail", c, str(e)
    except TooLong as e:
        return "fail", c, str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(REPO.rstrip("/") + "/pxmcmc" in f.filename for f in tb)
        return ("fail" if inrepo else "fail"), c, f"raised {type(e).__name__}: {e} at " + "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])


def run(prop, seed, deep=False, budget=60.0, only=None):
    t0 = time.time()
    out = dict(property=prop, evaluations=0, skipped=0, distinct=0, samples=[], failures=[], oracles=[], stopped_early=False)
    seen = set()
    ors = [o for o in ORACLES.get(prop, []) if only is None or o[0] == only]
    share = budget / max(1, len(ors))
    for k, (name, fn, q, d) in enumerate(ors):
        n = d if deep else q
        t1, done = time.time(), 0
        for rnd in range(n):
            if time.time() - t1 > share * 1.5 or time.time() - t0 > budget:
                out["stopped_early"] = True
                break
            st, c, msg = run_case(prop, name, fn, seed, rnd)
            done += 1
            out["evaluations"] += 1
            if st == "skip":
                out["skipped"] += 1
                continue
            key = zlib.crc32(repr(js(c.inputs)).encode())
            if (name, key) not in seen:
                seen.add((name, key))
                out["distinct"] += 1
            if rnd == 1 and len(out["samples"]) < 4:
                out["samples"].append(dict(oracle=name, round=rnd, inputs=js(c.inputs, 12)))
            if st == "fail":
                out["failures"].append(dict(oracle=name, round=rnd, seed=seed, message=msg, inputs=js(c.inputs)))
                break
        out["oracles"].append(dict(oracle=name, rounds=done, bound=fn.__doc__ or ""))
    out["wall_s"] = round(time.time() - t0, 2)
    return out
