"""C15: coefficient packing and unpacking."""
from .common import *


def utils():
    return world().load("pxmcmc.utils")


KINDS = ["f", "c"]


@variants("C15", "pack multiresolution", dict(kind=KINDS))
def pack1(p, kind):
    u = utils()
    ns, nw = sym_int("nscal", 1), sym_int("nwav", 1)
    s, w = sym_arr("scal", (ns,), kind), sym_arr("wav", (nw,), kind)
    fr = Frame(scal=s, wav=w)
    se, we = vec(s), vec(w)
    r = ok(p, "flatten_mlm", attempt(u.flatten_mlm, w, s))
    prove_arr(p, "flatten_mlm(wav, scal)", r, (ns + nw,), lambda idx: tuple(t_ite(idx[0] < ns.t, a, b) for a, b in zip(se(idx[0]), we(idx[0] - ns.t))))
    w2, s2 = ok(p, "expand_mlm", attempt(u.expand_mlm, r, nscalcoefs=ns))
    prove_arr(p, "unpacking the packed vector: scaling", s2, (ns,), lambda idx: se(idx[0]))
    prove_arr(p, "unpacking the packed vector: wavelets", w2, (nw,), lambda idx: we(idx[0]))
    fr.check(p)


@variants("C15", "unpack multiresolution", dict(kind=KINDS))
def unpack1(p, kind):
    u = utils()
    ns, n = sym_int("nscal", 1), sym_int("n", 1)
    p.assume(n.t > ns.t)
    x = sym_arr("mlm", (n,), kind)
    fr = Frame(mlm=x)
    xe = vec(x)
    w, s = ok(p, "expand_mlm", attempt(u.expand_mlm, x, nscalcoefs=ns))
    prove_arr(p, "scaling", s, (ns,), lambda idx: xe(idx[0]))
    prove_arr(p, "wavelets", w, (n - ns,), lambda idx: xe(idx[0] + ns.t))
    r = ok(p, "flatten_mlm", attempt(u.flatten_mlm, w, s))
    prove_arr(p, "packing what was unpacked", r, (n,), lambda idx: xe(idx[0]))
    fr.check(p)


@variants("C15", "pack fixed length", dict(kind=KINDS))
def pack2(p, kind):
    u = utils()
    v, J = sym_int("length", 1), sym_int("nscales", 1)
    s, w = sym_arr("scal", (v,), kind), sym_arr("wav", (v, J), kind)
    fr = Frame(scal=s, wav=w)
    se, wf = vec(s), w.snap()
    we = lambda i, j: cast(wf((i, j)), kind, "c")  # noqa
    r = ok(p, "flatten_mlm", attempt(u.flatten_mlm, w, s))
    n = t_mul(v.t, t_add(J.t, z3.IntVal(1)))
    p.prove("length of the packed vector", it(len_(r)) == n)
    i, j = p.generic(v.t), p.generic(J.t)
    for c in range(2):
        p.prove("scaling first", elem(r, (i,))[c] == se(i)[c])
        p.prove("then scale by scale", elem(r, (flat(p, t_add(j, z3.IntVal(1)), i, v.t),))[c] == we(i, j)[c])
    w2, s2 = ok(p, "expand_mlm", attempt(u.expand_mlm, r, nscales=J))
    prove_arr(p, "unpacking the packed table: scaling", s2, (v,), lambda idx: se(idx[0]))
    prove_arr(p, "unpacking the packed table: wavelets", w2, (v, J), lambda idx: we(*idx))
    fr.check(p)


def len_(a):
    return a.shape[0]


def flat(p, q, r, b):
    return p.flat(q, r, b)


@variants("C15", "unpack fixed length", dict(kind=KINDS, flatten=[False, True]))
def unpack2(p, kind, flatten):
    u = utils()
    v, J = sym_int("length", 1), sym_int("nscales", 1)
    n = t_mul(v.t, t_add(J.t, z3.IntVal(1)))
    x = sym_arr("mlm", (ival(n),), kind)
    fr = Frame(mlm=x)
    xe = vec(x)
    w, s = ok(p, "expand_mlm", attempt(u.expand_mlm, x, nscales=J, flatten_wavs=flatten))
    prove_arr(p, "scaling", s, (v,), lambda idx: xe(idx[0]))
    if not flatten:
        prove_arr(p, "wavelet table", w, (v, J), lambda idx: xe(flat(p, t_add(idx[1], z3.IntVal(1)), idx[0], v.t)))
    else:
        prove_arr(p, "flat wavelets", w, (ival(t_mul(v.t, J.t)),), lambda idx: xe(t_add(idx[0], v.t)))
    r = ok(p, "flatten_mlm", attempt(u.flatten_mlm, w, s))
    prove_arr(p, "packing what was unpacked", r, (ival(n),), lambda idx: xe(idx[0]))
    fr.check(p)


@variants("C15", "neither or both layout sizes are refused", dict(both=[False, True], flatten=[False, True]))
def refuse(p, both, flatten):
    u = utils()
    x = sym_arr("mlm", (sym_int("n", 1),), "c")
    k = dict(nscales=sym_int("nscales", 0), nscalcoefs=sym_int("nscalcoefs", 0)) if both else {}
    refused(p, "refused", attempt(u.expand_mlm, x, flatten_wavs=flatten, **k), Exception)
