"""Run the contracts of a property: python3-vt -m pxv.run C12 [-v] [-k substring]"""
import importlib
import json
import os
import sys
import time
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def load(prop):
    from pxv import spec
    if prop not in spec.TASKS:
        importlib.import_module("contracts." + prop.lower())
    return spec.TASKS.get(prop, [])


def one(prop, i):
    from pxv import core
    name, fn, params, budget = load(prop)[i]
    core.Task._serial = 0
    t = core.Task(name, lambda p: fn(p, **params), budget)
    try:
        t.run()
        crash = None
    except BaseException as e:      # noqa - reported, never taken for a proof
        import traceback
        crash = "".join(traceback.format_exception(e))[-3000:]
    return dict(name=name, obs=[dict(name=o.name, status=o.status, backend=o.backend, secs=round(o.secs, 3), detail=o.detail, model=o.model if o.status != "proved" else None,
                                     path=list(o.decisions)) for o in t.obs],
                unsupported=t.unsupported, stats=t.stats, covered=t.covered, funcs=sorted(t.funcs), stubs=sorted(t.stubs_used), imprecise=sorted(t.imprecise),
                wall=round(t.wall, 2), crash=crash)


def _w(a):
    sys.setrecursionlimit(20000)
    return one(*a)


def run(prop, only=None, procs=None, deadline=None, sink=None):
    """results in task order; a task not finished at the deadline is reported as such"""
    t0 = time.time()
    ts = load(prop)
    idx = [i for i, t in enumerate(ts) if only is None or only in t[0]]
    if procs == 1:
        return [_w((prop, i)) for i in idx]
    out = {}
    # longest first
    order = sorted(idx, key=lambda i: -ts[i][3])
    pool = mp.get_context("fork").Pool(min(procs or 8, len(idx)), maxtasksperchild=8)
    try:
        res = {i: pool.apply_async(_w, ((prop, i),)) for i in order}
        for i in order:
            left = None if deadline is None else max(0.1, deadline - (time.time() - t0))
            try:
                out[i] = res[i].get(left)
            except mp.TimeoutError:
                out[i] = dict(name=ts[i][0], obs=[], unsupported=["not finished at the deadline of the run"], stats={"paths": 0, "solver_s": 0.0}, covered=0, funcs=[], stubs=[],
                              imprecise=[], wall=0.0, crash=None)
    finally:
        pool.terminate()
    return [out[i] for i in idx]


if __name__ == "__main__":
    prop = sys.argv[1]
    verbose = "-v" in sys.argv
    only = sys.argv[sys.argv.index("-k") + 1] if "-k" in sys.argv else None
    t0 = time.time()
    if "--json" in sys.argv:
        dl = float(sys.argv[sys.argv.index("--deadline") + 1]) if "--deadline" in sys.argv else None
        json.dump(run(prop, deadline=dl), open(sys.argv[sys.argv.index("--json") + 1], "w"), default=str)
        sys.exit(0)
    for r in run(prop, only, 1 if "-1" in sys.argv else None):
        bad = [o for o in r["obs"] if o["status"] != "proved"]
        print(f"{'OK ' if not bad and not r['unsupported'] and not r['crash'] and r['covered'] else 'BAD'} {r['name']}: {len(r['obs'])} obligations, {len(bad)} open, paths {r['stats']['paths']}, covered {r['covered']}, {r['wall']} s")
        if r["crash"]:
            print(r["crash"])
        for u in dict.fromkeys(r["unsupported"]):
            print("   unsupported:", u)
        for o in (r["obs"] if verbose else bad):
            print("   ", o["status"], o["name"], "|", o["backend"], o["secs"], o["detail"][:600] if o["status"] != "proved" else "", o["model"] or "")
        if verbose:
            print("   functions", r["funcs"], "stubs", r["stubs"], r["stats"])
    print("total", round(time.time() - t0, 1))
