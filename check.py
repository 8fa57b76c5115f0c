#!/usr/bin/env python3
"""Decide one property: python3 check.py C12 [quick|thorough]

1. the verifier (pxv, run by python3-vt) generates and discharges the obligations of contracts/<id>.py from the current
   source of the repository;
2. the concrete oracles (concrete/, run by /opt/venv/bin/python against the same source) look for a failing input.

exit 0  every obligation discharged (or, where an obligation could not be decided, the bounded stand-in found nothing;
        the evidence then says "bounded" for those tasks)
exit 1  VIOLATION property=<id> replay=<file>, with a failing input replayed on the real code, or, where an obligation is
        refuted and no input was found, the same line ending in no-failing-input-found
exit 2  error of the check itself
"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "python3-vt"
PY = "/opt/venv/bin/python"
REPO = os.environ.get("PXV_REPO", "/repo")

TRUSTED = [
    "pxv: executes the real source in CPython on symbolic operands; its numpy/scipy/h5py/pyssht/pys2let stand-ins (pxv/npshim.py, pxv/arrays.py, pxv/extshim.py) are assumed contracts of those libraries",
    "z3 4.x/5.x (python binding), cvc5, and the polynomial normaliser pxv/poly.py",
    "CPython and the loop summariser pxv/loops.py (its summaries are proved inductive, entry + step, before they are used)",
]
ASSUME = [
    "floating-point numbers are treated as real numbers (no rounding, overflow, NaN or infinity; decimal literals denote the decimal)",
    "division by zero is not modelled: operands are assumed to be such that the code's own divisions are defined",
    "numpy, scipy.sparse, h5py, astropy, pyssht and pys2let satisfy the contracts in pxv/*shim.py; transforms, quantile, sort, matrix inverse and FFT are uninterpreted functions of their arguments",
    "random draws are fresh unconstrained values of the stated shape (uniforms in (0,1)); their distribution is that of the numpy/scipy call used",
    "finite sums are linear, and two finite sums may be exchanged",
]


def load_known():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)


def run_json(cmd, out, timeout, env):
    try:
        r = subprocess.run(cmd, cwd=HERE, timeout=timeout, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        err = r.stderr[-3000:]
    except subprocess.TimeoutExpired:
        err = "timeout"
    try:
        with open(out) as f:
            return json.load(f), err
    except (OSError, ValueError):
        return None, err


def concrete(prop, tmp, env, seed, budget, deep=True, tag="", hints=()):
    out = os.path.join(tmp, f"conc{tag}.json")
    cmd = [PY, "-m", "concrete.run", prop, "--seed", str(seed), "--budget", str(budget), "--json", out] + (["--deep"] if deep else [])
    if hints:
        cmd += ["--hints", ",".join(map(str, hints))]
    r, err = run_json(cmd, out, budget * 2 + 120, env)
    for f in (r or {}).get("failures", []):
        f["hints"] = list(hints)
    return r, err


def suggested(bad):
    """sizes worth replaying: integers of the verifier's counter-models and of the source text"""
    import ast
    import warnings
    warnings.simplefilter("ignore")
    out = []

    def num(v, top=True):
        if isinstance(v, dict):
            for x in v.values():
                num(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                num(x)
        else:
            try:
                n = abs(int(float(str(v).split("/")[0].rstrip("?"))))
            except (ValueError, OverflowError):
                return
            if 2 <= n <= 700 and n not in out:
                out.append(n)
    for _, o in bad[:6]:
        m = o.get("model") or {}
        num({k: v for k, v in m.items() if not isinstance(v, dict)})
    out = out[:12]
    pk = os.path.join(REPO, "pxmcmc")
    for f in sorted(os.listdir(pk)):
        if f.endswith(".py") and f != "plotting.py":
            try:
                tree = ast.parse(open(os.path.join(pk, f)).read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and type(n.value) in (int, float) and n.value > 4 and float(n.value).is_integer():
                    num(n.value)
    return out[:40]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PXV_REPO=REPO)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="pxv")
    try:
        return decide(prop, tier, seed, t0, env, tmp)
    finally:
        subprocess.run(["rm", "-rf", tmp])


def decide(prop, tier, seed, t0, env, tmp):
    vout = os.path.join(tmp, "v.json")
    deadline = 560 if tier == "quick" else 3000
    c1, cerr = concrete(prop, tmp, env, seed, 40 if tier == "quick" else 150)
    if c1 is None:
        print(f"error: the concrete oracles did not run: {cerr}")
        return 2
    if c1["failures"]:
        deadline = min(deadline, 240)       # a failing input is known; the verifier names the obligations it can
    vcmd = [VT, "-m", "pxv.run", prop, "--json", vout, "--deadline", str(deadline)]
    tasks, verr = run_json(vcmd, vout, deadline + 60, env)
    if tasks is None:
        tasks = []
        print(f"note: the verifier did not finish: {verr[-1500:]}")
    refuted, undecided, obs, failed = [], [], [], []
    for t in tasks:
        bad = [o for o in t["obs"] if o["status"] != "proved"]
        obs += t["obs"]
        failed += [(t["name"], o) for o in bad]
        refuted += [(t["name"], o) for o in bad if o["status"] == "refuted"]
        why = [f"{o['name']}: {o['status']}" for o in bad if o["status"] != "refuted"] + t["unsupported"]
        if t["crash"]:
            why.append("verifier error: " + t["crash"][-400:])
        if not t["covered"] and not why and not bad:
            why.append("no path reached the postcondition")
        if not t["obs"] and not why:
            why.append("no obligations generated")
        if why:
            undecided.append((t["name"], why))
    if not tasks:
        undecided.append(("all tasks", [verr[-500:]]))
    conc = [c1]
    fails = list(c1["failures"])
    need = refuted or undecided
    if not fails and (need or tier == "thorough"):
        hints = suggested(failed) if need else ()
        for k in range(1, 7 if need else 5):
            if time.time() - t0 > (800 if tier == "quick" else 5000):
                break
            c, _ = concrete(prop, tmp, env, seed + 1000 * k, 30 if tier == "quick" else 120, tag=str(k), hints=hints if k % 2 else ())
            if c is not None:
                conc.append(c)
                fails += c["failures"]
                if fails:
                    break
    known = load_known()
    lines = []
    for k in known.get("findings", []):
        if k["property"] == prop and reproduces(k, env):
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    viol = None
    if fails or refuted:
        path = os.path.join("replays", f"{prop}.json")
        f0 = fails[0] if fails else None
        rep = dict(property=prop, repository=REPO,
                   failing_input=f0, rerun=None if f0 is None else f"cd {HERE} && {PY} -m concrete.run {prop} --only {f0['oracle']} --round {f0['round']} --seed {f0['seed']}" + (" --hints " + ",".join(map(str, f0["hints"])) if f0.get("hints") else ""),
                   failed_obligations=[dict(task=n, obligation=o["name"], status=o["status"], backend=o["backend"], verifier_output=o["detail"], counterexample=o["model"], path=o["path"])
                                       for n, o in refuted[:20]],
                   undecided=undecided[:20])
        with open(os.path.join(HERE, path), "w") as f:
            json.dump(rep, f, indent=1, default=str)
        viol = f"VIOLATION property={prop} replay={os.path.join(HERE, path)}" + ("" if fails else " no-failing-input-found")
    wall = time.time() - t0
    ndis = sum(o["status"] == "proved" for o in obs)
    back = {}
    for o in obs:
        if o["status"] == "proved":
            for b in o["backend"].split("+"):
                back[b] = back.get(b, 0) + 1
    cov = dict(obligations=len(obs), discharged=ndis, checker_cmd=" ".join(vcmd[:4]), trusted_base=TRUSTED,
               contracts=len(tasks), contracts_fully_discharged=len(tasks) - len({n for n, _ in undecided} | {n for n, _ in refuted}),
               functions_under_contract=sorted({f for t in tasks for f in t["funcs"]}),
               callee_contracts_used=sorted({f for t in tasks for f in t["stubs"]}),
               paths=sum(t["stats"].get("paths", 0) for t in tasks), covered_paths=sum(t["covered"] for t in tasks), loops_cut=sum(t["stats"].get("loops_cut", 0) for t in tasks),
               discharged_by_backend=back, solver_s=round(sum(t["stats"].get("solver_s", 0) for t in tasks), 2),
               refuted=[f"{n}: {o['name']}" for n, o in refuted],
               bounded_stand_in=[dict(task=n, why=w[:3]) for n, w in undecided],
               evaluations=sum(c["evaluations"] for c in conc), distinct_nontrivial=sum(c["distinct"] for c in conc),
               rule="concrete cross-check: each oracle draws random inputs (small first) from VERIF_SEED and compares the real function with an independent computation; non-trivial: distinct inputs",
               samples=c1["samples"], concrete_oracles=c1["oracles"])
    complete = not undecided and not refuted and ndis == len(obs) > 0
    ev = dict(property=prop, tier=tier, seed=seed, level="proof" if complete or viol else "exploration", coverage=cov, assumptions=ASSUME + extra_assumptions(prop),
              wall_s=round(wall, 2), violations=1 if viol else 0)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for ln in lines:
        print(ln)
    print(f"{prop}: {ndis}/{len(obs)} obligations discharged in {len(tasks)} contracts, {sum(c['evaluations'] for c in conc)} concrete cases, {wall:.1f} s"
          + ("" if complete else "; NOT fully proved: " + "; ".join(f"{n} ({w[0][:160]})" for n, w in undecided[:6]) if undecided else ""))
    if viol:
        for n, o in refuted[:6]:
            print(f"  failed obligation: {n}: {o['name']}")
        if fails:
            print(f"  failing input: {fails[0]['oracle']} round {fails[0]['round']}: {fails[0]['message'][:400]}")
        print(viol)
        return 1
    if undecided:
        print(f"  bounded stand-in decided {len(undecided)} contract(s): no failing input in {sum(c['evaluations'] for c in conc)} cases")
    return 0


def extra_assumptions(prop):
    try:
        with open(os.path.join(HERE, "assumptions.json")) as f:
            return json.load(f).get(prop, [])
    except OSError:
        return []


def reproduces(k, env):
    r = subprocess.run([PY, "-c", k["reproduce"]], cwd=HERE, env=dict(env, PYTHONPATH=REPO), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    return r.returncode == 3


if __name__ == "__main__":
    sys.exit(main())
