"""/opt/venv/bin/python -m concrete.run C12 [--deep] [--seed N] [--json OUT] [--only ORACLE --round R]"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concrete import lib  # noqa


def arg(n, d=None):
    return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d


def main():
    prop = sys.argv[1]
    seed = int(arg("--seed", os.environ.get("VERIF_SEED", "1")))
    lib.HINTS += [int(x) for x in arg("--hints", "").split(",") if x]
    for m in ("ops", "misc", "samplers"):
        importlib.import_module("concrete." + m)
    if arg("--round") is not None:
        for name, fn, q, d in lib.ORACLES[prop]:
            if name == arg("--only"):
                st, c, msg = lib.run_case(prop, name, fn, seed, int(arg("--round")))
                print(json.dumps(dict(status=st, message=msg, inputs=lib.js(c.inputs)), indent=1))
                sys.exit(1 if st == "fail" else 0)
        sys.exit(2)
    r = lib.run(prop, seed, "--deep" in sys.argv, float(arg("--budget", "60")), arg("--only"))
    if arg("--json"):
        json.dump(r, open(arg("--json"), "w"), indent=1)
    else:
        print(json.dumps(r, indent=1))
    sys.exit(1 if r["failures"] else 0)


if __name__ == "__main__":
    main()
