#!/usr/bin/env python3
"""mkseed.py FILE.py...: each FILE defines ID, PROPERTY, EDITS=[(path, old, new)], DEMO (python text), NEEDS, BREAKS.
Confirms the planted bug in a scratch copy (tests pass, demo passes before and fails after) and writes seeded/<ID>/."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
SH = '#!/bin/bash\n# run with cwd = the repository\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def demo(d, tree):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=tree, env=ENV, capture_output=True, text=True, timeout=300)


def main(f):
    s = runpy.run_path(f)
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        t = os.path.join(tmp, "repo")
        shutil.copytree("/repo", t, symlinks=True)
        for path, old, new in s["EDITS"]:
            q = os.path.join(t, path)
            txt = open(q).read()
            assert txt.count(old) == 1, (path, old, txt.count(old))
            open(q, "w").write(txt.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=t, capture_output=True, text=True).stdout
        d = os.path.join(tmp, "d")
        os.mkdir(d)
        open(os.path.join(d, "demo.py"), "w").write(s["DEMO"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        a, b = demo(d, "/repo"), demo(d, t)
        r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "-rfE"], cwd=t, env=dict(ENV, PYTHONPATH=t),
                           capture_output=True, text=True)
        fails = [x.split()[1] for x in r.stdout.splitlines() if x.startswith(("FAILED", "ERROR"))]
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = json.dumps(base)
        bad = [x for x in fails if x.split("::")[-1] in stable]
        print(s["ID"], "demo unchanged", a.returncode, "patched", b.returncode, "| tests:", r.stdout.strip().splitlines()[-1], "stable failures:", bad)
        if a.returncode != 0 or b.returncode == 0 or bad:
            print(a.stdout[-500:], a.stderr[-800:], b.stdout[-500:], b.stderr[-500:])
            return 1
        print("   patched:", (b.stderr.strip().splitlines() or b.stdout.strip().splitlines() or [""])[-1][:200])
        out = os.path.join(HERE, "seeded", s["ID"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        shutil.copy(os.path.join(d, "demo.py"), out)
        shutil.copy(os.path.join(d, "demo.sh"), out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        return 0
    finally:
        shutil.rmtree(tmp)


sys.exit(max(main(f) for f in sys.argv[1:]))
