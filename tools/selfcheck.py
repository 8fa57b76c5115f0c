#!/usr/bin/env python3
"""setup_cmd: nothing is built; confirm that the two interpreters have what the checks need."""
import subprocess
import sys
for cmd in (["python3-vt", "-c", "import z3, cvc5, numpy"], ["/opt/venv/bin/python", "-c", "import numpy, scipy, h5py, pyssht, pys2let, astropy"]):
    r = subprocess.run(cmd)
    if r.returncode:
        sys.exit(1)
print("ok")
