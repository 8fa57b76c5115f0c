#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (between the BEGIN/END comments) from evidence/, seeded/ and known_findings.json."""
import glob
import json
import os
import re

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda *a: json.load(open(os.path.join(H, *a)))  # noqa


def table():
    out = ["| property | contracts | obligations discharged | paths | functions of the package executed | solver / ring / simplifier | wall s |", "|---|---|---|---|---|---|---|"]
    for l in open(os.path.join(H, "properties.jsonl")):
        d = json.loads(l)
        e = J("evidence", d["id"] + ".json")
        c = e["coverage"]
        b = c["discharged_by_backend"]
        sol = sum(v for k, v in b.items() if k not in ("ring", "z3-simplify"))
        out.append(f"| {d['id']} {d['title']} | {c['contracts_fully_discharged']}/{c['contracts']} | {c['discharged']}/{c['obligations']} | {c['paths']} | {len(c['functions_under_contract'])} | {sol} / {b.get('ring', 0)} / {b.get('z3-simplify', 0)} | {e['wall_s']:.0f} |")
    return out


def fixes():
    k = J("known_findings.json")
    return ["* " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"**\1** (`\2`) ", x) for x in k["fixed"]]


def seeds():
    out = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['property']} quick |")
    return out


p = os.path.join(H, "DESIGN.md")
s = open(p).read()
for name, fn in (("TABLE", table), ("FIXES", fixes), ("SEEDS", seeds)):
    new = f"<!-- BEGIN {name} -->\n" + "\n".join(fn()) + f"\n<!-- END {name} -->"
    if f"@{name}@" in s:
        s = s.replace(f"@{name}@", new)
    else:
        s = re.sub(f"<!-- BEGIN {name} -->.*?<!-- END {name} -->", lambda m: new, s, flags=re.S)
open(p, "w").write(s)
