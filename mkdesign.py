#!/usr/bin/env python3
"""Writes DESIGN.md from doc/ and the seeded bugs."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
out = "".join(open(f"{here}/doc/design.{p}.md").read() for p in ("head", "props", "tail"))
res = dict(l.split(None, 1) for l in open(here + "/doc/seeded-results.txt") if l.strip())
out += "## Seeded bugs and the checks that catch them\n\nEach lies in `seeded/<id>/`; the check that has to catch it is its property's. Run with `VERIF_TIER=quick`, seed 1.\n\n| bug | what it does | needs | outcome |\n|---|---|---|---|\n"
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    out += f"| {d} | {m['what_it_breaks']} | {m['needs']} | {res.get(d, 'not run').strip()} |\n"
open(here + "/DESIGN.md", "w").write(out)
