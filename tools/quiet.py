#!/usr/bin/env python3
"""Runs every check against refactored code (refactored/*.diff), in a private mount namespace: /repo and /verif stay as they are.
usage: quiet.py [-c C01,C02,...] [-j jobs] [diff name ...]"""
import argparse, concurrent.futures, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from box import Box
verif = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ap = argparse.ArgumentParser()
ap.add_argument("-c", default="")
ap.add_argument("-j", type=int, default=3)
ap.add_argument("-t", default="quick")
ap.add_argument("--diff", action="append", default=[])
ap.add_argument("names", nargs="*")
o = ap.parse_args()
ids = o.c.split(",") if o.c else [c["property"] for c in json.load(open(f"{verif}/MANIFEST.json"))["checks"]]
diffs = [f"{verif}/refactored/{n}.diff" for n in (o.names or sorted(d[:-5] for d in os.listdir(f"{verif}/refactored")))] if not o.diff else o.diff
box = Box()
bad = 0
try:
    for d in diffs:
        name = os.path.basename(d)[:-5]
        box.apply(d)
        def run(i):
            r = box.run(f"exec ./run.sh {i} {o.t}")
            return i, r.returncode, (r.stdout + r.stderr)
        first = run(ids[0])   # builds
        with concurrent.futures.ThreadPoolExecutor(o.j) as ex:
            results = [first] + list(ex.map(run, ids[1:]))
        loud = [(i, rc, out) for i, rc, out in results if rc]
        print(name, "quiet" if not loud else "LOUD " + " ".join(f"{i}:{rc}" for i, rc, _ in loud), flush=True)
        for i, rc, out in loud:
            bad += 1
            print("   ", i, "\n".join(out.strip().splitlines()[-3:])[:900], flush=True)
finally:
    box.close()
sys.exit(bool(bad))
