"""Setup and determinism self-test.

`selftest` checks that the interpreter, the library and the algebra system are there.  `selftest determinism [n]` runs
the first n plans of every check twice, with other worker counts and in interpreters with another hash seed, and
compares the event-log digests.
"""
import os
import shutil
import subprocess
import sys
import tempfile

from . import catalogue, core


def digests(prop, n, workers, hashseed, seed):
    shared = tempfile.mkdtemp(prefix="lipsim.")
    out = {}
    try:
        pool = core.Pool(prop, workers, shared, hashseed=hashseed)

        def got(req, res):
            out[req["index"]] = (res["digest"], res.get("violation"), res.get("error"))
        limit = catalogue.INFO[prop].get("limit", 60)
        pool.map([{"id": i, "index": i, "seed": seed, "tier": "quick", "limit": limit} for i in range(n)], got, 1e18)
        pool.close()
    finally:
        shutil.rmtree(shared, ignore_errors=True)
    return out


def determinism(n, props):
    bad = 0
    for prop in props:
        for seed in (1, 77):
            ref = digests(prop, n, 8, "0", seed)
            for workers, hs in ((3, "0"), (8, "12345")):
                other = digests(prop, n, workers, hs, seed)
                diff = [i for i in ref if ref[i] != other.get(i)]
                print(f"{prop} seed {seed}: {len(ref)} runs, workers {workers}, hash seed {hs}: {len(diff)} differ {diff[:5]}", flush=True)
                bad += len(diff)
    return 1 if bad else 0


def main(argv):
    if argv and argv[0] == "determinism":
        n = int(argv[1]) if len(argv) > 1 else 60
        return determinism(n, argv[2:] or list(catalogue.INFO))
    r = subprocess.run([core.PYTHON, "-c", "import lips, syngular, pyadic, mpmath, numpy, sympy; print(lips.__file__)"],
                       env=dict(os.environ, PYTHONPATH=core.REPO), stdout=subprocess.PIPE, text=True)
    print("library:", r.stdout.strip())
    s = subprocess.run(["Singular", "--quiet", "--execute", "quit;"], stdin=subprocess.DEVNULL)
    return 0 if r.returncode == 0 and s.returncode == 0 else 1
