"""Workload shared by C01 and C02: processes requesting Invariants over a simulated disk."""
import json
import os
import sys

from .common import lips, h
from .core import LIPS_DIR, Violation
from .procsim import Namer, ProcSim, gen_tears, note, preemptions, tear

CATS = ("invs_2", "invs_3", "invs_4", "invs_5", "invs_s", "invs_D", "invs_O", "invs_P", "invs_tr5")
FLAGS = ("no_hard_coded_ones", "Restrict3Brackets", "Restrict4Brackets", "FurtherRestrict4Brackets")
ERRS = ["ENOSPC", "ENOSPC", "EIO", "EACCES", "EMFILE", "short", "interrupt", "memory"]
STABLE = {".cache", "lips", "invariants", "invariants.db", "invariants.dat", "invariants.dir", "invariants.bak", "home"}


def snapshot_of(inv):
    cats = {c: list(getattr(inv, c)) for c in CATS}
    cats["full"] = list(inv.full)
    return cats


def opts_of(flags):
    """Non-default options of a request; 'no_cached' bypasses the cache."""
    return {f: (f in ("no_hard_coded_ones", "no_cached")) for f in flags}


_oracle = {}


def oracle(n, flags, shared):
    """Generation from scratch with the same options; stored once per check run."""
    flags = [f for f in flags if f not in ("no_cached", "verbose")]
    key = f"oracle-{n}-{'-'.join(sorted(flags))}"
    if key not in _oracle:
        path = os.path.join(shared, key)
        if not os.path.exists(path):
            val = snapshot_of(lips.Invariants(n, no_cached=True, **opts_of(flags)))
            tmp = f"{path}.{os.getpid()}"
            with open(tmp, "w") as f:
                json.dump(val, f)
            os.replace(tmp, path)
        with open(path) as f:
            _oracle[key] = json.load(f)
    return _oracle[key]


def pick_n(rng, tier):
    return rng.choice([5, 5, 5, 5, 4, 4, 3, 6] if rng.random() < 0.3 else [5, 5, 5, 4, 3])


def gen_request(rng, n, default_only=False):
    if default_only or rng.random() < 0.6:
        flags = []
    else:
        flags = rng.sample(FLAGS, rng.choice([1, 1, 2])) if n <= 5 else ["no_hard_coded_ones"]
        if rng.random() < 0.2:
            flags.append("no_cached")
    if rng.random() < 0.1:
        flags = flags + ["verbose"]
    return {"n": n, "flags": sorted(flags)}


def gen_phase(rng, ns, faulty, nproc=None, default_only=False):
    nproc = nproc or rng.choice([1, 2, 2, 3, 3, 4])
    procs = []
    for _ in range(nproc):
        procs.append({"ops": [dict(gen_request(rng, rng.choice(ns), default_only), mutate=rng.random() < 0.5)
                              for _ in range(rng.choice([1, 1, 1, 2, 3]))]})
    faults = []
    if faulty:
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            k = rng.choice([rng.randint(1, 12), rng.randint(1, 40), rng.randint(8, 60)])
            faults.append([rng.randrange(nproc), k, "crash" if rng.random() < 0.5 else rng.choice(ERRS)])
    return {"procs": procs, "sched": preemptions(rng, nproc, 60 * nproc), "faults": faults,
            "tears": gen_tears(rng) if faulty and rng.random() < 0.45 else []}


def cache_files(home):
    out = []
    for d, _, fs in os.walk(os.path.join(home, ".cache")):
        for f in fs:
            out.append(os.path.join(d, f))
    return sorted(out)


def cache_state(home):
    out = []
    for p in cache_files(home):
        with open(p, "rb") as f:
            out.append((os.path.relpath(p, home), h(f.read().decode("latin1"))))
    return out


class CallCounter:
    """Counts Python calls made while it is active (how much work a request does)."""

    def __enter__(self):
        self.n = 0

        def prof(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(LIPS_DIR):
                self.n += 1
        sys.setprofile(prof)
        return self

    def __exit__(self, *exc):
        sys.setprofile(None)


def do_requests(seam, ops, shared, home, count=False):
    """Runs in a child: performs requests, checks answers against the oracle lists, reports outcomes."""
    out = []
    for op in ops:
        flags = op["flags"]
        kw = opts_of([f for f in flags if f != "verbose"])
        if "verbose" in flags:
            kw["verbose"] = True
        try:
            if count:
                with CallCounter() as c:
                    inv = lips.Invariants(op["n"], **kw)
                calls = c.n
            else:
                inv, calls = lips.Invariants(op["n"], **kw), 0
            got = snapshot_of(inv)
            ok = got == oracle_in_child(seam, op["n"], flags, shared)
            bad = "" if ok else describe(got, oracle_in_child(seam, op["n"], flags, shared))
            res = {"n": op["n"], "flags": flags, "ok": ok, "bad": bad, "calls": calls}
            if op.get("mutate"):                     # the caller owns the result and may modify it
                for c in CATS:
                    lst = getattr(inv, c)
                    if isinstance(lst, list):
                        lst.append("junk")
                        lst[:1] = []
        except (KeyboardInterrupt, MemoryError) as e:
            res = {"n": op["n"], "flags": flags, "exc": type(e).__name__, "msg": ""}
        except Exception as e:      # noqa
            import traceback
            res = {"n": op["n"], "flags": flags, "exc": type(e).__name__, "msg": traceback.format_exc()[-900:]}
        out.append(res)
        note(seam, res)
    return out


def oracle_in_child(seam, n, flags, shared):
    busy, seam.busy = seam.busy, True
    try:
        return oracle(n, flags, shared)
    finally:
        seam.busy = busy


def describe(got, want):
    for c in list(CATS) + ["full"]:
        if got[c] != want[c]:
            extra = [x for x in got[c] if x not in want[c]]
            missing = [x for x in want[c] if x not in got[c]]
            return f"{c}: {len(got[c])} entries instead of {len(want[c])}; unexpected {extra[:4]}, missing {missing[:4]}"
    return ""


def setup_backend(name):
    def setup(idx):
        import dbm
        import dbm.dumb
        import dbm.ndbm
        dbm._modules.update({"dbm.dumb": dbm.dumb, "dbm.ndbm": dbm.ndbm})
        if name == "dumb":
            dbm._defaultmod = dbm.dumb
        elif name == "ndbm":
            dbm._defaultmod = dbm.ndbm
    return setup


def run_phase(ctx, phase, home, namer, backend, seed, count=False):
    """Runs the processes of one phase; returns their outcomes in order of completion."""
    outcomes = []

    def on_msg(idx, res):
        outcomes.append((idx, res))
        ctx.log("P", idx, "answer", res["n"], ",".join(res["flags"]), res.get("exc", res.get("ok")))
        if "exc" in res:
            ctx.probe("request-raised")
        else:
            ctx.probe("request-returned")

    def on_step(sim):
        if sim.step % 3 == 0:
            files = ",".join(namer(f) for f in cache_files(home))
            ctx.state(";".join(f"{p['at']}" if p["state"] != "dead" else "x" for p in sim.procs), files)

    sim = ProcSim(ctx, home, phase["sched"], phase["faults"], namer, seed=seed, on_step=on_step, on_msg=on_msg, setup=setup_backend(backend))
    for proc in phase["procs"]:
        ops = proc["ops"]
        sim.spawn(lambda seam, ops=ops: len(do_requests(seam, ops, ctx.shared, home, count)))
    sim.status = sim.run()
    tear(phase.get("tears", []), cache_files(home), ctx, namer)
    return sim, outcomes


def new_home(ctx):
    home = os.path.join(ctx.scratch, "home")
    os.makedirs(home)
    os.environ["HOME"] = home
    os.chdir(home)
    return home, Namer(home, STABLE)


def wrong(outcomes):
    for idx, res in outcomes:
        if "exc" not in res and not res["ok"]:
            raise Violation("wrong-list", f"process {idx}, request n={res['n']} options={res['flags']}: {res['bad']}")
