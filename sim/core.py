"""Core of the simulator: plans, runs, worker pool, shrinking, replay files and evidence.

A *plan* is a JSON value that fixes one simulated run completely: configuration, operations, schedule (list of
preemptions) and faults.  Plans are generated from (VERIF_SEED, property, run index) only.  A run executes a plan in a
forked, disposable process and returns an event-log digest, so that one seed is one exactly repeatable execution.
"""
import collections
import hashlib
import json
import os
import random
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LIPS_REPO", "/repo")
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replays")
KNOWN = os.path.join(VERIF, "known-findings.json")
LIPS_DIR = os.path.join(REPO, "lips") + os.sep


class Violation(Exception):
    """The property is broken; `kind` is the violation class that minimisation preserves."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, str(detail)


class Skip(Exception):
    """The plan cannot be executed (e.g. after shrinking removed what it needs)."""


class Ctx:
    """What one run records."""

    def __init__(self, scratch, shared):
        self.scratch, self.shared = scratch, shared
        self.events, self.faults, self.probes, self.states = [], collections.Counter(), collections.Counter(), set()
        self.vtime, self.switches, self.steps = 0.0, 0, 0
        self.sched = hashlib.sha256()

    def log(self, *items):
        self.events.append("|".join(map(str, items)))

    def fault(self, kind):
        self.faults[kind] += 1
        self.log("FAULT", kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *items):
        self.states.add(hashlib.sha256("|".join(map(str, items)).encode()).hexdigest()[:12])

    def check(self, ok, kind, detail=""):
        if not ok:
            raise Violation(kind, detail() if callable(detail) else detail)

    def digest(self):
        return hashlib.sha256("\n".join(self.events).encode("utf-8", "backslashreplace")).hexdigest()[:16]


def rng_for(seed, prop, index, salt=""):
    return random.Random(int.from_bytes(hashlib.sha256(f"{seed}|{prop}|{index}|{salt}".encode()).digest()[:8], "big"))


def through_lips(exc):
    """True if the exception was raised by or below library code."""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(LIPS_DIR):
            return True
        tb = tb.tb_next
    return False


def load_check(prop):
    import importlib
    return importlib.import_module(f"sim.checks.{prop.lower()}")


# --------------------------------------------------------------------------------------------------------------- runs

def execute_here(check, plan, scratch, shared):
    """Executes a plan in this process; never raises."""
    ctx = Ctx(scratch, shared)
    out = {"violation": None, "error": None, "skip": False}
    t0 = time.monotonic()
    try:
        check.execute(plan, ctx)
    except Skip as e:
        out["skip"] = str(e) or "skip"
    except Violation as e:
        out["violation"] = {"kind": e.kind, "detail": e.detail[:2000]}
    except BaseException as e:                                      # noqa
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if through_lips(e):
            out["violation"] = {"kind": f"unexpected-{type(e).__name__}", "detail": text}
        else:
            out["error"] = text
    if out["violation"]:
        ctx.log("VIOLATION", out["violation"]["kind"])
    out.update(digest=ctx.digest(), nevents=len(ctx.events), faults=dict(ctx.faults), probes=dict(ctx.probes),
               states=sorted(ctx.states), vtime=ctx.vtime, switches=ctx.switches, steps=ctx.steps,
               wall=round(time.monotonic() - t0, 3), events=ctx.events[-400:])
    return out


def reap(pid):
    try:
        os.waitpid(pid, 0)
    except ChildProcessError:
        pass


def forked_run(check, plan, shared, limit):
    """Executes a plan in a forked child with its own session and scratch directory."""
    scratch = tempfile.mkdtemp(prefix="run.", dir=shared)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setsid()
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            os.environ["HOME"] = scratch
            os.chdir(scratch)
            data = json.dumps(execute_here(check, plan, scratch, shared)).encode()
            view = memoryview(data)
            while view:
                view = view[os.write(w, view):]
        finally:
            os._exit(0)
    os.close(w)
    chunks, deadline, timed_out = [], time.monotonic() + limit, False
    sel = selectors.DefaultSelector()
    sel.register(r, selectors.EVENT_READ)
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        if sel.select(left):
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            chunks.append(chunk)
    sel.close()
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    reap(pid)
    subprocess.run(["chmod", "-R", "u+rwx", scratch], stderr=subprocess.DEVNULL) if os.path.exists(scratch + "/.ro") else None
    shutil.rmtree(scratch, ignore_errors=True)
    if timed_out:
        return {"violation": None, "error": None, "skip": False, "timeout": limit, "digest": "timeout", "wall": limit}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"violation": None, "error": "run process died without a result", "skip": False, "died": True, "digest": "died", "wall": 0}


# ------------------------------------------------------------------------------------------------------------- worker

def worker_main(prop):
    """Reads requests {plan|index, limit} as JSON lines, writes results; imports the library once."""
    proto_out = os.fdopen(os.dup(1), "w", buffering=1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    import warnings
    warnings.filterwarnings("ignore")
    shared = os.environ["SIM_SHARED"]
    check = load_check(prop)
    if hasattr(check, "worker_init"):
        check.worker_init(shared)
    proto_out.write(json.dumps({"ready": True}) + "\n")
    for line in sys.stdin:
        req = json.loads(line)
        plan = req.get("plan")
        if plan is None:
            plan = check.gen(rng_for(req["seed"], prop, req["index"]), req["tier"], req["index"])
        res = forked_run(check, plan, shared, req["limit"])
        if (res.get("timeout") or res.get("died")) and hasattr(check, "worker_reset"):
            check.worker_reset(shared)
        res["id"] = req["id"]
        if res.get("violation") or res.get("error") or res.get("timeout") or req.get("want_plan"):
            res["plan"] = plan
        else:
            res["events"] = res.get("events", [])[:60]
        proto_out.write(json.dumps(res) + "\n")
    if hasattr(check, "worker_exit"):
        check.worker_exit()


class Pool:
    def __init__(self, prop, n, shared, hashseed="0"):
        self.prop, self.shared, self.hashseed = prop, shared, hashseed
        self.workers = []
        for i in range(n):
            self.workers.append(self.spawn())

    def spawn(self):
        env = dict(os.environ, SIM_SHARED=self.shared, HOME=self.shared, PYTHONHASHSEED=self.hashseed, PYTHONUTF8="1",
                   PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   PYTHONPATH=VERIF + os.pathsep + REPO, PYTHONWARNINGS="ignore")
        p = subprocess.Popen([PYTHON, "-m", "sim.core", "worker", self.prop], cwd=self.shared, env=env,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.path.join(self.shared, "worker.err"), "ab"),
                             start_new_session=True)
        p.busy, p.ready, p.buf = None, False, b""
        return p

    def submit(self, worker, req):
        worker.busy = req
        worker.stdin.write((json.dumps(req) + "\n").encode())
        worker.stdin.flush()

    def map(self, reqs, on_result, deadline):
        """Feeds requests (an iterator) to idle workers; on_result(req, res) may return True to stop feeding."""
        it, stop, pending_exhausted = iter(reqs), False, False
        sel = selectors.DefaultSelector()
        for w in self.workers:
            sel.register(w.stdout, selectors.EVENT_READ, w)
        dead = 0
        for w in self.workers:
            if w.ready and w.busy is None and not stop and not pending_exhausted:
                req = next(it, None)
                if req is None:
                    pending_exhausted = True
                else:
                    self.submit(w, req)
        while True:
            active = [w for w in self.workers if w.busy is not None or not w.ready]
            if not active or (pending_exhausted or stop) and not any(w.busy for w in self.workers):
                break
            for key, _ in sel.select(5):
                w = key.data
                chunk = os.read(w.stdout.fileno(), 1 << 20)
                if not chunk:
                    sel.unregister(w.stdout)
                    dead += 1
                    req, w.busy, w.ready = w.busy, None, True
                    self.workers.remove(w)
                    if req is not None:
                        on_result(req, {"violation": None, "error": "worker died", "skip": False, "digest": "died", "wall": 0})
                    if dead > 20:
                        raise RuntimeError("workers keep dying: " + self.errors())
                    w2 = self.spawn()
                    self.workers.append(w2)
                    sel.register(w2.stdout, selectors.EVENT_READ, w2)
                    continue
                w.buf += chunk
                while b"\n" in w.buf:
                    line, w.buf = w.buf.split(b"\n", 1)
                    res = json.loads(line)
                    if "ready" in res:
                        w.ready = True
                    else:
                        req, w.busy = w.busy, None
                        stop = bool(on_result(req, res)) or stop
                    if time.monotonic() > deadline:
                        stop = True
                    if not stop and not pending_exhausted and w.busy is None:
                        nxt = next(it, None)
                        if nxt is None:
                            pending_exhausted = True
                        else:
                            self.submit(w, nxt)
        sel.close()

    def one(self, req):
        box = []
        self.map([req], lambda q, r: box.append(r), time.monotonic() + 10 ** 6)
        return box[0] if box else {"violation": None, "error": "no result", "skip": False, "digest": "none", "wall": 0}

    def errors(self):
        try:
            with open(os.path.join(self.shared, "worker.err"), errors="replace") as f:
                return f.read()[-3000:]
        except OSError:
            return ""

    def close(self):
        for w in self.workers:
            try:
                os.killpg(w.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            w.wait()
            w.stdin.close() if False else None


# ------------------------------------------------------------------------------------------------------- minimisation

LIST_KEYS = ("faults", "sched", "ops", "procs", "tasks", "targets", "history")


def lists_in(plan, path=()):
    """Paths of all shrinkable lists in a plan."""
    found = []
    if isinstance(plan, dict):
        for k in plan:
            if k in LIST_KEYS and isinstance(plan[k], list) and plan[k]:
                found.append(path + (k,))
            found += lists_in(plan[k], path + (k,))
    elif isinstance(plan, list):
        for i, v in enumerate(plan):
            if isinstance(v, (dict, list)):
                found += lists_in(v, path + (i,))
    return found


def get_path(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def without(plan, path, lo, hi):
    new = json.loads(json.dumps(plan))
    lst = get_path(new, path)
    del lst[lo:hi]
    return new


def shrink(pool, plan, kind, limit, budget_s=90, budget_runs=250):
    """Delta debugging over all lists of the plan; keeps a candidate only if the same violation class persists."""
    t_end, used, changed = time.monotonic() + budget_s, 0, True
    nid = 0
    while changed and time.monotonic() < t_end and used < budget_runs:
        changed = False
        for path in sorted(lists_in(plan), key=lambda p: (len(p), p.__repr__())):
            try:
                n = len(get_path(plan, path))
            except (KeyError, IndexError, TypeError):
                continue
            size = n
            while size >= 1 and time.monotonic() < t_end and used < budget_runs:
                cands = []
                try:
                    n = len(get_path(plan, path))
                except (KeyError, IndexError, TypeError):
                    break
                for lo in range(0, n, size):
                    cands.append(without(plan, path, lo, min(n, lo + size)))
                good = {}
                reqs = [{"id": nid + i, "plan": c, "limit": limit} for i, c in enumerate(cands)]
                base, nid = nid, nid + len(cands)
                used += len(cands)

                def got(req, res):
                    if res.get("violation") and res["violation"]["kind"] == kind:
                        good[req["id"] - base] = True
                        return True
                pool.map(reqs, got, t_end)
                if good:
                    plan = cands[min(good)]
                    changed = True
                    size = min(size, max(1, len(get_path(plan, path))))
                    if not get_path(plan, path):
                        break
                else:
                    size //= 2
    return plan, used


# --------------------------------------------------------------------------------------------------------------- main

def known_findings(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except OSError:
        return []
    return [e for e in data.get("findings", []) if e.get("property") == prop and e.get("status") == "known"]


def matches(entry, violation):
    return violation["kind"] == entry["kind"] and entry.get("match", "") in violation["detail"]


def make_shared():
    return tempfile.mkdtemp(prefix="lipsim.", dir=os.environ.get("TMPDIR", "/tmp"))


def run_check(prop, tier, seed):
    t0 = time.monotonic()
    shared = make_shared()
    os.makedirs(REPLAYS, exist_ok=True)
    try:
        return _run_check(prop, tier, seed, shared, t0)
    finally:
        shutil.rmtree(shared, ignore_errors=True)


def _run_check(prop, tier, seed, shared, t0):
    from . import catalogue
    info = catalogue.INFO[prop]
    runs = info["runs"][tier]
    cap = info["cap"][tier]
    limit = info.get("limit", 60)
    scale = float(os.environ.get("SIM_SCALE", "1"))
    runs = max(1, int(runs * scale))
    pool = Pool(prop, int(os.environ.get("SIM_WORKERS", "8")), shared)
    known = known_findings(prop)
    agg = {"faults": collections.Counter(), "probes": collections.Counter(), "states": set(), "digests": set(), "nontrivial": set(),
           "vtime": 0.0, "switches": 0, "steps": 0, "n": 0, "skips": 0, "events": 0}
    hits, errors, unrepro, timeouts, knowns = [], [], [], [], {}
    samples = []

    def on_result(req, res):
        agg["n"] += 1
        if os.environ.get("SIM_DIGESTS"):
            with open(os.environ["SIM_DIGESTS"], "a") as f:
                f.write(f"{req['index']} {res.get('digest')}\n")
        if res.get("skip"):
            agg["skips"] += 1
            return False
        agg["faults"].update(res.get("faults", {}))
        agg["probes"].update(res.get("probes", {}))
        agg["states"].update(res.get("states", ()))
        agg["digests"].add(res["digest"])
        if res.get("nevents", 0) >= 2 and (res.get("faults") or res.get("switches") or res.get("nevents", 0) >= 4):
            agg["nontrivial"].add(res["digest"])
        agg["vtime"] += res.get("vtime", 0)
        agg["switches"] += res.get("switches", 0)
        agg["steps"] += res.get("steps", 0)
        agg["events"] += res.get("nevents", 0)
        if len(samples) < 3 and res.get("events") and res.get("faults"):
            samples.append({"index": req["index"], "digest": res["digest"], "events": [e[:160] for e in res["events"][:25]]})
        if res.get("timeout"):
            timeouts.append((req, res))
            return len(timeouts) >= 3
        if res.get("error"):
            errors.append((req, res))
            return len(errors) >= 5
        v = res.get("violation")
        if v:
            for e in known:
                if matches(e, v):
                    knowns.setdefault(e["id"], (e, v))
                    return False
            hits.append((req, res))
            return True
        return False

    reqs = ({"id": i, "index": i, "seed": seed, "tier": tier, "limit": limit} for i in range(runs))
    try:
        pool.map(reqs, on_result, t0 + cap)
    except RuntimeError as e:
        errors.append(({"index": -1}, {"error": str(e)}))

    violation = None
    # a run that made no progress within the wall guard is repeated with three times the limit before it counts
    for req, res in timeouts:
        again = pool.one({"id": 0, "plan": res["plan"], "limit": 3 * limit, "want_plan": True})
        if again.get("timeout"):
            hits.append((req, dict(res, violation={"kind": "no-progress", "detail": f"run did not end within {3 * limit} s, twice"})))
            break
        elif again.get("violation"):
            hits.append((req, again))
    # a run whose process died is repeated; dying again while inside the library is a violation
    for req, res in [e for e in errors if e[1].get("died")]:
        again = [pool.one({"id": 0, "plan": res["plan"], "limit": limit, "want_plan": True}) for _ in range(2)]
        if all(a.get("died") for a in again):
            hits.append((req, dict(res, violation={"kind": "process-died", "detail": "the interpreter died while executing the run, three times"})))
            errors = [e for e in errors if e[1] is not res]
        break

    for req, res in sorted(hits, key=lambda h: h[0].get("index", 0)):
        kind = res["violation"]["kind"]
        if kind in ("no-progress", "process-died"):
            ok, fin = True, res
        else:
            ok = False
            for _ in range(3):
                fin = pool.one({"id": 0, "plan": res["plan"], "limit": limit, "want_plan": True})
                if fin.get("violation") and fin["violation"]["kind"] == kind:
                    ok = True
                    break
        if not ok:
            unrepro.append({"index": req.get("index"), "kind": kind, "detail": res["violation"]["detail"][:300]})
            continue
        plan, used = res["plan"], 0
        if kind not in ("no-progress", "process-died"):
            left = max(10, min(info.get("shrink_s", 60), t0 + cap + 120 - time.monotonic()))
            plan, used = shrink(pool, plan, kind, limit, budget_s=left)
            fin2 = pool.one({"id": 0, "plan": plan, "limit": limit, "want_plan": True})
            fin = fin2 if fin2.get("violation") else fin
            plan = fin.get("plan", plan)
        violation = {"property": prop, "seed": seed, "index": req.get("index"), "tier": tier, "violation": fin["violation"],
                     "digest": fin["digest"], "shrink_runs": used, "plan": plan, "trace": fin.get("events", [])}
        break
    pool.close()

    wall = time.monotonic() - t0
    per_h = round(agg["n"] / wall * 3600) if wall else 0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": info["level"], "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
        "assumptions": info["assumptions"],
        "coverage": {
            "evaluations": agg["n"], "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": info["rule"], "samples": samples or [{"note": "no sample with a fired fault in this run"}],
            "runs_requested": runs, "runs_skipped": agg["skips"], "runs_per_hour": per_h, "seeds_per_hour": per_h,
            "simulated_seconds": round(agg["vtime"], 3), "scheduler_steps": agg["steps"], "context_switches": agg["switches"],
            "events_logged": agg["events"], "distinct_event_logs": len(agg["digests"]),
            "distinct_states": len(agg["states"]), "state_measure": info["state_measure"],
            "faults_injected": dict(sorted(agg["faults"].items())), "probes": dict(sorted(agg["probes"].items())),
            "real_components": info["real"], "stub_components": info["stub"],
            "unreproduced": unrepro, "known_findings_seen": sorted(knowns),
        },
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{prop}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))

    for e, v in knowns.values():
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    if violation:
        path = os.path.join(REPLAYS, f"{prop}-{seed}-{violation['index']}.json")
        with open(path, "w") as f:
            json.dump(violation, f, indent=1, ensure_ascii=False)
        print(f"{prop}: {violation['violation']['kind']}: {violation['violation']['detail'][:600]}")
        print(f"{prop}: run {violation['index']} of seed {seed}, {agg['n']} runs, {wall:.1f} s")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print(f"{prop}: harness error: {errors[0][1]['error']}", file=sys.stderr)
        return 2
    if agg["n"] - agg["skips"] <= 0:
        print(f"{prop}: nothing was executed", file=sys.stderr)
        return 2
    print(f"{prop}: held on {agg['n']} simulated runs ({len(agg['nontrivial'])} distinct non-trivial), {sum(agg['faults'].values())} faults, "
          f"{wall:.1f} s, {per_h} runs/h" + (f", {len(unrepro)} unreproduced" if unrepro else ""))
    return 0


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    shared = make_shared()
    try:
        pool = Pool(rec["property"], 1, shared)
        res = pool.one({"id": 0, "plan": rec["plan"], "limit": 600, "want_plan": True})
        pool.close()
    finally:
        shutil.rmtree(shared, ignore_errors=True)
    for e in res.get("events", []):
        print("  ", e[:200])
    v = res.get("violation")
    print("violation:", v, "digest:", res.get("digest"), "recorded:", rec["violation"]["kind"], rec["digest"], "error:", res.get("error"))
    same = bool(v) and v["kind"] == rec["violation"]["kind"] and res["digest"] == rec["digest"]
    print("replay reproduces the recorded violation exactly" if same else "replay DIFFERS from the record")
    if v:
        print(f"VIOLATION property={rec['property']} replay={path}")
    return 1 if v else 0


def main(argv):
    if argv[0] == "worker":
        worker_main(argv[1])
        return 0
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "selftest":
        from . import selftest
        return selftest.main(argv[1:])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run_check(prop, tier, seed)


if __name__ == "__main__":
    from sim.core import main as _main          # one module identity for exceptions
    sys.exit(_main(sys.argv[1:]))
