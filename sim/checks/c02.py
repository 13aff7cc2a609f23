"""C02: fault-free requests succeed whatever happened before, and are then answered from the cache."""
from ..cachesim import cache_state, gen_phase, new_home, pick_n, run_phase
from ..core import Violation


def gen(rng, tier, index):
    n = pick_n(rng, tier)
    backend = rng.choice(["ndbm", "ndbm", "ndbm", "dumb"])
    phases = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        ph = gen_phase(rng, [n], faulty=True)
        if rng.random() < 0.3 and not ph["tears"]:
            ph["tears"] = [{"file": rng.randrange(4), "mode": rng.choice(["empty", "trunc", "zero", "drop"]), "frac": rng.random()}]
        phases.append(ph)
    final = gen_phase(rng, [n], faulty=False, nproc=rng.choice([1, 2, 3, 4]), default_only=rng.random() < 0.6)
    return {"seed": rng.randrange(10 ** 6), "n": n, "backend": backend, "tasks": phases, "final": final}


def must_succeed(sim, outcomes, phase, what):
    for i, p in enumerate(sim.procs):
        if p["res"] is None or "ok" not in p["res"]:
            raise Violation("fault-free-request-died", f"{what}, process {i}: {p['res']}")
    for idx, res in outcomes:
        if "exc" in res:
            raise Violation("fault-free-request-failed", f"{what}, process {idx}, n={res['n']} options={res['flags']}: {res['exc']}\n{res['msg']}")
        if not res["ok"]:
            raise Violation("fault-free-request-wrong", f"{what}, process {idx}, n={res['n']} options={res['flags']}: {res['bad']}")
    if sim.status != "done":
        raise Violation("fault-free-requests-stuck", f"{what}: {sim.status} after {sim.step} steps")


def execute(plan, ctx):
    home, namer = new_home(ctx)
    for i, ph in enumerate(plan["tasks"]):
        ctx.log("phase", i)
        run_phase(ctx, ph, home, namer, plan["backend"], plan["seed"] * 10 + i)
    ctx.log("fault-free")
    if plan["final"]["procs"]:
        sim, outcomes = run_phase(ctx, dict(plan["final"], faults=[], tears=[]), home, namer, plan["backend"], plan["seed"] * 10 + 7)
        must_succeed(sim, outcomes, plan["final"], "fault-free phase")
    one = {"procs": [{"ops": [{"n": plan["n"], "flags": []}]}], "sched": [], "faults": []}
    sim, first = run_phase(ctx, one, home, namer, plan["backend"], 8, count=True)
    must_succeed(sim, first, one, "first default request")
    before = cache_state(home)
    sim, second = run_phase(ctx, one, home, namer, plan["backend"], 9, count=True)
    must_succeed(sim, second, one, "repeated default request")
    if cache_state(home) != before:
        raise Violation("warm-request-changed-cache", f"n={plan['n']}: {before} became {cache_state(home)}")
    if plan["n"] >= 5:
        cold = {"procs": [{"ops": [{"n": plan["n"], "flags": ["no_cached"]}]}], "sched": [], "faults": []}
        sim, third = run_phase(ctx, cold, home, namer, plan["backend"], 10, count=True)
        must_succeed(sim, third, cold, "request that bypasses the cache")
        warm, scratch = second[0][1]["calls"], third[0][1]["calls"]
        ctx.log("calls", warm < scratch / 3)
        if warm >= scratch / 3:
            raise Violation("warm-request-regenerates", f"n={plan['n']}: {warm} calls on a warm cache, {scratch} without the cache")
