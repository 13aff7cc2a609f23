"""C01: a request that returns, returns what generation from scratch with the same options gives."""
from .. import nodes
from ..cachesim import cache_files, describe, gen_phase, gen_request, new_home, pick_n, run_phase, wrong
from ..core import Violation
from ..procsim import gen_tears, tear


def gen_nodes(rng):
    """Requests from interpreters with different hash seeds and random streams, one after the other, over one cache."""
    n = rng.choice((7, 7, 7, 6, 5))
    tasks = [{"node": k % 2 if k < 2 else rng.randrange(2), "entropy": rng.randrange(10 ** 6), "n": n,
              "flags": [] if k < 2 or n > 6 else gen_request(rng, n)["flags"], "tears": gen_tears(rng) if rng.random() < 0.2 else []}
             for k in range(rng.choice((2, 2, 3)))]
    return {"mode": "nodes", "hashes": [str(rng.randrange(1000)) for _ in range(2)], "tasks": tasks}


def execute_nodes(plan, ctx):
    home, namer = new_home(ctx)
    live = nodes.start_nodes(plan["hashes"])
    try:
        for k, t in enumerate(plan["tasks"]):
            node = live[t["node"]]
            node.start(f"c01-{t['entropy']}", home)
            ans = []
            for fn in ("invariants", "invariants_uncached"):
                res = node.call("nodefns:" + fn, t["n"], t["flags"])
                if res[0] != "ok":
                    if res[1] in ("NodeDied", "Protocol") or fn == "invariants_uncached":
                        raise RuntimeError(str(res))
                    ans.append(None)
                else:
                    ans.append(res[1])
            node.stop()
            ctx.log("node", k, t["n"], t["flags"], "raised" if ans[0] is None else len(ans[0]["full"]), len(ans[1]["full"]))
            ctx.state("node", t["n"], t["flags"], [namer(f) for f in cache_files(home)])
            ctx.switches += 1
            ctx.probe("request-raised" if ans[0] is None else "request-returned")
            ctx.fault("other-hash-seed")
            if ans[0] is not None and ans[0] != ans[1]:
                raise Violation("wrong-list", f"process {k} (hash seed {plan['hashes'][t['node']]}), request n={t['n']} options={t['flags']}: {describe(ans[0], ans[1])}")
            tear(t["tears"], cache_files(home), ctx, namer)
    finally:
        for node in live:
            node.kill()


def gen(rng, tier, index):
    if index % 75 == 7:
        return gen_nodes(rng)
    ns = [pick_n(rng, tier)]
    if rng.random() < 0.3:
        ns.append(rng.choice([3, 4, 5]))
    phases = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        ph = gen_phase(rng, ns, faulty=rng.random() < 0.75)
        ph["backend"] = None
        phases.append(ph)
    phases.append(gen_phase(rng, ns, faulty=False))
    backend = rng.choice(["ndbm", "ndbm", "dumb"])
    for ph in phases:
        ph["backend"] = backend if rng.random() < 0.9 else rng.choice(["ndbm", "dumb"])
    return {"seed": rng.randrange(10 ** 6), "tasks": phases}


def execute(plan, ctx):
    if plan.get("mode") == "nodes":
        return execute_nodes(plan, ctx)
    home, namer = new_home(ctx)
    for i, ph in enumerate(plan["tasks"]):
        ctx.log("phase", i, ph["backend"])
        sim, outcomes = run_phase(ctx, ph, home, namer, ph["backend"], plan["seed"] * 10 + i)
        wrong(outcomes)
