"""R01: a seed fixes the generated kinematics."""
import os

from .. import common as C
from .. import nodefns, nodes
from ..core import Skip, Violation

_nodes = []
FIELDS = [C.MPC, C.MPC, ["mpc", 0, 50], C.FF, C.FF, C.FFS, C.PADIC, C.PADIC3, C.QI, C.QQ]
BIG = ("mpc", "finite field", "padic", "gaussian rational", "rational")


def worker_init(shared):
    _nodes[:] = nodes.start_nodes()


def worker_reset(shared):
    for n in _nodes:
        n.kill()
    worker_init(shared)


def worker_exit():
    for n in _nodes:
        n.kill()


def gen_seed(rng):
    return rng.choice((0, 0, 1, 2, rng.randrange(100), rng.randrange(10 ** 6), rng.randrange(2 ** 40), 2 ** 32, 2 ** 64 + 1, -rng.randrange(1, 1000)))


def gen_masses(rng):
    if rng.random() < 0.5:
        return None
    names = rng.sample(["m_t", "m_b", "M", "mu", "m_W", "M_Z", "μ", "m1", "m_2"], rng.randint(1, 4))
    return [rng.choice(("set", "set", "list", "tuple", "dict")), names]


def gen_target(rng, heavy):
    if heavy:
        kind = rng.choice(("uni", "uni", "uni", "bi", "bi", "variety", "variety"))
        n = 4 if rng.random() < 0.4 else 5
        t = {"kind": kind, "n": n, "seed": gen_seed(rng), "seed2": gen_seed(rng), "field": rng.choice((C.FF, C.FF, C.FFS)), "constraints": [], "algorithm": "covariant"}
        if kind == "uni":
            t["algorithm"] = rng.choice(("covariant", "covariant", "generic")) if n == 4 else "covariant"
            if n == 5 and rng.random() < 0.5:
                t["constraints"] = [rng.choice(("⟨1|2⟩", "[2|3]", "⟨3|4⟩", "[4|5]"))]
        elif kind == "variety":
            t["constraints"] = [rng.choice(("⟨1|2⟩", "[2|3]", "⟨3|4⟩"))] + ([rng.choice(("[1|4]", "⟨2|5⟩", "[1|2]"))] if n == 5 and rng.random() < 0.5 else [])
            t["valuations"] = []
            t["seed"] = abs(t["seed"])
            if rng.random() < 0.5:
                t["field"], t["valuations"] = C.PADIC, [1] * len(t["constraints"])
        return t
    kind = rng.choice(("point", "point", "point", "rand", "twistor"))
    n = rng.choice((4, 4, 5, 5, 6, 6, 7, 8, 10))
    field = rng.choice(FIELDS)
    t = {"kind": kind, "n": n, "seed": gen_seed(rng), "field": field, "masses": gen_masses(rng), "constraints": []}
    if field[0] == "mpc" and kind != "twistor" and rng.random() < 0.35:
        t["real"] = True
    if kind == "twistor":
        t["field"] = C.MPC
    if kind == "point" and rng.random() < 0.1:
        t["nofix"], t["n"] = True, rng.choice((1, 2, 3, 5))
    return t


def gen_history(rng, targets, heavy):
    out = []
    for _ in range(rng.choice((0, 1, 2, 3, 5))):
        name = rng.choice(("draw", "seed", "target", "target", "target", "point", "refresh", "fix", "limit", "bad", "derive", "eval", "gc", "invariants", "interrupt", "interrupt"))
        light = [t for t in targets if t["kind"] in ("point", "rand", "twistor")]
        if name == "target":
            t = rng.choice(light) if light and rng.random() < 0.7 else gen_target(rng, False)
            out.append(["target", t])
        elif name == "interrupt":
            t = rng.choice(targets) if rng.random() < 0.5 else gen_target(rng, False)
            out.append(["interrupt", t, rng.choice((rng.randint(1, 20), rng.randint(1, 400)))])
        elif name == "limit":
            out.append(["limit", rng.randrange(100), rng.choice(("⟨1|2⟩", "[2|3]", "s_123", "⟨1|2+3|4]"))])
        elif name == "invariants" and rng.random() < 0.7:
            continue
        else:
            out.append([name, rng.randrange(10 ** 6), rng.choice(FIELDS)])
        if heavy and light == [] and rng.random() < 0.2:
            out.append(["badsolver", rng.choice(targets), rng.randint(0, 3)])
    return out


def gen(rng, tier, index):
    heavy = rng.random() < 0.16
    targets = [gen_target(rng, heavy) for _ in range(1 if heavy else rng.randint(1, 4))]
    if not heavy and rng.random() < 0.6:                # the same configuration with another seed
        t = dict(rng.choice(targets))
        t["seed"] = t["seed"] + rng.choice((1, 1, 2, 10, 256, 1000000))
        targets.append(t)
    procs = []
    for _ in range(rng.randint(1, 3) if not heavy else rng.randint(1, 2)):
        steps = []
        order = list(range(len(targets)))
        rng.shuffle(order)
        for k in order:
            steps += [["h", op] for op in gen_history(rng, targets, heavy)]
            steps.append([rng.choice(("t", "t", "t", "thread")), k])
        procs.append({"node": rng.randrange(len(nodes.HASHSEEDS)), "entropy": rng.randrange(10 ** 6), "ops": steps})
    return {"targets_": targets, "procs": procs}


def execute(plan, ctx):
    if not _nodes:
        worker_init(ctx.shared)
    targets = plan["targets_"]
    want = {}
    used = set()
    try:
        for k, t in enumerate(targets):
            node = _nodes[0]
            node.start(f"fresh-{k}", os.path.join(ctx.scratch, "fresh"))
            used.add(0)
            check(node.call("nodefns:setup", ctx.shared))
            want[k] = outcome(node.call("nodefns:target", t))
            node.stop()
            used.discard(0)
            ctx.log("fresh", k, C.h(str(want[k])))
            ctx.probe(f"fresh-{t['kind']}-{want[k][0]}")
        for t1 in range(len(targets)):
            for t2 in range(t1):
                a, b = targets[t1], targets[t2]
                if dict(a, seed=0) == dict(b, seed=0) and a["seed"] != b["seed"] and 0 <= min(a["seed"], b["seed"]) and max(a["seed"], b["seed"]) < 2 ** 32 \
                        and a["kind"] in ("point", "rand") and a["field"] not in (C.FFS, C.PADIC3) and want[t1][0] == want[t2][0] == "ok" and want[t1] == want[t2]:
                    raise Violation("seeds-collide", f"seeds {a['seed']} and {b['seed']} give the same point: {a}")
        for p, proc in enumerate(plan["procs"]):
            node = _nodes[proc["node"]]
            node.start(f"e{proc['entropy']}", os.path.join(ctx.scratch, f"p{p}"))
            used.add(proc["node"])
            check(node.call("nodefns:setup", ctx.shared))
            for step, arg in proc["ops"]:
                if step == "h":
                    if arg[0] == "badsolver":
                        arg = arg[:3] + [ctx.shared]
                    res = check(node.call("nodefns:history", arg))
                    if res.startswith("interrupted"):
                        ctx.fault("interrupt")
                    elif res.startswith("raised"):
                        ctx.fault("failed-call")
                    elif arg[0] in ("draw", "seed", "gc"):
                        ctx.fault("stream-" + arg[0])
                    ctx.log("history", p, arg[0], res)
                    ctx.state(arg[0], res, proc["node"])
                elif arg < len(targets):
                    got = outcome(node.call("nodefns:target_in_thread" if step == "thread" else "nodefns:target", targets[arg]))
                    ctx.log("target", p, arg, C.h(str(got)))
                    ctx.probe("seeded-" + targets[arg]["kind"])
                    ctx.switches += 1
                    if got != want[arg]:
                        raise Violation("seed-not-fixing", f"{targets[arg]}: process {p} (hash seed {nodes.HASHSEEDS[proc['node']]}) gave {diff(got, want[arg])}")
            node.stop()
            used.discard(proc["node"])
    finally:
        for k in used:
            _nodes[k].stop()


def outcome(res):
    if res[0] == "ok":
        return ["ok", res[1]]
    if res[1] in ("NodeDied", "Protocol"):
        raise RuntimeError(str(res))
    if res[1] == "Unreadable":
        raise Violation("unreadable", str(res)[:300])
    return ["exc", res[1]]


def check(res):
    if res[0] != "ok":
        raise RuntimeError(str(res))
    return res[1]


def diff(got, want):
    if got[0] != want[0] or got[0] == "exc":
        return f"{got[0]} {got[1][:80]} instead of {want[0]} {want[1][:80]}"
    for i, (x, y) in enumerate(zip(got[1].split("\n"), want[1].split("\n"))):
        if x != y:
            return f"line {i}: {x[:120]} instead of {y[:120]}"
    return "different lengths"
