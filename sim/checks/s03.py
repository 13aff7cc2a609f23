"""S03: a slice that is returned satisfies its constraints for every parameter value; building one takes a bounded number of solver calls."""
import random

from .. import common as C
from .. import draws, entropy, ref, slicesim, solver, varsim
from ..core import Violation

LOUDS = list(solver.LOUD)
DEAD = ["killed", "empty"]
CALLS = 1200


def gen_faults(rng):
    r = rng.random()
    if r < 0.35:
        return []
    kinds = rng.sample(LOUDS + DEAD, rng.choice((1, 1, 2)))
    if r < 0.6:
        start = rng.choice((0, 1, 2, rng.randrange(25)))
        return [[start + i, rng.choice(kinds), 0] for i in range(120)]
    return [[rng.randrange(25), rng.choice(kinds), 0] for _ in range(rng.choice((1, 1, 2, 4)))]


def gen_draws(rng):
    if rng.random() < 0.35:                                         # the solver's free variables come out as zero several times in a row
        start = rng.choice((rng.randrange(10, 90), rng.randrange(150, 450), rng.randrange(150, 450)))
        return [[i, "zero"] for i in range(start, start + rng.choice((30, 60, 120)))]
    return draws.gen_faults(rng, 80, rng.choice((0.02, 0.1)))


def gen(rng, tier, index):
    ops = []
    for _ in range(rng.choice((1, 1, 1, 2))):
        case = slicesim.gen_case(rng)
        ops.append({"case": case, "faults": gen_faults(rng), "stream": rng.choice((1, 2, 3)),
                    "slow": [[rng.randrange(25), rng.choice((59, 61, 600))] for _ in range(rng.choice((0, 0, 0, 1)))],
                    "draws": {"faults": gen_draws(rng) if rng.random() < 0.35 and case["kind"] != "generic" else []}})
    return {"ops": ops, "entropy": rng.choice((1, 2)), "at": rng.randrange(1 << 30)}


def run_one(ctx, dr, op, plan, k, faults, slow, twist):
    case = op["case"]
    entropy.install(f"s03|{plan['entropy']}")
    varsim.reset_limits()
    dr.faults, dr.n = {}, 0
    ps = slicesim.build(case)
    random.seed(op["stream"])
    sv = solver.Solver(ctx, ctx.shared, faults, slow).install()
    sv.calls_limit = CALLS
    dr.faults = {f[0]: f[1] for f in twist}
    before = sum(v for n, v in ctx.faults.items() if n.startswith("draw"))
    err = None
    try:
        slicesim.request(ps, case)
    except solver.CallLimit as e:
        err = e
    except (Exception, KeyboardInterrupt) as e:                     # noqa
        err = e
    dr.faults = {}
    drawn = sum(v for n, v in ctx.faults.items() if n.startswith("draw")) - before
    ctx.log(k, case["kind"], case["n"], case["field"], type(err).__name__, sv.calls, sv.fired[:3])
    ctx.state(case["kind"], case["field"], case["n"], len(case["cons"]), type(err).__name__, sv.fired[0] if sv.fired else "", sv.calls)
    return ps, sv, err, drawn


def execute(plan, ctx):
    dr = draws.Draws(ctx, []).install()
    for k, op in enumerate(plan["ops"]):
        case = op["case"]
        why = f"{case['kind']} slice {k} (n={case['n']}, {case['field']}, {[ref.render(e, 32) for e in case['cons']]}, seeds {case['seed']}, {case['slice_seed']})"
        ps, sv, err, drawn = run_one(ctx, dr, op, plan, k, op["faults"], op["slow"], op["draws"]["faults"])
        if err is None:
            ctx.probe("returned-despite-faults" if sv.fired else "returned")
            ctx.log(slicesim.verify(ps, case, random.Random(plan["at"]), why + (f" with solver faults {sv.fired[:6]}" if sv.fired else "")))
            continue
        if sv.fired:
            ctx.probe("raised")
            if isinstance(err, solver.CallLimit):
                raise Violation("unbounded", f"{why}: more than {CALLS} solver calls after solver faults {sv.fired[:6]}")
            ps, sv, err, drawn = run_one(ctx, dr, op, plan, k, [], [], [])          # a fresh point once the solver works again
        if err is None:
            ctx.log(slicesim.verify(ps, case, random.Random(plan["at"]), why + " after an outage"))
            ctx.probe("recovered")
        elif isinstance(err, solver.CallLimit):
            raise Violation("unbounded", f"{why}: more than {CALLS} solver calls although the solver answers")
        elif drawn or case["field"] in ("ff101",) or case.get("reducible"):
            ctx.probe("degenerate")
        else:
            raise Violation("refused", f"{why}: {type(err).__name__}: {str(err)[:150]} although the solver answers")
