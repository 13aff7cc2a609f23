"""V02: a request to move a point onto a surface that fails because the solver does, leaves the point as it was and can be repeated."""
import random

from .. import common as C
from .. import entropy, interrupt, ref, solver, varsim
from ..core import Violation
from .v01 import OutOfMemory

LOUDS = list(solver.LOUD)
# surfaces with closed forms: a failing allocation inside them leaves them half-way before the solver is asked
CLOSED = [
    (4, [["A", 1, 2]]), (5, [["A", 1, 2]]), (5, [["S", 2, 4]]), (5, [["NB", "<", 1, [[[1, 2], [1, 3]]], 4, "]"]]),
    (5, [["A", 1, 2], ["A", 1, 3]]), (5, [["A", 1, 2], ["S", 3, 4]]), (6, [["A", 1, 2], ["S", 1, 2]]), (6, [["S", 1, 2], ["S", 2, 3]]),
    (6, [["A", 3, 5], ["A", 1, 2]]),
]


def gen_case(rng):
    if rng.random() < 0.45:
        case = varsim.solver_case(rng)
        if case["field"] == "mpc":
            case["field"], case["vals"] = "padic", [1]
        return case, None
    n, invs = rng.choice(CLOSED)
    field = rng.choice(("ff", "padic", "padic"))
    shift = rng.choice((0, 1))
    perm = {i: (i - 1 + shift) % n + 1 for i in range(1, n + 1)}
    case = {"n": n, "field": field, "invs": [varsim.relabel(e, perm) for e in invs], "vals": [0 if field == "ff" else 1] * len(invs), "seed": rng.choice((1, 2)),
            "solver": True, "sure": True}
    return case, ["memory", rng.choice((rng.randint(1, 60), rng.randint(20, 400), rng.randint(20, 900)))]


def gen_faults(rng):
    """Loud failures: from some call on (outage that ends with the attempt), or at single calls."""
    kinds = rng.sample(LOUDS, rng.choice((1, 1, 2)))
    if rng.random() < 0.5:
        start = rng.choice((0, 0, 1, 2, 3, rng.randrange(30)))
        return [[start + i, rng.choice(kinds), 0] for i in range(80)]
    return [[rng.randrange(30), rng.choice(kinds), 0] for _ in range(rng.choice((1, 1, 2, 4)))]


def gen(rng, tier, index):
    ops = []
    for _ in range(rng.choice((1, 1, 2))):
        case, cut = gen_case(rng)
        ops.append({"case": case, "tries": [{"faults": gen_faults(rng), "cut": cut, "stream": rng.choice((1, 2)),
                                             "slow": [[rng.randrange(30), rng.choice((59, 61, 600))] for _ in range(rng.choice((0, 0, 0, 2)))]}
                                            for _ in range(rng.choice((1, 1, 1, 2, 3)))], "stream": rng.choice((1, 2))})
    return {"ops": ops, "entropy": rng.choice((1, 2))}


def attempt(ps, case, cut, ctx):
    """Returns None or the exception."""
    try:
        if cut:
            out, err = interrupt.interrupted_call(cut[1], lambda: varsim.request(ps, case), OutOfMemory)
            if out == "raised":
                raise err
            if out == "interrupted":
                return err or OutOfMemory()
        else:
            varsim.request(ps, case)
    except solver.CallLimit as e:
        return e
    except (Exception, KeyboardInterrupt) as e:                     # noqa
        return e
    return None


def execute(plan, ctx):
    for k, op in enumerate(plan["ops"]):
        case = op["case"]
        entropy.install(f"v02|{plan['entropy']}")
        varsim.reset_limits()
        ps, spec = varsim.make_point(case)
        legs = [ps[i] for i in range(1, len(ps) + 1)]
        before = C.canon_particles(ps)
        done = False
        for j, a in enumerate(op["tries"]):
            varsim.reset_limits()
            sv = solver.Solver(ctx, ctx.shared, a["faults"], a["slow"]).install()
            sv.calls_limit = 4000
            random.seed(a["stream"])
            why = f"request {k}, attempt {j} ({case['field']}, n={case['n']}, {[ref.render(e, 32) for e in case['invs']]})"
            err = attempt(ps, case, a["cut"], ctx)
            ctx.log(k, j, case["field"], case["n"], type(err).__name__, sv.calls, sv.fired[:3])
            ctx.state(case["field"], case["n"], tuple(e[0] for e in case["invs"]), type(err).__name__, sv.fired[0][0] if sv.fired else -1, sv.fired[-1][1] if sv.fired else "")
            if err is None:
                ctx.probe("returned")
                varsim.verify(ps, case, spec, why + (f" with solver faults {sv.fired[:6]}" if sv.fired else ""))
                done = True
                break
            if isinstance(err, OutOfMemory) or (a["cut"] and not sv.fired):
                ctx.probe("no-memory")                              # struck where the request does not recover from it: not a solver failure
                done = True
                break
            if not sv.fired:
                if isinstance(err, ZeroDivisionError):
                    ctx.probe("degenerate")
                    done = True
                    break
                raise Violation("refused", f"{why}: {type(err).__name__}: {str(err)[:150]} although the solver did not fail")
            ctx.probe("raised")
            after = C.canon_particles(ps)
            if after != before:
                bad = [i + 1 for i, (x, y) in enumerate(zip(before.split("\n"), after.split("\n"))) if x != y]
                raise Violation("point-changed", f"{why} raised {type(err).__name__} after solver faults {sv.fired[:4]} and left legs {bad} changed")
            del legs[:]
        if done:
            continue
        varsim.reset_limits()
        sv = solver.Solver(ctx, ctx.shared).install()
        sv.calls_limit = 4000
        random.seed(op["stream"])
        why = f"request {k} repeated with a working solver ({case['field']}, n={case['n']}, {[ref.render(e, 32) for e in case['invs']]})"
        err = attempt(ps, case, None, ctx)
        if err is not None:
            if isinstance(err, ZeroDivisionError):
                ctx.probe("degenerate")
                continue
            raise Violation("not-retryable", f"{why}: {type(err).__name__}: {str(err)[:150]}")
        varsim.verify(ps, case, spec, why)
        ctx.probe("retried")
        ctx.log(k, "retried", C.h(C.canon_particles(ps)))
