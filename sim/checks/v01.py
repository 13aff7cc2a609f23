"""V01: a request to move a point onto a surface returns only with the point there, whatever the solver and the random stream do."""
import random

from .. import common as C
from .. import draws, entropy, interrupt, solver, varsim
from ..core import Violation

LOUDS = [k for k in solver.LOUD]
QUIETS = [k for k in solver.QUIET]


def gen_solver_faults(rng, loud=False, horizon=45):
    if rng.random() < 0.12 or loud and rng.random() < 0.5:
        return []
    if loud:
        return [[rng.randrange(horizon), rng.choice(LOUDS), 0] for _ in range(rng.choice((1, 1, 2, 3)))]
    kinds = rng.sample(QUIETS, rng.randint(1, 3)) if rng.random() < 0.7 else rng.sample(LOUDS + QUIETS, rng.randint(1, 3))
    out = [[rng.randrange(horizon), rng.choice(kinds), round(rng.random(), 3)] for _ in range(rng.choice((1, 1, 2, 3, 6)))]
    if rng.random() < 0.3:                                          # the same failure for a while
        start, kind = rng.randrange(horizon), rng.choice(kinds)
        out += [[start + i, kind, round(rng.random(), 3)] for i in range(rng.choice((3, 10)))]
    return out


def gen(rng, tier, index):
    ops = []
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        case = varsim.solver_case(rng) if rng.random() < 0.4 else varsim.closed_case(rng)
        if case["solver"] and case["field"] != "mpc" and rng.random() < 0.2:
            case["construct"] = True                                # a new point on the surface instead of a moved one
        cut = None
        if rng.random() < 0.25:
            cut = [rng.choice(("memory", "interrupt")), rng.choice((rng.randint(1, 40), rng.randint(1, 400), rng.randint(1, 3000)))]
        ops.append({"case": case, "cut": cut,
                    "faults": gen_solver_faults(rng, case.get("construct")) if case["solver"] else [],
                    "slow": [[rng.randrange(40), rng.choice((5, 59, 61, 600))] for _ in range(rng.choice((0, 0, 1, 3)))] if case["solver"] else [],
                    "draws": {"faults": draws.gen_faults(rng, 60, rng.choice((0.02, 0.1))) if not case["solver"] and rng.random() < 0.4 else []}})
    return {"ops": ops, "keep": rng.random() < 0.5, "entropy": rng.choice((1, 2))}


class OutOfMemory(MemoryError):
    pass


def execute(plan, ctx):
    dr = draws.Draws(ctx, []).install()
    for k, op in enumerate(plan["ops"]):
        case = op["case"]
        entropy.install(f"v01|{plan['entropy']}")
        dr.faults, dr.n = {}, 0
        ps, spec = varsim.make_point(case)
        dr.faults, dr.n = {f[0]: f[1] for f in op["draws"]["faults"]}, 0
        varsim.reset_limits()
        sv = solver.Solver(ctx, ctx.shared, op["faults"], op["slow"]).install()
        fired = sum(ctx.faults.values())
        cut, out = op["cut"], None
        why = f"request {k} ({case['field']}, n={case['n']})"
        sv.calls_limit = 4000

        def ask():
            nonlocal ps
            if case.get("construct"):
                ps = varsim.construct(case)
            else:
                varsim.request(ps, case)
        try:
            if cut:
                exc = OutOfMemory if cut[0] == "memory" else interrupt.Interrupted
                out, err = interrupt.interrupted_call(cut[1], lambda: ask(), exc)
                ctx.fault(cut[0])
                if out == "raised":
                    raise err
                out = "returned" if out == "done" else "raised"
            else:
                ask()
                out = "returned"
        except solver.CallLimit:
            out = "calls"
        except (Exception, KeyboardInterrupt) as e:                 # noqa
            out, err = "raised", e
            ctx.log("raised", type(e).__name__)
        dr.faults = {}
        ctx.log(k, case["field"], case["n"], out, sv.calls)
        ctx.state(case["field"], case["n"], tuple(e[0] for e in case["invs"]), out, tuple(sorted({f[1] for f in sv.fired})))
        ctx.probe(out)
        if out == "returned":
            if sv.fired:
                ctx.probe("returned-despite-faults")
            varsim.verify(ps, case, spec, why + (f" with solver faults {sv.fired[:6]}" if sv.fired else ""))
            ctx.log(C.h(C.canon_particles(ps)))
        elif case["sure"] and sum(ctx.faults.values()) == fired:
            if isinstance(err, ZeroDivisionError):
                ctx.probe("degenerate")
                continue
            raise Violation("refused", f"{why}: {type(err).__name__}: {str(err)[:150]} without any fault; {[varsim.ref.render(e, 32) for e in case['invs']]} {case['vals']}")
