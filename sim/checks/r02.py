"""R02: unseeded points are fresh in every call and process."""
import json
import os
import random

from .. import clock as clk
from .. import common as C
from .. import entropy, interrupt, nodefns, solver
from ..core import Violation

FIELDS = [C.MPC, C.MPC, C.FF, C.FF, C.PADIC, C.QI, C.QQ]
lips = C.lips


def gen_ops(rng, depth, budget):
    ops = []
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.012:
            ops.append(["surface", rng.choice((4, 5, 5)), rng.choice((C.FF, C.FF, C.PADIC)), rng.choice(("⟨1|2⟩", "[3|4]", "s_12", "⟨1|2+3|4]"))])
        elif r < 0.024:
            ops.append(["slice", rng.choice((4, 5)), rng.choice(("uni", "uni", "bi")), rng.choice((None, 3))])
        elif r < 0.5:
            field = rng.choice(FIELDS)
            kind = rng.choice(("n", "n", "n", "none", "list", "real", "nofix"))
            ops.append(["new", kind if kind != "real" or field == C.MPC else "n", rng.choice((4, 4, 5, 6)), field, rng.choice((None, None, ["m_t", "mu"]))])
        elif r < 0.62:
            ops.append(["seeded", rng.choice((0, 1, 5, 1234)), rng.choice((4, 5, 6)), rng.choice(FIELDS)])
        elif r < 0.68:
            ops.append(["seed", rng.choice((0, 1, 42))])
        elif r < 0.72:
            ops.append(["draw", rng.randint(1, 30)])
        elif r < 0.78:
            ops.append(["interrupt", rng.choice((None, 0, 5)), rng.choice((4, 5)), rng.choice(FIELDS), rng.randint(1, 150)])
        elif r < 0.82:
            ops.append(["clock", rng.choice((0, 1e-6, 1, -5, 3600, -3600))])
        elif r < 0.86:
            ops.append(["other", rng.choice(("invariants", "eval", "derive", "bad", "setstate", "variety"))])
        elif depth < 3 and budget[0] > 0:
            twins = rng.random() < 0.6
            body = gen_ops(rng, depth + 1, budget)
            for _ in range(rng.randint(1, 3)):
                budget[0] -= 1
                ops.append({"how": rng.choice(("fork", "fork", "fork", "spawn")), "pid": rng.randint(100, 103), "ops": body if twins else gen_ops(rng, depth + 1, budget)})
    return ops


def gen(rng, tier, index):
    return {"ops": gen_ops(rng, 0, [6]), "now": rng.choice((0, 1.7e9, 1.7e9 + 0.5))}


def point_legs(ps):
    return ["/".join(C.canon(x) for x in list(p.r_sp_d.flatten()) + list(p.l_sp_d.flatten())) for p in list.__iter__(ps)]


class World:
    def __init__(self, ctx, clock):
        self.ctx, self.clock, self.n = ctx, clock, 0

    def run(self, ops, name):
        """Returns the points this process and its descendants made: [(where, legs)]."""
        out = []
        for k, op in enumerate(ops):
            where = f"{name}.{k}"
            if isinstance(op, dict):
                out += self.child(op, where)
            else:
                self.step(op, where, out)
            self.ctx.steps += 1
        return out

    def step(self, op, where, out):
        name = op[0]
        self.ctx.log(where, *op[:2])
        if name == "new":
            F = C.field_of(op[3])
            kw = {"field": F}
            if op[1] == "real":
                kw["real_momenta"] = True
            elif op[1] == "none":
                kw["seed"] = None
            elif op[1] == "nofix":
                kw["fix_mom_cons"] = False
            if op[4]:
                kw["internal_masses"] = set(op[4])
            legs = None
            if op[1] == "list":
                first = lips.Particles(1, fix_mom_cons=False, field=F)
                legs = [p for p in first] + [lips.Particle(field=F) for _ in range(op[2] - 1)]
            try:
                ps = lips.Particles(op[2] if legs is None else legs, **kw)
            except ZeroDivisionError:
                self.ctx.log(where, "degenerate")
                return
            out.append([where, point_legs(ps)])
            self.ctx.log(where, C.h(str(out[-1][1])))
            self.ctx.probe("points-" + op[3][0])
        elif name == "surface":
            F = C.field_of(op[2])
            kw = {"valuations": (1,)} if op[2] == C.PADIC else {}
            for k in "ab":
                ps = lips.Particles.from_singular_variety(op[1], F, (op[3],), **kw)
                out.append([where + k, ["surface " + " ".join(point_legs(ps))]])
            self.ctx.probe("points-on-surfaces")
        elif name == "slice":
            for k in "ab":
                ps = lips.Particles(op[1], field=C.field_of(C.FF), seed=op[3])
                try:
                    ps.univariate_slice() if op[2] == "uni" else ps.bivariate_slice()
                except Exception as e:      # noqa: no slice found
                    self.ctx.log(where, "no-slice", type(e).__name__)
                    continue
                out.append([where + k, ["slice " + " ".join(point_legs(ps))]])
                self.ctx.probe("slices")
        elif name == "seeded":
            lips.Particles(op[2], seed=op[1], field=C.field_of(op[3]))
            self.ctx.fault("known-stream")
        elif name == "seed":
            random.seed(op[1])
            C.numpy.random.seed(op[1])
            self.ctx.fault("known-stream")
        elif name == "draw":
            for _ in range(op[1]):
                random.random()
        elif name == "interrupt":
            kw = {} if op[1] is None else {"seed": op[1]}
            res = interrupt.interrupted_call(op[4], lambda: lips.Particles(op[2], field=C.field_of(op[3]), **kw))
            if res[0] == "interrupted":
                self.ctx.fault("interrupt")
        elif name == "clock":
            self.clock.now += op[1]
            self.ctx.fault("clock-jump" if op[1] else "clock-frozen")
        elif op[1] == "setstate":
            random.setstate(random.Random(3).getstate())
            self.ctx.fault("known-stream")
        elif op[1] == "variety":
            ps = lips.Particles(4, seed=3, field=C.field_of(C.MPC))
            ps.variety(("⟨1|2⟩",), (C.mpmath.mpf(10) ** -20,), try_singular_variety_solver=False)
        else:
            nodefns.history([op[1], 3, C.MPC])

    def child(self, op, where):
        """A worker process; it runs to completion while the parent waits."""
        self.n += 1
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                if op["how"] == "fork":
                    entropy.switch(f"child-{where}")
                else:
                    entropy.install(f"child-{where}")           # a new interpreter seeds itself from the system
                self.clock.pid = op["pid"]                      # pids are reused
                base = len(self.ctx.events)
                self.ctx.faults.clear()
                self.ctx.probes.clear()
                try:
                    res = ["ok", self.run(op["ops"], where)]
                except BaseException as e:      # noqa
                    from ..core import through_lips
                    import traceback
                    res = ["exc" if not through_lips(e) else "lips", traceback.format_exc()[-1500:]]
                data = json.dumps([res, self.ctx.events[base:], dict(self.ctx.faults), dict(self.ctx.probes)]).encode()
                view = memoryview(data)
                while view:
                    view = view[os.write(w, view):]
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        data = b""
        while True:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            data += chunk
        os.close(r)
        os.waitpid(pid, 0)
        res, events, faults, probes = json.loads(data)
        self.ctx.events += events
        self.ctx.faults.update(faults)
        self.ctx.probes.update(probes)
        self.ctx.fault(op["how"] + "ed-worker")
        self.ctx.switches += 2
        if res[0] == "lips":
            raise Violation("unexpected-exception", res[1])
        if res[0] == "exc":
            raise RuntimeError(res[1])
        return res[1]


def execute(plan, ctx):
    entropy.install("r02")
    clock = clk.Clock(plan["now"]).install()
    solver.Solver(ctx, ctx.shared).install()
    made = World(ctx, clock).run(plan["ops"], "main")
    seen = {}
    for where, legs in made:
        for i, leg in enumerate(legs, 1):
            if leg in seen and seen[leg][0] != where:
                raise Violation("repeated-kinematics", f"leg {i} of the unseeded point made at {where} equals leg {seen[leg][1]} of the one made at {seen[leg][0]}: {leg[:100]}")
            seen[leg] = (where, i)
    ctx.state(len(made), len(seen), sum(1 for e in ctx.events if "FAULT" in e))
