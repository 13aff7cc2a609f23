"""H01: points survive hand-off between processes."""
import os

from .. import common as C
from .. import nodes
from ..core import Violation

_nodes = []
FIELDS = [C.MPC, C.MPC, C.FF, C.FF, C.FFS, C.PADIC, C.QI, C.QQ]
THEN = ("swap", "image", "cluster", "inplace", "mass", "helconf", "hash", "hash", "eval", "four", "analytic")


def worker_init(shared):
    _nodes[:] = nodes.start_nodes()


def worker_reset(shared):
    for n in _nodes:
        n.kill()
    worker_init(shared)


def worker_exit():
    for n in _nodes:
        n.kill()


def gen_point(rng):
    field = rng.choice(FIELDS)
    n = rng.choice((4, 4, 5, 6, 6, 7, 8, 11))
    t = {"kind": "point", "n": n, "seed": rng.randrange(10 ** 6), "field": field, "masses": None,
         "then": [[x, rng.randrange(1000)] for x in rng.sample(THEN[:-1] if rng.random() < 0.9 else THEN, rng.choice((0, 0, 1, 2, 3)))]}
    if rng.random() < 0.4:
        t["masses"] = [rng.choice(("set", "list", "dict")), rng.sample(["m_t", "M", "mu", "μ"], rng.randint(1, 3))]
    if field[0] == "mpc" and rng.random() < 0.3:
        t["real"] = True
    if any(x[0] == "analytic" for x in t["then"]):
        t["field"], t["then"] = C.FF, [["analytic", 0]]
        t.pop("real", None)
    return t


def gen(rng, tier, index):
    k = rng.choice((2, 3, 3))
    procs = [{"convention": rng.choice(("symmetric", "symmetric", "asymmetric")), "seed": rng.randrange(10 ** 6)} for _ in range(k)]
    points = [gen_point(rng) for _ in range(rng.randint(1, 4))]
    src = rng.randrange(k)
    ops = [["make", src, rng.randrange(len(points))] for _ in range(rng.randint(1, 2))]
    ops += [["send", src, rng.randrange(k), rng.choice((0, 1, 2, 3, 4, 5, 5)), rng.choice(("one", "one", "list", "dict", "leg")), rng.randrange(1000)] for _ in range(rng.randint(1, 2))]
    for _ in range(rng.randint(2, 14)):
        r = rng.random()
        if r < 0.25:
            ops.append(["make", rng.randrange(k), rng.randrange(len(points))])
        elif r < 0.5:
            ops.append(["send", rng.randrange(k), rng.randrange(k), rng.choice((0, 1, 2, 3, 4, 5, 5)), rng.choice(("one", "one", "list", "dict", "leg")), rng.randrange(1000)])
        elif r < 0.8:
            ops.append(["deliver", rng.randrange(1000)])
        elif r < 0.88:
            ops.append(["cut", rng.randrange(1000), rng.choice((rng.randrange(10 ** 6), rng.randrange(200), -1 - rng.randrange(3)))])
        elif r < 0.91:
            ops.append(["restart", rng.randrange(k)])
        elif r < 0.96:
            ops.append(["use", rng.randrange(k), rng.randrange(1000)])
        else:
            ops.append(["drop", rng.randrange(1000)])
    return {"procs_": procs, "points": points, "ops": ops}


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.net = []                 # messages in flight; a delivered message may be delivered again
        self.held = [dict() for _ in plan["procs_"]]            # process -> name -> description
        self.nodes = [_nodes[i] for i in range(len(plan["procs_"]))]
        self.fresh = 0
        self.live = set()

    def start(self, i):
        p = self.plan["procs_"][i]
        self.nodes[i].start(f"h01-{i}-{self.fresh}", os.path.join(self.ctx.scratch, f"n{i}"))
        self.live.add(i)
        self.call(i, "h_setup", p["convention"], p["seed"], self.ctx.shared)
        self.held[i] = {}

    def stop(self, i):
        if i in self.live:
            self.live.discard(i)
            self.nodes[i].stop()

    def call(self, i, fn, *args):
        res = self.nodes[i].call("nodefns:" + fn, *args)
        if res[0] != "ok":
            if "/lips/" in res[2]:
                raise Violation("unexpected-" + res[1], f"process {i}, {fn}: {res[2][-800:]}")
            raise RuntimeError(str(res))
        return res[1]

    def name(self):
        self.fresh += 1
        return f"p{self.fresh}"

    def hold(self, i, name, desc, key):
        """Registers a point and compares it with every point of the same components in this process."""
        for other, (d, k) in sorted(self.held[i].items()):
            same = d["canon"] == desc["canon"]
            if not same:
                continue
            eq = self.call(i, "h_compare", other, name)
            self.ctx.probe("comparisons")
            if not (eq[0] and eq[1]) or eq[2]:
                raise Violation("not-equal", f"process {i}: two points with identical components ({k} and {key}) compare different")
            if eq[3] != eq[4]:
                raise Violation("hash-differs", f"process {i}: two points with identical components ({k} and {key}) hash to {eq[3]} and {eq[4]}")
        self.held[i][name] = (desc, key)

    def run(self):
        for i in range(len(self.nodes)):
            self.start(i)
        for op in self.plan["ops"]:
            self.step(op)
            self.ctx.steps += 1

    def step(self, op):
        ctx = self.ctx
        if op[0] == "make":
            i, t = op[1] % len(self.nodes), self.plan["points"][op[2] % len(self.plan["points"])]
            name = self.name()
            desc = self.call(i, "h_make", name, t)
            ctx.log("make", i, C.h(desc["canon"]), desc["hash"][:4] == "unha")
            self.hold(i, name, desc, f"made {op[2]}")
        elif op[0] == "send":
            i, j = op[1] % len(self.nodes), op[2] % len(self.nodes)
            if not self.held[i]:
                return
            names = sorted(self.held[i])
            pick = [names[op[5] % len(names)]] if op[4] in ("one", "leg") else [names[op[5] % len(names)], names[(op[5] + 1) % len(names)]]
            data = self.call(i, "h_send", pick, op[3], op[4])
            self.net.append({"to": j, "data": data, "wrap": op[4], "want": [self.held[i][n] for n in pick], "count": 0, "from": i})
            for n in pick:              # sending leaves the source as it was
                now = self.call(i, "h_describe", n)
                if now != self.held[i][n][0]:
                    raise Violation("serialising-changed-source", f"process {i}: {first_diff(now, self.held[i][n][0])}")
            ctx.log("send", i, j, op[4], len(self.net))
        elif op[0] in ("deliver", "cut"):
            if not self.net:
                return
            k = op[1] % len(self.net)
            m = self.net[k]
            if k != 0:
                ctx.fault("message-reordered")
            if m["count"] and op[0] == "deliver":
                ctx.fault("message-duplicated")
            names = [self.name() for _ in m["want"]]
            if op[0] == "cut":
                ctx.fault("message-truncated")
                got = self.call(m["to"], "h_receive", [], m["data"], m["wrap"], op[2])
                if got["raised"] is None:
                    raise Violation("truncated-message-accepted", f"message cut at {op[2]} loaded")
                if not got["state"]:
                    raise Violation("receiving-changed-process-state", "random stream, convention or precision changed by a truncated message")
                return
            got = self.call(m["to"], "h_receive", names, m["data"], m["wrap"], None)
            m["count"] += 1
            ctx.switches += 1
            ctx.log("deliver", m["from"], m["to"], m["wrap"], m["count"])
            if got["raised"]:
                raise Violation("message-rejected", f"an intact message raised {got['raised']}")
            if not got["state"]:
                raise Violation("receiving-changed-process-state", "random stream, convention or precision changed by receiving a point")
            if not got["leg"]:
                raise Violation("structure-lost", f"a {m['wrap']} message came apart")
            for name, desc, (want, key) in zip(names, got["points"], m["want"]):
                if desc["canon"] != want["canon"] or desc["eval"] != want["eval"]:
                    raise Violation("components-differ", f"{m['from']} -> {m['to']}: {first_diff(desc, want)}")
                self.hold(m["to"], name, desc, key + f" received from {m['from']}")
            ctx.state(m["wrap"], m["count"], m["from"], m["to"], len(self.net))
        elif op[0] == "drop":
            if self.net:
                self.net.pop(op[1] % len(self.net))
                ctx.fault("message-lost")
        elif op[0] == "restart":
            i = op[1] % len(self.nodes)
            self.stop(i)
            self.fresh += 1
            self.start(i)
            ctx.fault("process-restarted")
        elif op[0] == "use":
            i = op[1] % len(self.nodes)
            if self.held[i]:
                name = sorted(self.held[i])[op[2] % len(self.held[i])]
                desc = self.held[i][name][0]
                if "\nY" in desc["canon"] or "[Y" in desc["canon"] or "cluster" in str(self.plan["points"]):
                    return
                res = self.call(i, "h_use", name, op[2])
                if res is False:
                    raise Violation("received-point-unusable", f"process {i}: randomising a copy broke momentum conservation")
                now = self.call(i, "h_describe", name)
                if now != desc:
                    raise Violation("use-of-copy-changed-source", first_diff(now, desc))
                ctx.probe("uses")


def first_diff(got, want):
    for key in ("canon", "eval", "hash"):
        for k, (x, y) in enumerate(zip(got[key].split("\n"), want[key].split("\n"))):
            if x != y:
                j = next((i for i, (a, b) in enumerate(zip(x, y)) if a != b), 0)
                return f"{key} line {k}: ...{x[max(0, j - 30):j + 90]} instead of ...{y[max(0, j - 30):j + 90]}"
    return "different lengths"


def execute(plan, ctx):
    if not _nodes:
        worker_init(ctx.shared)
    w = World(plan, ctx)
    try:
        w.run()
    finally:
        for i in list(w.live):
            w.stop(i)
