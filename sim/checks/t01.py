"""T01: evaluation is pure, concurrent-safe and never stale."""
from .. import threadsim

threadsim.patch_locks()

import copy             # noqa
import gc               # noqa
import random           # noqa

import numpy            # noqa

from .. import common as C          # noqa
from .. import entropy, ref         # noqa
from ..core import Violation        # noqa

FIELDS = [C.MPC, C.FF, C.FF, C.PADIC, C.QI, C.QQ]
BAD = ["⟨1|2|3⟩", "[1|2+3|4]", "foo(1)", "⟨1|2⟩ + * 3", "⟨1|19⟩", "s_1x", "__import__('os')", "⟨0|1⟩"]
CONSTANTS = ("LeviCivita", "MinkowskiMetric", "Pauli", "Pauli_bar")


def gen_point(rng):
    n = rng.choice((4, 5, 5, 6, 6, 7, 8))
    if rng.random() < 0.1:
        n = rng.choice((10, 11))
    masses = None
    if rng.random() < 0.5:
        masses = rng.choice((["m_t"], ["m_t", "mu"], ["M"], ["m_t", "M_b", "μ"]))
    return {"n": n, "seed": rng.randrange(10 ** 6), "masses": masses, "strmass": masses is not None and rng.random() < 0.3,
            "cluster": n >= 6 and n < 10 and rng.random() < 0.2, "field": rng.choice(FIELDS)}


def legs(pt):
    return pt["n"] - 1 if pt["cluster"] else pt["n"]


def gen_eval(rng, points):
    k = rng.randrange(len(points))
    pt = points[k]
    r = rng.random()
    if r < 0.06:
        return ["bad", k, rng.choice(BAD)]
    if r < 0.14:
        return ["meth", k, rng.choice(("m2s", "total_mom", "ldot", "hash", "eq", "check", "masses", "str", "ee", "ep", "consistency")), rng.randrange(1, 5), rng.randrange(1, 5)]
    masses = pt["masses"] or ()
    e = ref.gen_open(rng, legs(pt)) if rng.random() < 0.15 else ref.gen_expr(rng, legs(pt), rng.choice((0, 0, 1, 2)), masses)
    style = rng.randrange(256)
    if e[0] == "/" and rng.random() < 0.3:
        style |= 256
    if rng.random() < 0.06:
        style |= 512
    if pt["field"] == C.MPC and rng.random() < 0.04:
        e = ["sqrt", [rng.choice("AS"), *rng.sample(range(1, legs(pt) + 1), 2)] if rng.random() < 0.5 else ["s", sorted(rng.sample(range(1, min(legs(pt), 9) + 1), 2))]]
    return ["eval", k, e, style]


MUTATIONS = ("spinor", "item", "lg", "swap", "randomise", "mass", "replace", "scale", "order", "inplace", "leg", "newmass")


def gen(rng, tier, index):
    points = [gen_point(rng) for _ in range(rng.randint(1, 3))]
    phases = []
    exprs = []
    for _ in range(rng.randint(1, 3)):
        k = rng.choice((1, 2, 2, 3, 4))
        tasks = []
        for t in range(k):
            ops = []
            for _ in range(rng.randint(1, 5)):
                if exprs and rng.random() < 0.5:
                    ops.append(rng.choice(exprs))              # the same expression again, after a change or from another thread
                elif rng.random() < 0.12:
                    q = rng.randrange(len(points))
                    ops.append(["derive", q, rng.choice(("image", "copy", "deepcopy", "slice")), rng.randrange(10 ** 6), ref.gen_expr(rng, legs(points[q]), 1)])
                else:
                    ops.append(gen_eval(rng, points))
                    if ops[-1][0] == "eval":
                        exprs.append(ops[-1])
            tasks.append({"ops": ops})
        mut = [[rng.choice(MUTATIONS), rng.randrange(len(points)), rng.randrange(10 ** 6)] for _ in range(rng.choice((0, 1, 1, 2, 3)))]
        cuts = [[rng.randrange(k), rng.choice((rng.randint(1, 30), rng.randint(1, 600)))] for _ in range(rng.choice((0, 0, 1, 2)))]
        phases.append({"tasks": tasks, "sched": threadsim.gen_sched(rng, k) if k > 1 else [], "faults": cuts, "opcodes": rng.random() < 0.25, "history": mut})
    return {"points": points, "phases": phases}


class Subject:
    """A point and how to read the reference view of it."""

    def __init__(self, pt):
        self.pt = pt
        self.build(pt["seed"])

    def build(self, seed):
        pt = self.pt
        F = C.field_of(pt["field"])
        self.ps = C.seeded(pt["n"], seed, field=F, internal_masses=set(pt["masses"]) if pt["masses"] else None)
        if pt["strmass"]:
            setattr(self.ps, pt["masses"][0], "s_12")
        self.massive = ()
        if pt["cluster"] and pt["field"][0] not in ("gaussian rational", "rational"):
            n = pt["n"]
            self.ps = self.ps.cluster([[i] for i in range(1, n - 1)] + [[n - 1, n]])
            self.massive = (n - 1,)
        self.ps.helconf = "mp" * 6

    def ref(self):
        ls = []
        for i, p in enumerate(list.__iter__(self.ps), 1):
            if i in self.massive:
                m = p.r2_sp
                ls.append(ref.Leg(r2=((m[0, 0], m[0, 1]), (m[1, 0], m[1, 1]))))
            else:
                ls.append(ref.leg_of(p))
        return ref.Point(ls, {m: getattr(self.ps, m) for m in self.ps.internal_masses})


def snapshot(subjects):
    return [C.canon_particles(s.ps) + C.canon_particle(s.ps.oRefVec) + str(sorted(k for k in s.ps.__dict__ if k != "internal_masses" and not k.startswith("_"))) + C.canon(s.ps.internal_masses)
            for s in subjects]


def process_state():
    return (random.getstate(), C.mpmath.mp.prec, C.lips.spinor_convention, tuple(C.canon(getattr(C.lips.tools, k)) for k in CONSTANTS), numpy.geterr().get("over"))


def body(ops, subjects, out):
    def run(sim, tid):
        for n, op in enumerate(ops):
            s = subjects[op[1] % len(subjects)]
            ps = s.ps
            if op[0] == "eval":
                text = ref.spell(op[2], op[3])
                res = sim.traced(tid, lambda: ps(text))
            elif op[0] == "bad":
                res = sim.traced(tid, lambda: ps(op[2]))
            elif op[0] == "meth":
                res = sim.traced(tid, lambda: method(ps, op))
            elif op[0] == "derive":
                res = derive(sim, tid, s, op)
            out.append((tid, n, op, res))
            sim.ctx.log("op", tid, n, op[0], res[0])
    return run


def method(ps, op):
    i, j = op[3], op[4] if op[4] != op[3] else op[3] % 4 + 1
    return {"m2s": lambda: ps.m2s, "total_mom": lambda: ps.total_mom, "ldot": lambda: ps.ldot(i, j), "hash": lambda: hash(ps), "eq": lambda: ps == ps,
            "check": lambda: ps.momentum_conservation_check(), "masses": lambda: ps.internal_masses_dict, "str": lambda: ps[f"⟨{i}|"],
            "ee": lambda: ps.ee(i, j), "ep": lambda: ps.ep(i, j), "consistency": lambda: consistency(ps, i, j)}[op[2]]()


def consistency(ps, i, j):
    """The argument must survive: callers pass their list of invariants again."""
    invs = [f"[{j}|{i}]", f"⟨{i}|{j}⟩", f"s_{i}{j}"]
    res = ps.phasespace_consistency_check(invs)
    return res + (invs == [f"[{j}|{i}]", f"⟨{i}|{j}⟩", f"s_{i}{j}"],)


def derive(sim, tid, s, op):
    """Derivation from a shared point inside a thread, then evaluation on the private result."""
    rng = random.Random(op[3])
    ps, n = s.ps, len(s.ps)
    perm = list(range(1, n + 1))
    rng.shuffle(perm)
    if op[2] == "image" and n < 10:
        res = sim.traced(tid, lambda: ps.image(("".join(map(str, perm)), bool(op[3] & 1))))
    elif op[2] == "copy":
        res = sim.traced(tid, ps.copy)
    elif op[2] == "slice":
        res = sim.traced(tid, lambda: ps[:])
    else:
        res = sim.traced(tid, lambda: copy.deepcopy(ps))
    if res[0] != "done":
        return res
    q = res[1]
    view = Subject.__new__(Subject)
    view.ps, view.massive = q, s.massive
    if op[2] == "image" and n < 10 and s.massive:
        k = s.massive[0]
        view.massive = tuple(j for j in range(1, n + 1) if sorted(range(n), key=lambda i: perm[i])[j - 1] + 1 == k)
    try:
        want = view.ref().value(op[4])
    except (ref.Undefined, KeyError):
        return ("undefined", None)
    res = sim.traced(tid, lambda: q(ref.render(op[4], op[3] % 128)))
    return res + (want,)


def execute(plan, ctx):
    entropy.install("t01")
    subjects = [Subject(pt) for pt in plan["points"]]
    for phase in plan["phases"]:
        for op in phase["history"]:
            mutate(subjects, op, ctx)
        if not phase["tasks"]:
            continue
        before, proc = snapshot(subjects), process_state()
        refs = [s.ref() for s in subjects]
        out = []
        sim = threadsim.Threads(ctx, [body(t["ops"], subjects, out) for t in phase["tasks"]], phase["sched"],
                                [f for f in phase["faults"] if f[0] < len(phase["tasks"])], phase["opcodes"])
        sim.run()
        ctx.vtime += sim.total * 1e-6
        derived = any(op[0] == "derive" for t in phase["tasks"] for op in t["ops"])
        if snapshot(subjects) != before:
            raise Violation("evaluation-changed-point", "a point changed while expressions were evaluated on it or others")
        now = process_state()
        if now[1:] != proc[1:]:
            raise Violation("evaluation-changed-process-state", f"precision, convention or constants changed: {proc[1:3]} -> {now[1:3]}")
        if not derived and now[0] != proc[0]:
            raise Violation("evaluation-changed-random-stream", "evaluating expressions consumed or reset the random stream")
        for tid, n, op, res in out:
            judge(ctx, subjects, refs, op, res, f"thread {tid} op {n}")
        ctx.state(len(phase["tasks"]), sim.total // 50, ctx.switches, len(subjects))


def judge(ctx, subjects, refs, op, res, where):
    k = op[1] % len(subjects)
    s, r = subjects[k], refs[k]
    if res[0] in ("interrupted", "undefined"):
        ctx.probe("op-" + res[0])
        return
    if op[0] == "bad":
        if res[0] == "done":
            raise Violation("malformed-accepted", f"{op[2]!r} evaluated to {str(res[1])[:80]}")
        return
    if op[0] == "meth":
        if res[0] == "raised":
            if op[2] in ("ee", "ep", "hash") and (s.massive or s.pt["field"][0] != "mpc"):
                return                  # polarisations involve sqrt(2); hashes of inexact values are not claimed
            raise Violation("unexpected-" + type(res[1]).__name__, f"{op[2]}: {res[1]}")
        val = res[1]
        n = len(s.ps)
        if op[2] == "ldot":
            i, j = op[3], op[4] if op[4] != op[3] else op[3] % 4 + 1
            ok = ref.same(val, r.dot([i], [j]))
        elif op[2] == "m2s":
            ok = len(val) == n and all(ref.same(v, r.mandelstam([i + 1])) for i, v in enumerate(val))
        elif op[2] == "total_mom":
            ok = ref.same_matrix(val, r.total())
        elif op[2] == "consistency":
            ok = val[4] and set(val[3]) <= {f"[{j}|{i}]" for i in range(1, 5) for j in range(1, 5)} | {f"⟨{i}|{j}⟩" for i in range(1, 5) for j in range(1, 5)} | \
                {f"s_{i}{j}" for i in range(1, 5) for j in range(1, 5)}
        elif op[2] == "eq":
            ok = val is True or val is numpy.True_ or bool(val)
        elif op[2] == "masses":
            ok = val == r.masses
        elif op[2] == "str":
            ok = (op[3] in s.massive) or ref.same_matrix(val, r.value(["Au", op[3]]))
        elif op[2] in ("ee", "ep") and s.pt["field"][0] == "mpc" and not s.massive:
            ok = polar(s, r, op, val)
        else:
            ok = True
        if not ok:
            raise Violation("wrong-value", f"{where}: {op[2]}({op[3:]}) = {str(val)[:100]}")
        return
    if op[0] == "derive":
        if res[0] == "raised":
            raise Violation("unexpected-" + type(res[1]).__name__, f"{where}: {op[2]}: {res[1]}")
        if not ref.same_matrix(res[1], res[2]):
            raise Violation("wrong-value", f"{where}: {ref.render(op[4], op[3] % 128)} on a derived point ({op[2]})")
        ctx.probe("derived-evaluations")
        return
    text = ref.spell(op[2], op[3])
    try:
        want = r.value(op[2])
    except (ref.Undefined, KeyError):
        ctx.probe("undefined")
        return
    if res[0] == "raised":
        raise Violation("unexpected-" + type(res[1]).__name__, f"{where}: {text}: {res[1]}")
    if not ref.same_matrix(res[1], want):
        raise Violation("wrong-value", f"{where}: {text} = {str(res[1])[:80]}, expected {str(want)[:80]}; field {s.pt['field']}, n {len(s.ps)}")
    ctx.probe("evaluations")


def polar(s, r, op, val):
    """Contractions with polarisation vectors for the reference momentum of the point."""
    i, j = op[3], op[4] if op[4] != op[3] else op[3] % 4 + 1
    full = ref.Point(r.legs + [ref.leg_of(s.ps.oRefVec)])
    q = len(r.legs) + 1
    hel = s.ps.helconf
    if op[2] == "ep":
        root = C.mpmath.sqrt(2)
        if hel[i - 1] == "p":
            want = full.value(["NB", "<", q, [[[1, j]]], i, "]"]) / (root * full.angle(q, i))
        else:
            want = full.value(["NB", "<", i, [[[1, j]]], q, "]"]) / (root * full.square(i, q))
        return ref.same(val, want)
    if hel[i - 1] == hel[j - 1]:
        return val == 0
    if hel[i - 1] == "p":
        i, j = j, i
    want = -full.value(["NB", "<", i, [[[1, q]]], j, "]"]) / full.value(["NB", "<", j, [[[1, q]]], i, "]"])
    return ref.same(val, want)


def mutate(subjects, op, ctx):
    """A completed modification between evaluations."""
    name, k, seed = op
    s = subjects[k % len(subjects)]
    ps, n = s.ps, len(s.ps)
    rng = random.Random(seed)
    free = [i for i in range(1, n + 1) if i not in s.massive]
    i = rng.choice(free)
    F = C.field_of(s.pt["field"])
    ctx.log("mutate", name, k, i)

    def num():
        while True:
            v = F(rng.randint(1, 10 ** 6))
            if v != 0:
                return v
    if name == "spinor":
        rep = rng.choice(("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u"))
        setattr(ps[i], rep, numpy.array([num(), num()], dtype=object).reshape(getattr(ps[i], rep).shape))
    elif name == "item":
        key, shape = rng.choice(((f"⟨{i}|", (1, 2)), (f"|{i}⟩", (2, 1)), (f"|{i}]", (2, 1)), (f"[{i}|", (1, 2))))
        ps[key] = numpy.array([num(), num()], dtype=object).reshape(shape)
    elif name == "lg":
        t = F(3)
        p = ps[i]
        r, l_ = p.r_sp_d * t, p.l_sp_d / t
        p.r_sp_d = r
        p.l_sp_d = l_
    elif name == "scale":
        for p in list.__iter__(ps):
            if p.r_sp_d is not None and not s.massive:
                p.r_sp_d = p.r_sp_d * 2
    elif name == "swap":
        ps.angles_for_squares()
    elif name == "randomise":
        if s.massive:
            return
        try:
            ps.randomise_all()
        except ZeroDivisionError:       # degenerate draws
            s.build(seed)
    elif name == "inplace":
        p = ps[i]
        p.r_sp_d[0, 0] = num()
        p.r_sp_d = p.r_sp_d
    elif name == "leg":
        ps[i] = C.lips.Particle(field=F)
    elif name == "order":
        if s.massive:
            return
        list.sort(ps, key=lambda p: C.canon_particle(p))
    elif name == "mass":
        for m in sorted(ps.internal_masses):
            if not isinstance(getattr(ps, m), str):
                setattr(ps, m, num())
            elif rng.random() < 0.5:
                setattr(ps, m, rng.choice(("s_12", "s_23", "s_34")))
    elif name == "newmass":
        if s.pt["masses"]:
            setattr(ps, s.pt["masses"][-1], num())
    elif name == "replace":
        # the old point is freed: identities may be reused by the new one
        s.ps = ps = None
        gc.collect()
        s.build(seed)
    ctx.probe("mutation-" + name)
