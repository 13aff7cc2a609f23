"""S02: returned phase-space points conserve momentum and are massless, whatever the random stream yields."""
import random

from .. import common as C
from .. import draws, entropy, interrupt, ref
from ..core import Violation

FIELDS = [C.MPC, C.MPC, C.MPC, C.FF, ["finite field", 2147483629, 1], ["finite field", 10007, 1], ["finite field", 101, 1], C.PADIC, ["padic", 101, 6], C.QI, C.QQ]


def gen(rng, tier, index):
    spec = rng.choice(FIELDS)
    n = rng.choice((3, 4, 4, 5, 5, 6, 7, 8, 10, 11))
    real = spec[0] == "mpc" and rng.random() < 0.4
    ops = [["new", n, real, rng.choice((None, rng.randrange(1000))), rng.random() < 0.15]]
    for _ in range(rng.randint(0, 7)):
        r = rng.random()
        if r < 0.16:
            ops.append(["new", n, real, rng.choice((None, rng.randrange(1000))), rng.random() < 0.15])
        elif r < 0.36:
            ops.append(["randomise", real and rng.random() < 0.8])
        elif r < 0.46:
            ops.append(["twistor"])
        elif r < 0.58:
            a, b = rng.sample(range(1, n + 1), 2)
            ops.append(["leg", rng.randint(1, n), a, b, rng.choice((1, 2)), rng.random() < 0.5])
        elif r < 0.68:
            ops.append(["fix", rng.choice((1, 1, 2)), real and rng.random() < 0.5])
        elif r < 0.80:
            ops.append(["swap"])
        elif r < 0.92:
            perm = list(range(1, n + 1))
            rng.shuffle(perm)
            ops.append(["image", perm, rng.random() < 0.5])
        else:
            ops.append(["list"])
    faults = draws.gen_faults(rng, 30 * n) if rng.random() < 0.7 else []
    cuts = [["int", rng.randrange(len(ops)), rng.choice((rng.randint(1, 60), rng.randint(1, 600)))] for _ in range(rng.choice((0, 0, 0, 1, 2)))]
    return {"field": spec, "n": n, "real": real, "ops": ops, "faults": faults, "cuts": {"faults": cuts}, "conv": rng.choice(("symmetric", "symmetric", "symmetric", "asymmetric"))}


def magnitude(x):
    return abs(x) if isinstance(x, (C.mpmath.mpc, C.mpmath.mpf, complex, float)) else 1


def zero(x, scale):
    if type(x).__name__ == "FieldExtension":
        return False
    if isinstance(x, (complex, float)):
        return abs(x) < 1e-8 * max(1, scale)
    if isinstance(x, (C.mpmath.mpc, C.mpmath.mpf)):
        return abs(x) <= C.mpmath.mpf(10) ** -220 * max(1, scale)
    return ref.is_zero(x)


def check_point(ps, spec, n, why, real=False):
    if len(ps) != n:
        raise Violation("wrong-multiplicity", f"{len(ps)} legs instead of {n} after {why}")
    tot = [[0, 0], [0, 0]]
    four = [0, 0, 0, 0]
    scale = 1
    for k, p in enumerate(list.__iter__(ps)):
        m = p.r2_sp
        big = max(magnitude(e) for e in m.flatten())
        scale = max(scale, big)
        if not zero(m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0], big * big):
            raise Violation("massive-leg", f"leg {k + 1} after {why}; field {spec}")
        for i in range(2):
            for j in range(2):
                tot[i][j] = tot[i][j] + m[i, j]
        if p.r_sp_d is not None and not any(type(e).__name__ == "FieldExtension" for e in list(p.r_sp_d.flatten()) + list(p.l_sp_d.flatten())):
            up = ref.leg_of(p).up
            if not all(zero(up[i][j] - m[i, j], big) for i in range(2) for j in range(2)):
                raise Violation("spinors-disagree", f"leg {k + 1} after {why}; field {spec}")
        if p.four_mom is None:
            four = None
        elif four is not None:
            four = [a + b for a, b in zip(four, p.four_mom)]
        if real:
            if p.four_mom is None or not all(abs(C.mpmath.mpc(e).imag) <= C.mpmath.mpf(10) ** -220 * max(1, big) for e in p.four_mom):
                raise Violation("not-real", f"leg {k + 1} after {why}")
    for i in range(2):
        for j in range(2):
            if not zero(tot[i][j], scale):
                raise Violation("momentum-not-conserved", f"after {why}; field {spec}, n {n}")
    if four is not None and not all(zero(e, scale) for e in four):
        raise Violation("momentum-not-conserved", f"four-momenta after {why}; field {spec}, n {n}")


def execute(plan, ctx):
    spec, n = plan["field"], plan["n"]
    entropy.install("s02")
    C.lips.spinor_convention = plan["conv"]
    F = C.field_of(spec)
    dr = draws.Draws(ctx, plan["faults"]).install()
    random.seed(5)
    cuts = {f[1]: f[2] for f in plan["cuts"]["faults"]}
    ps = None
    ok = False          # the last operation on ps completed
    is_real = False
    Particles = C.lips.Particles
    for k, op in enumerate(plan["ops"]):
        name = op[0]
        before = dr.n
        twisted = sum(ctx.faults.values())
        new, real = None, False
        if name != "new" and ps is None or n == 3 and name in ("leg", "fix", "twistor"):
            continue            # in three-point kinematics all brackets of one kind vanish: nothing to repair with
        if name == "new":
            masses = {"m_t", "mu"} if op[4] else None
            real = op[2]

            def fn():
                return Particles(n, real_momenta=op[2], seed=op[3], field=F, internal_masses=masses)
        elif name == "randomise":
            real = op[1]

            def fn():
                ps.randomise_all(real_momenta=op[1])
        elif name == "twistor":
            if spec[0] in ("finite field", "padic", "rational", "gaussian rational") or not ok or any(p.l_sp_d is None for p in list.__iter__(ps)):
                continue

            def fn():
                ps.randomise_twistor()
        elif name == "leg":
            if not ok or any(p.l_sp_d is None for p in list.__iter__(ps)):
                continue
            i, a, b, axis = op[1:5]

            def fn():
                ps[i].randomise()
                if op[5]:
                    ps.fix_mom_cons(a, b, axis=axis)
                else:
                    ps.fix_mom_cons(axis=axis)
        elif name == "fix":
            if not ok or any(p.l_sp_d is None for p in list.__iter__(ps)):
                continue
            real = op[2] and is_real

            def fn():
                ps.fix_mom_cons(axis=op[1], real_momenta=real)
        elif name == "swap":
            if not ok:
                continue
            real = is_real

            def fn():
                ps.angles_for_squares()
        elif name == "image":
            if not ok or n > 9 or any(p.l_sp_d is None for p in list.__iter__(ps)):
                continue
            rule = "".join(map(str, op[1]))
            real = is_real

            def fn():
                return ps.image((rule, op[2]))
        elif name == "list":
            if not ok:
                continue
            real = is_real

            def fn():
                return Particles([p for p in list.__iter__(ps)], field=F, real_momenta=is_real)
        else:
            continue
        ctx.log(k, name)
        if k in cuts:
            status, val = interrupt.interrupted_call(cuts[k], fn)
        else:
            try:
                status, val = "done", fn()
            except Exception as e:      # noqa
                status, val = "raised", e
        ctx.steps += 1
        degenerate = sum(ctx.faults.values()) > twisted or not ok and name != "new" or degenerate_field(spec) or \
            name == "fix" and real            # legs already aligned with the axis have no real solution
        ctx.log(status, dr.n - before)
        if status == "interrupted":
            ctx.fault("interrupt")
            if name not in ("new", "image", "list"):
                ok = False
        elif status == "raised":
            if not degenerate and not any_degenerate(ps) and not (ctx.faults and name != "new"):
                raise Violation("unexpected-" + type(val).__name__, f"{name} {op[1:]} with ordinary draws raised {val}; field {spec}, n {n}")
            ctx.probe("raised-" + type(val).__name__)
            if name not in ("new", "image", "list"):
                ok = False
        else:
            if name in ("new", "image", "list"):
                ps = val
            ok = True
            is_real = real
            check_point(ps, spec, n, f"op {k} {name} {op[1:3]}", real=real)
            if spec[0] != "padic" and ps.momentum_conservation_check() is False or spec[0] != "padic" and ps.onshell_relation_check() is False:
                raise Violation("own-check-fails", f"{name}: the point's own consistency check fails; field {spec}")
        ctx.state(name, status, spec[0], n, real, ok)
    # recovery: once draws are ordinary, the same object becomes a valid point within a few randomisations
    if ps is not None:
        dr.on = False
        last = None
        for attempt in range(4):
            try:
                ps.randomise_all()
                break
            except (ZeroDivisionError, ValueError, NotImplementedError) as e:
                if not small(spec) and spec[0] != "mpc":
                    raise Violation("unexpected-" + type(e).__name__, f"randomise_all with ordinary draws: {e}; field {spec}")
                last = e
        else:
            if not small(spec):
                raise Violation("no-recovery", f"four randomisations with ordinary draws failed: {last}; field {spec}")
            return
        check_point(ps, spec, n, "recovery")
        ctx.log("end", C.h(C.canon_particles(ps, ("r2_sp",))))


def small(spec):
    return spec[0] in ("finite field", "padic") and spec[1] < 20000


def degenerate_field(spec):
    return small(spec)


def any_degenerate(ps):
    return ps is not None and any(p.l_sp_d is None or type(p.l_sp_d[0, 0]).__name__ == "FieldExtension" for p in list.__iter__(ps))
