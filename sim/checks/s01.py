"""S01: all representations of a momentum agree after any history of operations on a population of particles."""
import copy
import pickle
import random

import numpy

from .. import common as C
from .. import draws, entropy, interrupt, ref
from ..core import Skip, Violation

TOL = C.mpmath.mpf(10) ** -200           # momenta with components 10^-20 lose digits to cancellation
FIELDS = [C.MPC, C.MPC, ["finite field", 2147483629, 1], C.FF, ["finite field", 13, 1], ["finite field", 10007, 1], ["padic", 2147483629, 4],
          ["padic", 13, 5], C.PADIC, C.QI, C.QQ]
HAS_I = {"mpc": True, "gaussian rational": True, "rational": False}
SETTERS = ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d")
SPINOR = ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u")
TO = {"rational": [C.MPC, C.FF, C.PADIC, C.QI, C.QQ, ["finite field", 13, 1]], "finite field": "same", "padic": "reduce", "mpc": [C.MPC],
      "gaussian rational": [C.QI]}


def has_i(spec):
    return HAS_I[spec[0]] if spec[0] in HAS_I else spec[1] % 4 == 1


def has_sqrt(spec):
    return spec[0] in ("mpc", "finite field", "padic")


def gen_value(rng):
    """How the assigned value is made: generic massless, massive, degenerate."""
    return [rng.choice(("massless", "massless", "massless", "massive", "zero", "noplus", "noplus", "tiny", "opposite", "unit")), rng.randrange(10 ** 6)]


def gen(rng, tier, index):
    spec = rng.choice(FIELDS)
    k = rng.randint(1, 4)
    ops = []
    for _ in range(rng.randint(2, 14)):
        r, who = rng.random(), rng.randrange(k)
        if r < 0.5:
            ops.append(["set", who, rng.choice(SETTERS)] + gen_value(rng))
        elif r < 0.56:
            ops.append(["rand", who, rng.random() < 0.5])
        elif r < 0.64:
            ops.append(["swap", who])
        elif r < 0.74:
            ops.append([rng.choice(("add", "sub", "sum")), who, rng.randrange(k), rng.randrange(k)])
        elif r < 0.80:
            ops.append([rng.choice(("mul", "rmul", "div", "neg")), who, rng.randrange(k), rng.choice((2, -1, 3, 7))])
        elif r < 0.86:
            ops.append([rng.choice(("copy", "deepcopy", "pickle", "make2", "make1", "makev", "plus0", "minus0", "zeroplus")), who, rng.randrange(k)])
        elif r < 0.90:
            ops.append(["field", who, rng.randrange(10 ** 6)])
        elif r < 0.94:
            ops.append(["conv"])
        else:
            ops.append(["cross", who, rng.randrange(k), rng.choice(SETTERS)])
    faults = [["int", rng.randrange(len(ops)), rng.choice((rng.randint(1, 12), rng.randint(1, 80)))] for _ in range(rng.choice((0, 0, 1, 2, 3)))]
    draw = draws.gen_faults(rng, 40) if rng.random() < 0.4 else []
    return {"field": spec, "k": k, "conv": rng.choice(("symmetric", "symmetric", "asymmetric")), "ops": ops, "faults": faults, "draws": {"faults": draw}}


class Slot:
    """What we know about one particle: `dirty` after an operation on it did not complete."""

    def __init__(self, p, spec):
        self.p, self.spec, self.dirty = p, spec, False


def make_value(F, spec, rep, kind, seed):
    """Returns (array to assign, model bar matrix or None) for a representation."""
    rng = random.Random(seed)

    def num():
        if spec[0] == "mpc":
            return F(rng.randint(-50, 50)) / rng.randint(1, 60) + 1j * F(rng.randint(-50, 50)) / rng.randint(1, 60)
        if spec[0] == "finite field":
            return F(rng.randrange(spec[1]))
        if spec[0] == "padic":
            return F(rng.randrange(spec[1] ** spec[2] - 1))
        return F(C.Fraction(rng.randint(-50, 50), rng.randint(1, 60)))
    zero, one = F(0), F(1)
    if rep in SPINOR:
        x = [num(), num()]
        if kind == "zero":
            x = [zero, zero]
        elif kind == "noplus":
            x = [zero, num()]
        elif kind == "unit":
            x = [one, zero]
        elif kind == "tiny" and spec[0] == "mpc":
            x = [x[0] * F(10) ** -20, x[1]]
        elif kind == "tiny" and spec[0] == "padic":
            x = [x[0] * spec[1], x[1]]
        arr = numpy.array(x, dtype=object)
        return arr.reshape((2, 1) if rep in ("r_sp_d", "l_sp_u") else (1, 2)), None
    a, b, c, d = num(), num(), num(), num()
    if kind == "zero":
        a = b = c = d = zero
    elif kind == "noplus":
        a = zero if rng.random() < 0.7 else a
        c = zero if a != zero or rng.random() < 0.5 else c
    elif kind == "unit":
        a, b, c, d = one, zero, one, zero
    elif kind == "tiny" and spec[0] == "padic":
        a = a * spec[1]
    bar = [[a * c, a * d], [b * c, b * d]]
    if kind == "massive":
        bar = [[num(), num()], [num(), num()]]
    elif kind == "opposite":
        bar = [[-e for e in row] for row in bar]
    (w, x), (y, z) = bar
    if rep == "r2_sp_b":
        return numpy.array(bar, dtype=object), bar
    if rep == "r2_sp":
        return numpy.array([[z, -x], [-y, w]], dtype=object), bar
    i = imag(F, spec)
    if i is None:
        raise Skip("no imaginary unit")
    fm = [(w + z) / 2, (x + y) / 2, (x - y) * i / 2, (w - z) / 2]
    if rep == "four_mom_d":
        fm = [fm[0], -fm[1], -fm[2], -fm[3]]
    return numpy.array(fm, dtype=object), bar


def imag(F, spec):
    if spec[0] == "mpc":
        return F(1j)
    if spec[0] == "gaussian rational":
        return F(0, 1)
    if spec[0] == "rational" or not has_i(spec):
        return None
    return F(1j)                            # the library's own choice of the root of -1


def eq(x, y, scale=1):
    if isinstance(x, (float, complex)) or isinstance(y, (float, complex)):      # four-momenta over the rationals are machine numbers
        x, y = complex(x), complex(y)
        return abs(x - y) <= 1e-9 * max(1, abs(x), abs(y))
    if "FieldExtension" in (type(x).__name__, type(y).__name__):
        try:
            d = x - y
        except (TypeError, ValueError, AttributeError):
            return True                                              # not comparable in the extension
        return all(ref.is_zero(v) for v in d.dict_.values()) if hasattr(d, "dict_") else ref.is_zero(d)
    try:
        return ref.same(x, y) or isinstance(x, (C.mpmath.mpc, C.mpmath.mpf)) and abs(x - y) <= TOL * scale
    except (TypeError, ValueError, AttributeError):
        try:
            return bool(x == y)
        except (TypeError, ValueError):
            return False


def ext(arr):
    return arr is not None and any(type(e).__name__ == "FieldExtension" for e in arr.flatten())


def check_particle(slot, ctx, why):
    """The invariant: every reported representation describes the same momentum."""
    p, spec = slot.p, slot.spec
    r2, r2b, rd, ld, ru, lu, fm, fmd = p.r2_sp, p.r2_sp_b, p.r_sp_d, p.l_sp_d, p.r_sp_u, p.l_sp_u, p.four_mom, p.four_mom_d

    def bad(what):
        raise Violation("representations-disagree", f"{what} after {why}; field {spec}")
    if getattr(r2, "shape", None) != (2, 2) or getattr(r2b, "shape", None) != (2, 2):
        bad("rank-two spinors missing")
    w, x, y, z = r2b[0, 0], r2b[0, 1], r2b[1, 0], r2b[1, 1]
    scale = max(1, *map(abs, (w, x, y, z))) if spec[0] == "mpc" else 1
    global_eq = globals()["eq"]

    def eq(u, v, power=1):
        return global_eq(u, v, scale ** power)
    if not (eq(r2[0, 0], z) and eq(r2[0, 1], -x) and eq(r2[1, 0], -y) and eq(r2[1, 1], w)):
        bad("r2_sp and r2_sp_b")
    if (fm is None) != (fmd is None):
        bad("one of the four-momenta missing")
    if fm is not None:
        if fm.shape != (4,) or fmd.shape != (4,):
            bad("shape of four-momentum")
        if not (eq(fm[0] + fm[3], w) and eq(fm[0] - fm[3], z) and eq(fm[1] * 2, x + y)):
            bad("four_mom and r2_sp")
        s = fm[2] * 2
        if not eq(s * s, -((x - y) * (x - y)), 2):
            bad("four_mom y-component")
        i = imag(C.field_of(spec), spec)
        if i is not None and not eq(s, (x - y) * i):
            bad("sign of four_mom y-component")
        if not (eq(fm[0], fmd[0]) and all(eq(fm[j], -fmd[j]) for j in (1, 2, 3))):
            bad("four_mom and four_mom_d")
    elif spec[0] in ("mpc", "gaussian rational"):
        bad("four_mom absent")
    if len({e is None for e in (rd, ld, ru, lu)}) != 1:
        bad("spinors partly absent")
    if rd is not None:
        if rd.shape != (2, 1) or ru.shape != (1, 2) or ld.shape != (1, 2) or lu.shape != (2, 1):
            bad("spinor shapes")
        if not (eq(ru[0, 0], rd[1, 0]) and eq(ru[0, 1], -rd[0, 0])):
            bad("r_sp_u and r_sp_d")
        if not (eq(lu[0, 0], ld[0, 1]) and eq(lu[1, 0], -ld[0, 0])):
            bad("l_sp_u and l_sp_d")
        m2 = w * z - x * y
        if eq(m2, m2 * 0, 2):
            a, b, c, d = rd[0, 0], rd[1, 0], ld[0, 0], ld[0, 1]
            for got, want in ((a * c, w), (a * d, x), (b * c, y), (b * d, z)):
                if not eq(got, want):
                    bad("spinors and r2_sp")
            ctx.probe("massless-with-spinors")
        else:
            ctx.probe("massive-with-spinors")
    else:
        ctx.probe("no-spinors")
    try:
        m2 = w * z - x * y
        if not eq(p.m2, m2, 2):
            bad("m2")
    except ZeroDivisionError:
        pass


def model_check(slot, want, why, spec):
    """Exact values that the operation must have produced; want: dict representation -> nested list."""
    for rep, val in want.items():
        got = getattr(slot.p, rep)
        if got is None:
            raise Violation("wrong-value", f"{rep} absent after {why}; field {spec}")
        flat = [e for row in val for e in row] if isinstance(val[0], list) else val
        if len(flat) != got.size or not all(eq(g, v) for g, v in zip(got.flatten(), flat)):
            raise Violation("wrong-value", f"{rep} has not the assigned/derived value after {why}; field {spec}")


def rows(m):
    return None if m is None else [[e for e in row] for row in m]


def fresh_twin(slot, bar, rep, arr, spec, why):
    """A particle without history given the same value must report the same spinors (massive ones included)."""
    t = C.lips.Particle(kinematics=None, field=C.field_of(spec))
    setattr(t, rep, arr)
    for name in SPINOR:
        x, y = getattr(slot.p, name), getattr(t, name)
        if (x is None) != (y is None) or x is not None and not all(eq(g, v) for g, v in zip(x.flatten(), y.flatten())):
            raise Violation("history-dependent", f"{name} depends on what the particle was before {why}; field {spec}")


def execute(plan, ctx):
    spec = plan["field"]
    entropy.install("s01")
    C.lips.spinor_convention = plan["conv"]
    F = C.field_of(spec)
    dr = draws.Draws(ctx, plan["draws"]["faults"]).install()
    random.seed(7)
    slots = []
    for _ in range(plan["k"]):
        for _try in range(50):
            try:
                p = C.lips.Particle(field=F)
                break
            except (ZeroDivisionError, ValueError):
                continue
        slots.append(Slot(p, spec))
    ints = {f[1]: f[2] for f in plan["faults"]}
    for n, op in enumerate(plan["ops"]):
        step(plan, ctx, slots, op, ints.get(n), n)
        for j, s in enumerate(slots):
            if not s.dirty:
                check_particle(s, ctx, f"op {n} {op[0]} (particle {j})")
        ctx.steps += 1
        ctx.state(op[0], op[2] if op[0] == "set" else "", spec[0], C.lips.spinor_convention, *[(s.dirty, s.p.r_sp_d is None, s.p.four_mom is None) for s in slots])
    ctx.log("end", C.h("".join("dirty" if s.dirty else C.canon_particle(s.p) for s in slots)))


def sqrt_needed(spec):
    return not has_sqrt(spec) and C.lips.spinor_convention == "symmetric"


def step(plan, ctx, slots, op, cut, n):
    name = op[0]
    if name == "conv":
        C.lips.spinor_convention = {"symmetric": "asymmetric", "asymmetric": "symmetric"}[C.lips.spinor_convention]
        ctx.log("conv", C.lips.spinor_convention)
        return
    s = slots[op[1]]
    spec = s.spec
    F = C.field_of(spec)
    others = [(o, C.canon_particle(o.p)) for o in slots if o is not s and not o.dirty]
    want, allowed, twin, result, full = {}, (), None, None, False
    p = s.p

    if name == "set" or name == "cross":
        rep = op[3] if name == "cross" else op[2]
        if name == "cross":
            src = slots[op[2]]
            if src.dirty or src.spec != spec or getattr(src.p, rep) is None:
                return
            arr = numpy.array(getattr(src.p, rep), dtype=object)
            bar = rows(src.p.r2_sp_b)
        else:
            if rep in ("four_mom", "four_mom_d") and not has_i(spec):
                return
            try:
                arr, bar = make_value(F, spec, rep, op[3], op[4])
            except Skip:
                return
        if rep in SPINOR:
            if s.dirty or p.r_sp_d is None or p.l_sp_d is None or ext(p.r_sp_d) or ext(p.l_sp_d) or ext(arr):
                return
            keep = "l_sp_d" if rep.startswith("r") else "r_sp_d"
            v = list(arr.flatten())
            a, b = (v if rep == "r_sp_d" else [-v[1], v[0]]) if rep.startswith("r") else list(p.r_sp_d.flatten())
            c, d = (v if rep == "l_sp_d" else [-v[1], v[0]]) if rep.startswith("l") else list(p.l_sp_d.flatten())
            want = {rep: v, keep: list(getattr(p, keep).flatten()), "r2_sp_b": [a * c, a * d, b * c, b * d]}
        else:
            (w, x), (y, z) = bar
            want = {"r2_sp_b": [w, x, y, z], rep: list(arr.flatten())}
            if sqrt_needed(spec):
                allowed = Exception
            if "four_mom" in rep and spec[0] == "rational":
                allowed = Exception
            twin, full = (bar, rep, arr.copy()), True

        def fn():
            setattr(p, rep, arr)
    elif name == "rand":
        real = op[2] and spec[0] == "mpc"
        full, allowed = True, (ZeroDivisionError, ValueError) if plan["draws"]["faults"] else ()

        def fn():
            p.randomise(real_momentum=real)
    elif name == "swap":
        if s.dirty:
            return
        want = {"r2_sp_b": [p.r2_sp_b[0, 0], p.r2_sp_b[1, 0], p.r2_sp_b[0, 1], p.r2_sp_b[1, 1]]}
        if p.r_sp_d is not None:
            want["r_sp_d"], want["l_sp_d"] = list(p.l_sp_d.flatten()), list(p.r_sp_d.flatten())

        def fn():
            p.angles_for_squares()
    elif name in ("add", "sub", "sum"):
        x, y = slots[op[2]], slots[op[3]]
        if x.dirty or y.dirty or x.spec != y.spec:
            return
        sg = -1 if name == "sub" else 1
        want = {"r2_sp_b": [e + sg * f for e, f in zip(x.p.r2_sp_b.flatten(), y.p.r2_sp_b.flatten())]}
        result, full = x.spec, True
        allowed = Exception if sqrt_needed(x.spec) else ()
        xp, yp = x.p, y.p

        def fn():
            return {"add": lambda: xp + yp, "sub": lambda: xp - yp, "sum": lambda: sum([xp, yp])}[name]()
    elif name in ("mul", "rmul", "div", "neg"):
        x, k = slots[op[2]], op[3]
        if x.dirty or x.spec[0] == "finite field" and x.spec[1] == 13 and k == 13:
            return
        xp = x.p
        want = {"r2_sp_b": [e * k if name in ("mul", "rmul") else e / k if name == "div" else -e for e in xp.r2_sp_b.flatten()]}
        result, full = x.spec, True
        allowed = Exception if sqrt_needed(x.spec) or plan["draws"]["faults"] and name == "neg" else ()

        def fn():
            return {"mul": lambda: xp * k, "rmul": lambda: k * xp, "div": lambda: xp / k, "neg": lambda: -xp}[name]()
    elif name in ("copy", "deepcopy", "pickle", "plus0", "minus0", "zeroplus"):
        x = slots[op[2]]
        if x.dirty:
            return
        xp, result, full = x.p, x.spec, True
        want = {r: list(getattr(xp, r).flatten()) for r in C.REPS if getattr(xp, r) is not None}

        def fn():
            return {"copy": lambda: copy.copy(xp), "deepcopy": lambda: copy.deepcopy(xp), "pickle": lambda: pickle.loads(pickle.dumps(xp)),
                    "plus0": lambda: xp + 0, "minus0": lambda: xp - 0, "zeroplus": lambda: 0 + xp}[name]()
    elif name in ("make1", "make2", "makev"):
        x = slots[op[2]]
        if x.dirty:
            return
        xp, result, full = x.p, x.spec, True
        want = {"r2_sp_b": list(xp.r2_sp_b.flatten())}
        if name == "make1":
            if xp.r_sp_d is None or not ref.is_zero(ref.det2(rows(xp.r2_sp_b))):
                return
            kin = (numpy.array(xp.r_sp_d, dtype=object), numpy.array(xp.l_sp_d, dtype=object))
            want["r_sp_d"], want["l_sp_d"] = list(xp.r_sp_d.flatten()), list(xp.l_sp_d.flatten())
        elif name == "make2":
            kin = numpy.array(xp.r2_sp, dtype=object)
            allowed = Exception if sqrt_needed(x.spec) else ()
        else:
            if xp.four_mom is None or not has_i(x.spec):
                return
            kin = numpy.array(xp.four_mom, dtype=object)
            allowed = Exception if sqrt_needed(x.spec) else ()
        XF = C.field_of(x.spec)

        def fn():
            return C.lips.Particle(kinematics=kin, field=XF)
    elif name == "field":
        if s.dirty or p.r_sp_d is None or ext(p.r_sp_d) or ext(p.l_sp_d) or not ref.is_zero(ref.det2(rows(p.r2_sp_b))):
            return
        t = TO[spec[0]]
        if t == "same":
            new = [spec, ["padic", spec[1], 3]][op[2] % 2]
        elif t == "reduce":
            new = [spec, ["finite field", spec[1], 1]][op[2] % 2]
            if new != spec and any(int(e.n) < 0 or int(e.k) < 1 for e in list(p.r_sp_d.flatten()) + list(p.l_sp_d.flatten())):
                return
        else:
            new = t[op[2] % len(t)]
        if spec[0] == "mpc" or spec[0] == "gaussian rational":
            new = spec
        if spec[0] == "rational" and any(type(e).__name__ != "Fraction" for e in list(p.r_sp_d.flatten()) + list(p.l_sp_d.flatten())):
            return
        if spec[0] == "rational" and any(e.denominator % 13 == 0 for e in list(p.r_sp_d.flatten()) + list(p.l_sp_d.flatten())):
            return
        G = C.field_of(new)
        want = {"r_sp_d": [G(e) for e in p.r_sp_d.flatten()], "l_sp_d": [G(e) for e in p.l_sp_d.flatten()]}
        spec_after = new

        def fn():
            p.to_field(G)
    else:
        raise Skip(name)

    ctx.log(n, name, *[str(e)[:20] for e in op[1:]])
    if cut is not None:
        status, val = interrupt.interrupted_call(cut, fn)
    else:
        try:
            status, val = "done", fn()
        except Exception as e:          # noqa
            status, val = "raised", e
    ctx.log(status)
    for o, before in others:
        if C.canon_particle(o.p) != before:
            raise Violation("other-particle-changed", f"{name} changed another particle; field {spec}")
    if status == "interrupted":
        ctx.fault("interrupt")
        if result is None:
            s.dirty = True
        return
    if status == "raised":
        if isinstance(val, allowed if allowed else ()) or spec[0] == "padic" and isinstance(val, NotImplementedError):
            ctx.fault("operation-raised")
            if result is None:
                s.dirty = True
            return
        raise Violation("unexpected-" + type(val).__name__, f"{name} {op}: {val}; field {spec}, {C.lips.spinor_convention}")
    if result is not None:
        s.p, s.spec, s.dirty = val, result, False
    elif full:
        s.dirty = False
    if name == "field":
        s.spec = spec_after
    if s.dirty:
        return
    model_check(s, want, f"op {n} {name} {op[2:]}", s.spec)
    if name == "rand" and real and s.p.four_mom is not None and any(abs(C.mpmath.mpc(e).imag) > ref.TOL for e in s.p.four_mom):
        raise Violation("not-real", "randomise(real_momentum=True) gave complex momentum")
    if twin:
        fresh_twin(s, *twin, s.spec, f"op {n} {op[:3]}")
