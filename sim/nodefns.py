"""Functions that run inside interpreter nodes (and, in-process, in the runs themselves)."""
import base64
import copy
import gc
import pickle
import random
import threading

import numpy
import sympy

from . import common as C
from . import interrupt, solver

lips = C.lips
state = {}


class Unreadable(Exception):
    """A generated point whose components cannot be read."""


class NullCtx:
    vtime = 0.0

    def log(self, *a):
        pass

    def fault(self, kind):
        state.setdefault("faults", []).append(kind)


def setup(shared):
    """Healthy solver calls are real and memoised for the whole check run."""
    solver.Solver(NullCtx(), shared).install()


# ------------------------------------------------------------------------------------------------- canonical kinematics

def canon_component(x):
    if isinstance(x, sympy.Basic) and x.free_symbols:
        syms = sorted(x.free_symbols, key=str)
        poly = sympy.Poly(x, *syms)
        return "Q" + ",".join(map(str, syms)) + ":" + ";".join(f"{m}={int(c)}" for m, c in sorted(poly.terms()))
    if isinstance(x, sympy.Integer):
        return f"I{int(x)}"
    return C.canon(x)


def kinematics(ps, with_ref=True):
    legs = []
    for p in list.__iter__(ps):
        legs.append("/".join(canon_component(x) for x in list(p.r_sp_d.flatten()) + list(p.l_sp_d.flatten())))
        legs.append("/".join(canon_component(x) for x in p.r2_sp.flatten()) if p.r2_sp is not None else "None")
        symbolic = any(isinstance(x, sympy.Basic) and x.free_symbols for x in p.r_sp_d.flatten())
        four = getattr(p, "four_mom", None) if not symbolic else None                # (floating-point expressions over a finite field)
        legs.append("None" if four is None else "/".join(canon_component(x) for x in four.flatten()))
    masses = sorted((m, canon_component(getattr(ps, m))) for m in ps.internal_masses)
    out = "\n".join(legs) + "\n" + str(masses)
    if with_ref:
        out += "\n" + C.canon_particle(ps.oRefVec)
    return out


# --------------------------------------------------------------------------------------------------------- seeded targets

def masses_of(spec):
    if spec is None:
        return None
    kind, names = spec
    if kind == "dict":
        return {m: i + 1 for i, m in enumerate(names)}
    return {"set": set, "list": list, "tuple": tuple}[kind](names)


def build(t):
    """The seeded generation described by `t`."""
    F = C.field_of(t["field"])
    if t["kind"] == "variety":
        kw = {"valuations": tuple(t["valuations"])} if t["valuations"] else {}
        return lips.Particles.from_singular_variety(t["n"], F, tuple(t["constraints"]), seed=t["seed"], **kw)
    kw = {}
    if t.get("real"):
        kw["real_momenta"] = True
    if t.get("nofix"):
        kw["fix_mom_cons"] = False
    ps = lips.Particles(t["n"], seed=t["seed"], field=F, internal_masses=masses_of(t.get("masses")), **kw)
    if t["kind"] == "uni":
        ps.univariate_slice(extra_constraints=tuple(t["constraints"]), seed=t["seed2"], algorithm=t["algorithm"])
    elif t["kind"] == "bi":
        ps.bivariate_slice(extra_constraints=tuple(t["constraints"]), seed=t["seed2"])
    elif t["kind"] == "rand":
        ps.randomise_all(**({"real_momenta": True} if t.get("real") else {}))
    elif t["kind"] == "twistor":
        ps.randomise_twistor()
    return ps


def target(t):
    ps = build(t)
    state["last"] = ps
    try:
        return kinematics(ps, with_ref=t["kind"] not in ("variety",))
    except Exception as e:      # noqa
        raise Unreadable(f"{type(e).__name__}: {e}")


def target_in_thread(t):
    box = []

    def body():
        try:
            box.append(("ok", target(t)))
        except BaseException as e:      # noqa
            box.append(("exc", e))
    th = threading.Thread(target=body)
    th.start()
    th.join()
    if box[0][0] == "exc":
        raise box[0][1]
    return box[0][1]


# --------------------------------------------------------------------------------------------------------------- histories

def deface(ps):
    """In-place changes of everything reachable from a point."""
    for p in list.__iter__(ps):
        for rep in ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom"):
            a = getattr(p, rep, None)
            if isinstance(a, numpy.ndarray) and a.dtype == object:
                a.flat[0] = a.flat[0] + 1 if a.flat[0] is not None else None
    for m in sorted(ps.internal_masses):
        setattr(ps, m, 7)
    ps.internal_masses.add("M_extra")
    object.__setattr__(ps, "M_extra", 1)
    list.reverse(ps)


def history(op):
    """One earlier library call or random draw; returns what happened, never raises for library failures."""
    name = op[0]
    if name == "draw":
        for _ in range(op[1] % 50 + 1):
            random.random(), random.randrange(10 ** 6), numpy.random.random()
        return "drawn"
    if name == "seed":
        random.seed(op[1])
        numpy.random.seed(op[1] % 2 ** 32)
        return "seeded"
    if name == "interrupt":
        return interrupt.interrupted_call(op[2], lambda: build(op[1]))[0]
    if name == "gc":
        state.clear()
        gc.collect()
        return "collected"
    try:
        if name == "target":                    # the same or another seeded generation, then defaced
            ps = build(op[1])
            deface(ps)
        elif name == "point":
            ps = lips.Particles(op[1] % 4 + 4, field=C.field_of(op[2]))
            ps.randomise_all()
            state["last"] = ps
        elif name == "refresh":
            state["last"].randomise_all()
        elif name == "fix":
            state["last"].fix_mom_cons()
        elif name == "limit":
            ps = lips.Particles(5, seed=op[1], field=C.field_of(C.MPC))
            ps._set(op[2], C.mpmath.mpf(10) ** -20)
        elif name == "bad":
            [lambda: lips.Particles("six"), lambda: lips.Particles(5, internal_masses=3), lambda: lips.Particles(5, seed=op[1])("⟨1|2|3⟩"),
             lambda: lips.Particles(2), lambda: lips.Particles(5, field=C.field_of(C.FF)).variety(("foo",), (1,)),
             lambda: lips.Particles(5, field=C.field_of(C.QI)).univariate_slice(seed=3)][op[1] % 6]()
        elif name == "derive":
            ps = lips.Particles(5, seed=op[1], field=C.field_of(op[2]))
            q = pickle.loads(pickle.dumps(copy.deepcopy(ps.image("21345"))))
            q.randomise_all()
            hash(q), q == ps
        elif name == "invariants":
            lips.Invariants(5)
        elif name == "eval":
            ps = lips.Particles(6, seed=op[1], field=C.field_of(op[2]))
            ps("⟨1|2⟩"), ps("s_123"), ps("⟨1|2+3|4]"), ps("tr5_1234")
        elif name == "badsolver":               # a slice or variety whose solver calls fail
            s = solver.Solver(NullCtx(), op[3], faults=[[op[2], k, 0.5] for k in ("error",)])
            s.install()
            try:
                build(op[1])
            finally:
                setup(op[3])
        return "done"
    except Exception as e:      # noqa
        return "raised " + type(e).__name__


# ------------------------------------------------------------------------------------------------------------------ R02

def unseeded(kind, n, field, masses=None):
    F = C.field_of(field)
    if kind == "real":
        ps = lips.Particles(n, field=F, real_momenta=True)
    elif kind == "list":
        ps = lips.Particles([lips.Particle(field=F) for _ in range(n)], field=F)
    else:
        ps = lips.Particles(n, field=F, internal_masses=set(masses) if masses else None)
    return ps


# ------------------------------------------------------------------------------------------------------------------ H01

def b64(x):
    return base64.b64encode(x).decode()


def unb64(s):
    return base64.b64decode(s.encode())


EXPRS = ("⟨1|2⟩", "[2|3]", "s_123", "⟨1|2+3|4]", "tr5_1234", "s_12/s_34-⟨1|3⟩[3|1]", "⟨2|(1+3)|4|2⟩", "Δ_12|34|")


def full_canon(ps):
    """Everything a receiver must find again."""
    f = ps.field
    attrs = sorted(k for k in ps.__dict__ if k not in ("oRefVec", "field", "internal_masses") and not k.startswith("_"))
    return "\n".join([C.canon_particles(ps), C.canon_particle(ps.oRefVec), f"{f.name},{f.characteristic},{f.digits}", C.canon(set(ps.internal_masses)),
                      str([(k, C.canon(ps.__dict__[k])) for k in attrs]), type(ps).__name__,
                      str([(p.field.name, p.field.characteristic, p.field.digits, str(getattr(p, "spin_index", None))) for p in list.__iter__(ps)])])


def evaluate(ps):
    """Values of expressions on a point; failures are part of the answer."""
    out = []
    for e in EXPRS[:6] + tuple(sorted(ps.internal_masses)):
        try:
            out.append(C.canon(ps(e)))
        except Exception as x:      # noqa
            out.append(type(x).__name__)
    return "\n".join(out)


def hash_of(ps):
    try:
        return hash(ps)
    except TypeError as e:
        return "unhashable " + str(e)[:60]


def pts():
    return state.setdefault("pts", {})


def h_setup(convention, seed, shared):
    setup(shared)
    lips.spinor_convention = convention
    random.seed(seed)
    return None


def make_point(t):
    ps = build(t)
    for op in t.get("then", ()):
        n = len(ps)
        if op[0] == "swap":
            ps.angles_for_squares()
        elif op[0] == "image":
            perm = list(range(1, n + 1))
            random.Random(op[1]).shuffle(perm)
            if n < 10:
                ps = ps.image(("".join(map(str, perm)), bool(op[1] % 2)))
        elif op[0] == "cluster" and n >= 6 and t["field"][0] in ("mpc", "finite field", "padic"):
            corners = [[i] for i in range(1, n - 1)] + [[n - 1, n]]
            ps = ps.cluster(corners, massive_fermions=((n - 1, "u" if op[1] % 2 else "d", (1, 2, all)[op[1] % 3]),) if op[1] % 4 == 0 else None)
        elif op[0] == "inplace":
            p = ps[op[1] % n + 1]
            if p.r_sp_d is not None and p.r_sp_d.shape == (2, 1):
                p.r_sp_d[0, 0] = p.r_sp_d[0, 0] + 1
                p.r_sp_d = p.r_sp_d
        elif op[0] == "mass":
            ps.m_new = [3, "s_12", ps.field(5)][op[1] % 3]
        elif op[0] == "helconf":
            ps.helconf = "pm" * 5
        elif op[0] == "hash":
            hash_of(ps)
        elif op[0] == "eval":
            evaluate(ps)
        elif op[0] == "four" and t["field"][0] == "mpc":
            p = ps[op[1] % n + 1]
            if p.four_mom is not None:
                p.four_mom = p.four_mom * 1
        elif op[0] == "analytic":
            ps.make_analytical_d()
    return ps


def h_make(name, t):
    """A point of this process; returns its description."""
    for k in range(20):
        try:
            ps = make_point(dict(t, seed=t["seed"] + k))
            break
        except ZeroDivisionError:       # degenerate draws
            continue
    pts()[name] = ps
    return describe(ps)


def describe(ps):
    return {"canon": full_canon(ps), "eval": evaluate(ps), "hash": str(hash_of(ps))}


def h_describe(name):
    return describe(pts()[name])


def h_send(names, protocol, wrap):
    """Serialises points of this process: alone, as a list, inside a dict, or with one of their legs."""
    ps = [pts()[n] for n in names]
    obj = ps[0] if wrap == "one" else ps if wrap == "list" else {"points": ps, "twin": ps[0]} if wrap == "dict" else (ps[0], list.__getitem__(ps[0], 0))
    if any(isinstance(x, sympy.Basic) for q in ps for p in list.__iter__(q) for x in p.r_sp_d.flatten()):
        protocol = max(protocol, 2)             # the oldest protocols are refused by sympy
    return b64(pickle.dumps(obj, protocol=protocol))


def h_receive(names, data, wrap, cut):
    """Loads a message; returns descriptions, or what a truncated message did."""
    raw = unb64(data)
    if cut is not None:
        raw = raw[:cut % len(raw)]
    before = (random.getstate(), lips.spinor_convention, C.mpmath.mp.prec)
    try:
        obj = pickle.loads(raw)
    except Exception as e:      # noqa
        return {"raised": type(e).__name__, "points": [], "state": before == (random.getstate(), lips.spinor_convention, C.mpmath.mp.prec)}
    same = before == (random.getstate(), lips.spinor_convention, C.mpmath.mp.prec)
    leg = True
    if wrap == "one":
        ps = [obj]
    elif wrap == "list":
        ps = obj
    elif wrap == "dict":
        ps = obj["points"]
        leg = obj["twin"] is ps[0]
    else:
        ps = [obj[0]]
        leg = C.canon_particle(obj[1]) == C.canon_particle(list.__getitem__(obj[0], 0))
    for n, p in zip(names, ps):
        pts()[n] = p
    return {"raised": None, "points": [describe(p) for p in ps], "state": same, "leg": leg}


def h_compare(a, b):
    x, y = pts()[a], pts()[b]
    return [bool(x == y), bool(y == x), bool(x != y), str(hash_of(x)), str(hash_of(y))]


def h_use(name, k):
    """A received point must behave like any other: it can be modified, relabelled and repaired."""
    ps = copy.deepcopy(pts()[name])
    n = len(ps)
    ps.m_used = 4
    assert "m_used" in ps.internal_masses and "m_used" not in pts()[name].internal_masses
    q = ps.image("".join(map(str, range(1, n + 1)))) if n < 10 else ps.copy()
    try:
        q.randomise_all()
    except ZeroDivisionError:
        return "degenerate"
    from . import ref
    return all(ref.is_zero(x, 1) for row in ref.Point.of(q).total() for x in row)


# --------------------------------------------------------------------------------------------------------- invariants

def invariants(n, flags, uncached=False):
    from .cachesim import opts_of, snapshot_of
    kw = opts_of([f for f in flags if f != "verbose"])
    if uncached:
        kw["no_cached"] = True
    return snapshot_of(lips.Invariants(n, **kw))


def invariants_uncached(n, flags):
    return invariants(n, flags, uncached=True)
