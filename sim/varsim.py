"""Requests to move points onto surfaces: cases, oracle and the seams they run under (shared by V01 and V02)."""
import contextlib
import io
import random

import syngular

from . import common as C
from . import ref
from .core import Violation

A, S = (lambda i, j: ["A", i, j]), (lambda i, j: ["S", i, j])
# surfaces for which the library has no closed form, so that the algebra system is asked; chosen to be linear enough that any draw has a solution
SOLVER_CASES = [
    (4, [["s", [1, 2]]]),
    (5, [["s", [1, 2]]]),
    (5, [A(1, 2), A(1, 3), A(2, 3)]),
    (5, [A(1, 2), S(3, 4), S(1, 2)]),
    (5, [S(1, 2), S(2, 3), S(1, 3)]),
    (6, [A(1, 2), A(2, 3), S(4, 5)]),
    (6, [A(1, 2), S(3, 4), A(5, 6)]),
    (6, [A(1, 2), A(3, 4), ["NB", "<", 1, [[[1, 2], [1, 3]]], 4, "]"]]),
]
# surfaces whose closed form changes the point and then gives up by itself (over finite fields), in one way or another
GIVE_UP = [
    (4, [A(2, 1), ["s", [2, 3]]]),
    (4, [["NB", "[", 3, [[[1, 1]], [[1, 4]]], 2, "]"]]),
    (4, [["NB", "<", 1, [[[1, 3]]], 2, "]"], A(3, 1)]),
    (5, [A(3, 5), ["s", [1, 3]]]),
    (5, [["s", [1, 2, 4]], ["NB", "<", 1, [[[1, 5]]], 4, "]"]]),
    (5, [["NB", "<", 3, [[[1, 2], [1, 4]], [[1, 5], [1, 3]], [[1, 2], [1, 1]]], 5, "]"]]),
    (5, [S(4, 3), ["NB", "<", 5, [[[1, 3], [1, 1]], [[1, 2], [1, 1]], [[1, 1], [1, 5]]], 1, "]"]]),
    (5, [["NB", "<", 5, [[[1, 2]]], 4, "]"], ["NB", "<", 4, [[[1, 2]]], 5, "]"]]),
    (6, [S(6, 3), ["s", [2, 6]]]),
]
FIELDS = {"ff": C.FF, "padic": C.PADIC, "ffs": ["finite field", 2147483629, 1], "mpc": C.MPC}


def relabel(e, perm):
    """perm: dict old label -> new label."""
    if e[0] in "AS":
        return [e[0], perm[e[1]], perm[e[2]]]
    if e[0] == "s":
        return ["s", sorted(perm[i] for i in e[1])]
    if e[0] == "NB":
        return ["NB", e[1], perm[e[2]], [[[s, perm[i]] for s, i in m] for m in e[3]], perm[e[4]], e[5]]
    return e


def solver_case(rng):
    """A request answered by the algebra system; few distinct ones, so that its answers can be memoised."""
    if rng.random() < 0.3:
        n, invs = rng.choice(GIVE_UP)
        return {"n": n, "field": "ff", "invs": invs, "vals": [0] * len(invs), "seed": rng.choice((1, 2)), "solver": True, "sure": True}
    k = rng.randrange(len(SOLVER_CASES))
    n, invs = SOLVER_CASES[k]
    field = rng.choice(("ff", "ff", "ff", "padic") if n > 4 else ("ff", "ff", "padic", "padic", "mpc"))
    shift = rng.choice((0, 0, 1, 2)) if field != "mpc" else 0
    perm = {i: (i - 1 + shift) % n + 1 for i in range(1, n + 1)}
    vals = [10 ** -30] if field == "mpc" else [1] * len(invs) if field == "padic" else [rng.choice((0, 1))] * len(invs)
    if field == "padic" and k in (5, 6) and rng.random() < 0.3:
        vals[0] = 2
    return {"n": n, "field": field, "invs": [relabel(e, perm) for e in invs], "vals": vals, "seed": rng.choice((1, 2)), "solver": True, "sure": True}


def single(rng, n):
    """One invariant with a closed-form solution at every point."""
    legs = list(range(1, n + 1))
    kind = rng.choice(("A", "S", "NB", "s", "DC", "tr5", "OP"))
    if kind == "s" and n >= 6:
        return ["s", sorted(rng.sample(legs, rng.randint(3, n - 3)))]
    if kind == "DC" and n >= 6:
        p = rng.sample(legs, n)
        a = rng.randint(2, n - 4)
        b = rng.randint(2, n - a - 2)
        return ["DC", [sorted(p[:a]), sorted(p[a:a + b]), sorted(p[a + b:])]]
    if kind == "tr5" and n >= 5:
        return ["tr5", [[i] for i in rng.sample(legs, 4)]]
    if kind == "OP" and n == 6:
        return [rng.choice("OP"), rng.choice(([1, 3, 5], [2, 4, 6], [3, 5, 1]))]
    i, j = rng.sample(legs, 2)
    if kind in "AS":
        return [kind, i, j]
    rest = [k for k in legs if k not in (i, j)]
    return ["NB", "<", i, [[[1, k] for k in rng.sample(rest, rng.randint(1, max(1, len(rest) - 1)))]], j, "]"]


def other(rng, n):
    """An invariant that may or may not have a closed form."""
    legs = list(range(1, n + 1))
    r = rng.random()
    if r < 0.4:
        return single(rng, n)
    i, j = rng.sample(legs, 2)
    if r < 0.55:
        return ["s", sorted(rng.sample(legs, 2 if n < 5 else rng.choice((2, 3))))]
    if r < 0.8:
        rest = [k for k in legs if k not in (i, j)]
        rng.shuffle(rest)
        left = rng.choice("<[")
        c = rng.randint(1, len(rest) - 1)
        return ["NB", left, i, [[[1, k] for k in rest[:c]], [[1, k] for k in rest[c:][:2]]], j if rng.random() < 0.6 else i, ">" if left == "<" else "]"]
    return ["NB", "<", i, [[[1, k] for k in rng.sample(legs, 2)] for _ in range(3)], j, "]"]


def closed_case(rng):
    """A request for which only closed-form solutions are tried."""
    n = rng.choice((4, 5, 5, 6, 6, 7))
    field = rng.choice(("mpc", "mpc", "padic", "padic", "ff"))
    m = rng.choice((1, 1, 2))
    sure = m == 1 and rng.random() < 0.6
    invs = [single(rng, n) if sure else other(rng, n) for _ in range(m)]
    if field == "mpc":
        vals = [float(f"1e-{rng.randint(10, 60)}") for _ in invs]
    elif field == "padic":
        vals = [rng.randint(1, 3) for _ in invs]
    else:
        vals = [rng.choice((0, 0, 0, 1)) for _ in invs]
        sure = sure and vals == [0]
    return {"n": n, "field": field, "invs": invs, "vals": vals, "seed": rng.randint(1, 60), "solver": False, "sure": sure}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def make_point(case):
    spec = FIELDS[case["field"]]
    ps = C.seeded(case["n"], case["seed"], field=C.field_of(spec))
    random.seed(case["seed"])
    return ps, spec


def request(ps, case):
    with quiet():
        ps.variety(tuple(ref.render(e, 32) for e in case["invs"]), tuple(case["vals"]), try_singular_variety_solver=case["solver"])


def construct(case):
    kw = {"valuations": tuple(case["vals"])} if case["field"] == "padic" else {}
    with quiet():
        return C.lips.Particles.from_singular_variety(case["n"], C.field_of(FIELDS[case["field"]]), tuple(ref.render(e, 32) for e in case["invs"]), seed=case["seed"], **kw)


def verify(ps, case, spec, why):
    """Every requested value, momentum conservation and masslessness, recomputed."""
    from .checks import s02
    s02.check_point(ps, spec, case["n"], why)
    P = ref.Point.of(ps)
    tol = C.field_of(spec).tollerance
    for e, v in zip(case["invs"], case["vals"]):
        x = P.value(e)
        text = ref.render(e, 32)
        if type(x).__name__ == "FieldExtension":
            raise Violation("off-surface", f"{text} is not in the field after {why}")
        if spec[0] == "mpc":
            ok = min(abs(x - v), abs(x + v)) <= tol
        elif spec[0] == "padic":
            ok = isinstance(x, C.PAdic) and x.n == v
        else:
            ok = x == 0
        if not ok:
            raise Violation("off-surface", f"{text} is {str(x)[:60]} where {v} was requested; n={case['n']}, {spec}, after {why}")


def reset_limits():
    syngular.TIMEOUT = 60
