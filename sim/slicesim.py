"""Slices: cases, the polynomial oracle and the request (shared by the S03 check and its explorations)."""
import copy
import random

import sympy

from . import common as C
from . import ref
from .core import Violation
from .varsim import A, S, quiet, relabel

NB = lambda i, ks, j: ["NB", "<", i, [[[1, k] for k in ks]], j, "]"]                             # noqa
FF_SPECS = {"ff": C.FF, "ffs": ["finite field", 2147483629, 1], "ff101": ["finite field", 101, 1], "ff10007": ["finite field", 10007, 1]}
COVARIANT = [
    (4, []), (5, []), (6, []), (7, []),
    (4, [A(1, 2)]), (5, [A(1, 2)]), (5, [S(2, 4)]), (5, [A(1, 2), A(1, 3), A(2, 3)]), (5, [S(1, 2), A(1, 2)]), (6, [A(1, 2), S(4, 5)]),
    (4, [["s", [1, 2]]]), (5, [["s", [1, 2]]]), (6, [["s", [1, 2, 3]]]), (5, [NB(1, (2, 3), 4)]), (6, [NB(1, (2, 3), 4)]),
    (5, [["-", A(1, 2), A(3, 4)]]), (6, [["+", A(3, 4), S(3, 4)], ["-", A(3, 4), A(5, 6)], ["+", A(5, 6), S(5, 6)]]), (6, [["+", A(1, 2), S(3, 4)]]),
]
REDUCIBLE = [(6, [A(1, 2), A(2, 3), S(4, 5)]), (5, [A(1, 2), A(2, 3)]), (6, [A(1, 2), A(2, 3)]), (6, [S(1, 2), S(2, 3), A(4, 5)])]      # the branch where a spinor vanishes has no such slice
GENERIC = [(4, []), (5, []), (5, [A(1, 2)]), (4, [A(1, 2)]), (5, [["s", [1, 2]]]), (5, [NB(1, (2, 3), 4)])]
BIVARIATE = [(4, []), (5, []), (6, []), (5, [A(1, 2)]), (6, [A(1, 2), S(4, 5)]), (5, [S(1, 2), A(1, 2)]), (6, [["+", A(3, 4), S(3, 4)]])]


def relabel_deep(e, perm):
    return [e[0], relabel_deep(e[1], perm), relabel_deep(e[2], perm)] if e[0] in "+-" else relabel(e, perm)


def gen_case(rng):
    kind = rng.choice(("uni", "uni", "uni", "bi", "generic"))
    n, cons = rng.choice({"uni": COVARIANT, "bi": BIVARIATE, "generic": GENERIC}[kind])
    reducible = kind != "generic" and rng.random() < 0.06
    if reducible:
        n, cons = rng.choice(REDUCIBLE)
    shift = rng.choice((0, 0, 1)) if kind != "generic" else 0
    perm = {i: (i - 1 + shift) % n + 1 for i in range(1, n + 1)}
    field = rng.choice(("ff", "ff", "ffs", "ff101", "ff101", "ff10007") if kind != "generic" else ("ff", "ffs"))
    return {"kind": kind, "n": n, "cons": [relabel_deep(e, perm) for e in cons], "field": field, "seed": rng.choice((1, 2)), "reducible": reducible,
            "slice_seed": rng.choice((3, 4, 5, None) if kind != "generic" else (3, 4))}


def build(case):
    return C.seeded(case["n"], case["seed"], field=C.field_of(FF_SPECS[case["field"]]))


def request(ps, case):
    cons = tuple(ref.render(e, 32) for e in case["cons"])
    with quiet():
        if case["kind"] == "bi":
            ps.bivariate_slice(extra_constraints=cons, seed=case["slice_seed"])
        else:
            ps.univariate_slice(extra_constraints=cons, seed=case["slice_seed"], algorithm="generic" if case["kind"] == "generic" else "covariant")


class Curve:
    """The components of a sliced point as polynomials in the parameters, evaluated with modular integers."""

    def __init__(self, ps, case):
        self.p = FF_SPECS[case["field"]][1]
        self.names = ("t1", "t2") if case["kind"] == "bi" else ("t",)
        self.syms = sympy.symbols(self.names)
        self.legs = [[self.terms(x) for x in (q.r_sp_d[0, 0], q.r_sp_d[1, 0], q.l_sp_d[0, 0], q.l_sp_d[0, 1])] for q in list.__iter__(ps)]
        self.up = [[self.terms(x) for x in q.r2_sp.flatten()] for q in list.__iter__(ps)]

    def terms(self, x):
        if isinstance(x, (C.ModP, int)):
            return [((0,) * len(self.names), int(x) % self.p)]
        x = sympy.sympify(x)
        extra = {str(s) for s in x.free_symbols} - set(self.names)
        if extra:
            raise Violation("unsolved", f"components depend on {sorted(extra)[:4]}")
        return [(m, int(c) % self.p) for m, c in sympy.Poly(x, *self.syms, modulus=self.p).terms()]

    def ev(self, terms, at):
        v = 0
        for m, c in terms:
            for k, t in zip(m, at):
                c = c * pow(t, k, self.p) % self.p
            v += c
        return C.ModP(v % self.p, self.p)

    def at(self, at):
        return ref.Point([ref.Leg(tuple(self.ev(x, at) for x in leg)) for leg in self.legs])

    def degree(self):
        return max(sum(m) for leg in self.legs for x in leg for m, c in x)


def verify(ps, case, rng, why):
    curve = Curve(ps, case)
    n, p = case["n"], curve.p
    if len(curve.legs) != n:
        raise Violation("wrong-multiplicity", why)
    two = case["kind"] == "bi"
    pts = [tuple(rng.sample(range(p), 2)) if two else (t,) for t in rng.sample(range(p), 14)]
    pts[:2] = [(0, 0), (1, 0)] if two else [(0,), (1,)]
    for at in pts:
        P = curve.at(at)
        tot = P.total()
        if any(x != 0 for row in tot for x in row):
            raise Violation("momentum", f"not conserved at {at}: {why}")
        for e in case["cons"]:
            v = P.value(e)
            if v != 0:
                raise Violation("constraint", f"{ref.render(e, 32)} is {v} at {at}: {why}")
        for k in range(n):
            got = [curve.ev(x, at) for x in curve.up[k]]
            want = [x for row in P.legs[k].up for x in row]
            if got != want:
                raise Violation("stale", f"the rank-two spinor of leg {k + 1} disagrees with its spinors at {at}: {why}")
    for name in range(len(curve.names)):
        if not any(m[name] and c for leg in curve.legs for x in leg for m, c in x):
            raise Violation("constant", f"does not depend on {curve.names[name]}: {why}")
    symbols = [str(x) for q in list.__iter__(ps) for x in q.r_sp_d.flatten()]
    for at in pts[1:3]:
        one = copy.deepcopy(ps)
        values = dict(zip(curve.syms, at))
        if two and at[1] % 2:                                       # one parameter after the other
            one.subs({curve.syms[1]: at[1]})
            values = {curve.syms[0]: at[0]}
        one.subs(values)
        one.subs(values)                                            # nothing is left to substitute
        P = curve.at(at)
        for k, q in enumerate(list.__iter__(one)):
            have = [q.r_sp_d[0, 0], q.r_sp_d[1, 0], q.l_sp_d[0, 0], q.l_sp_d[0, 1], *q.r2_sp.flatten()]
            want = [*(curve.ev(x, at) for x in curve.legs[k]), *(x for row in P.legs[k].up for x in row)]
            if not all(isinstance(x, C.ModP) for x in have) or have != want:
                raise Violation("substituted", f"leg {k + 1} has components {have[:4]} instead of {want[:4]} after substituting {at}: {why}")
        e = ["s", [1, 2]] if not case["cons"] else case["cons"][0]
        if one(ref.render(e, 32)) != P.value(e):
            raise Violation("substituted", f"{ref.render(e, 32)} is {one(ref.render(e, 32))} after substituting {at}: {why}")
    if symbols != [str(x) for q in list.__iter__(ps) for x in q.r_sp_d.flatten()]:
        raise Violation("leak", f"substituting in a copy changed the slice: {why}")
    if case["kind"] == "uni":                                       # every bracket at most linear: second differences vanish
        four = [curve.at((t,)) for t in range(4)]
        for f in ("angle", "square"):
            for i in range(1, n + 1):
                for j in range(i + 1, n + 1):
                    a, b, c, d = (getattr(P, f)(i, j) for P in four)
                    if a - 2 * b + c != 0 or b - 2 * c + d != 0:
                        raise Violation("nonlinear", f"{f} bracket ({i},{j}): {why}")
    return C.h(str(curve.legs))
