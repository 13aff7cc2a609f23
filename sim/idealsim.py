"""Ideals: questions about Lorentz-covariant and invariant ideals whose true answer is known by construction or by an exact rational witness point."""
import random
from fractions import Fraction

from . import common as C
from . import ref
from .core import Violation

from lips.algebraic_geometry.covariant_ideal import LipsIdeal                                      # noqa: E402
from lips.algebraic_geometry.invariant_ideal import SpinorIdeal                                    # noqa: E402

A, S = (lambda i, j: ["A", i, j]), (lambda i, j: ["S", i, j])
NB = lambda i, ks, j: ["NB", "<", i, [[[1, k] for k in ks]], j, "]"]                               # noqa: E731
# (n, generators, branches); a branch lists legs with parallel angle spinors, parallel square spinors, vanishing angle spinors and
# the two legs whose square spinors (t) or angle spinors (l) restore momentum conservation
BASE = [
    (4, [], [([], [], [], "t34"), ([], [], [], "l12")]),
    (4, [A(1, 2)], [([1, 2], [], [], "t34")]),
    (5, [], [([], [], [], "t45")]),
    (5, [A(1, 2)], [([1, 2], [], [], "t45")]),
    (5, [A(1, 2), A(1, 3)], [([1, 2, 3], [], [], "t45"), ([], [], [1], "t45")]),
    (5, [A(1, 2), A(1, 3), A(2, 3), S(4, 5)], [([1, 2, 3], [], [], "t45")]),
    (5, [["Au", 1]], [([], [], [1], "t45")]),
    (5, [A(1, 2), S(1, 2)], [([1, 2], [1, 2], [], "t45")]),
    (5, [["s", [1, 2]]], [([1, 2], [], [], "t45"), ([], [1, 2], [], "l45")]),
    (5, [NB(1, (2, 3), 4)], [([1, 5], [], [], "t34"), ([], [4, 5], [], "l23")]),
    (6, [A(1, 2), A(1, 3), A(2, 3)], [([1, 2, 3], [], [], "t56")]),
    (6, [A(1, 2)], [([1, 2], [], [], "t56")]),
]
LETTERS = "abcd"


def relabel(e, perm, conj=False):
    """perm: list, perm[i-1] is the new label of leg i; conj exchanges the two kinds of brackets."""
    p = lambda i: perm[i - 1]                                       # noqa: E731
    op = e[0]
    if op in "AS" and len(op) == 1:
        return [{"A": "S", "S": "A"}[op] if conj else op, p(e[1]), p(e[2])]
    if op in ("Au", "Ad", "Su", "Sd"):
        return [{"Au": "Sd", "Sd": "Au", "Ad": "Su", "Su": "Ad"}[op] if conj else op, p(e[1])]
    if op == "s":
        return ["s", sorted(p(i) for i in e[1])]
    if op == "NB":
        flip = (lambda c: {"<": "[", "[": "<", "]": ">", ">": "]"}[c]) if conj else (lambda c: c)
        return ["NB", flip(e[1]), p(e[2]), [[[s, p(i)] for s, i in m] for m in e[3]], p(e[4]), flip(e[5])]
    raise KeyError(op)


def frac(rng):
    return Fraction(rng.choice([i for i in range(-9, 10) if i]))


def witness(n, branch, rng):
    """An exact rational point: components (a, b, c, d) per leg."""
    par, tpar, zero, fix = branch
    for _ in range(50):
        lam = {i: [frac(rng), frac(rng)] for i in range(1, n + 1)}
        til = {i: [frac(rng), frac(rng)] for i in range(1, n + 1)}
        for v, group in ((lam, par), (til, tpar)):
            for i in group[1:]:
                c = frac(rng)
                v[i] = [c * x for x in v[group[0]]]
        for i in zero:
            lam[i] = [Fraction(0), Fraction(0)]
        x, y = int(fix[1]), int(fix[2])
        u, w = (lam, til) if fix[0] == "t" else (til, lam)          # solve for w of legs x and y
        det = u[x][0] * u[y][1] - u[x][1] * u[y][0]
        if det == 0:
            continue
        rest = [i for i in range(1, n + 1) if i not in (x, y)]
        wx, wy = [], []
        for k in range(2):
            s0, s1 = sum(u[i][0] * w[i][k] for i in rest), sum(u[i][1] * w[i][k] for i in rest)
            wx.append((-s0 * u[y][1] + s1 * u[y][0]) / det)
            wy.append((-s1 * u[x][0] + s0 * u[x][1]) / det)
        w[x], w[y] = wx, wy
        return [tuple(lam[i]) + tuple(til[i]) for i in range(1, n + 1)]
    raise AssertionError("no witness")


def moved(comps, perm, conj):
    out = [None] * len(comps)
    for i, c in enumerate(comps):
        out[perm[i] - 1] = (c[2], c[3], c[0], c[1]) if conj else c
    return out


class Spec:
    """An ideal of the catalogue, relabelled and possibly conjugated, with its witnesses."""

    def __init__(self, spec):
        self.spec = spec
        if spec[0] == "vars":                                       # generated by components, no momentum conservation
            _, self.n, names = spec
            self.gens, self.names = [], list(names)
            rng = random.Random(f"{spec}")
            self.points = []
            for _ in range(3):
                comps = [[frac(rng) for _ in range(4)] for _ in range(self.n)]
                for v in names:
                    comps[int(v[1:]) - 1][LETTERS.index(v[0])] = Fraction(0)
                self.points.append(ref.Point([ref.Leg(tuple(c)) for c in comps]))
            self.exact = True                                       # vanishing on the witnesses is membership
        else:
            _, base, perm, conj = spec
            self.n, gens, branches = BASE[base]
            self.gens = [relabel(e, perm, conj) for e in gens]
            self.points = []
            rng = random.Random(f"{base}")
            for b in branches:
                for _ in range(2):
                    self.points.append(ref.Point([ref.Leg(c) for c in moved(witness(self.n, b, rng), perm, conj)]))
            for P in self.points:
                assert all(x == 0 for row in P.total() for x in row), "witness"
                for e in self.gens:
                    assert vanishes(P, e), "witness"
            self.exact = False

    def build(self):
        if self.spec[0] == "vars":
            return LipsIdeal(self.n, self.names) if self.names else LipsIdeal(self.n, (), momentum_conservation=False)
        return LipsIdeal(self.n, tuple(ref.render(e, 32) for e in self.gens))

    def image(self, perm, conj):
        """Spec of the image under leg i -> perm[i-1]."""
        if self.spec[0] == "vars":
            sw = str.maketrans("abcd", "cdab") if conj else {}
            return Spec(["vars", self.n, [v[0].translate(sw) + str(perm[int(v[1:]) - 1]) for v in self.names]])
        _, base, p, c = self.spec
        return Spec(["base", base, [perm[i - 1] for i in p], c != conj])

    def truth(self, e):
        """True, False or None (not decided by the witnesses)."""
        if not all(vanishes(P, e) for P in self.points):
            return False
        return True if self.exact else None


def vanishes(P, e):
    v = P.value(e)
    return all(x == 0 for row in v for x in row) if isinstance(v, list) else v == 0


# ------------------------------------------------------------------------------------------------------- expressions

def bracket(rng, n):
    i, j = rng.sample(range(1, n + 1), 2)
    return [rng.choice("AS"), i, j]


def cofactor(rng, n):
    r = rng.random()
    if r < 0.3:
        return ["num", rng.choice((1, 2, 3, 5))]
    if r < 0.7:
        return bracket(rng, n)
    return ["*", bracket(rng, n), bracket(rng, n)]


def conservation(rng, n):
    """A member of every ideal with momentum conservation."""
    legs = list(range(1, n + 1))
    if rng.random() < 0.5:
        i, j = rng.sample(legs, 2)
        k = rng.randint(1, n - 1)
        rng.shuffle(legs)
        return ["+", NB(i, sorted(legs[:k]), j), NB(i, sorted(legs[k:]), j)]
    rng.shuffle(legs)
    k = rng.randint(2, n - 2) if n > 4 else 2
    return ["-", ["s", sorted(legs[:k])], ["s", sorted(legs[k:])]]


def schouten(rng, n):
    i, j, k, m = rng.sample(range(1, n + 1), 4)
    X = rng.choice((A, S))
    return ["+", ["+", ["*", X(i, j), X(k, m)], ["*", X(i, k), X(m, j)]], ["*", X(i, m), X(j, k)]]


def brackets_only(e):
    return e[0] in "AS" and len(e[0]) == 1 or e[0] == "num" or (e[0] in "+-*" and brackets_only(e[1]) and brackets_only(e[2]))


def expand_nb(e):
    """The same polynomial in two-brackets only (so that it can be written in the invariant ring)."""
    if e[0] == "s":
        terms = [["*", A(i, j), S(j, i)] for k, i in enumerate(e[1]) for j in e[1][k + 1:]]
    elif e[0] == "NB":
        assert e[1] == "<" and e[5] == "]" and len(e[3]) == 1
        terms = [["*", A(e[2], i), S(i, e[4])] for _, i in e[3][0] if i not in (e[2], e[4])]
    elif e[0] in "+-*" and len(e[0]) == 1:
        return [e[0], expand_nb(e[1]), expand_nb(e[2])]
    else:
        return e
    out = terms[0] if terms else ["num", 0]
    for t in terms[1:]:
        out = ["+", out, t]
    return out


def member(rng, spec):
    """An expression that belongs to the ideal by construction."""
    n = spec.n
    parts = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        r = rng.random()
        scalar = [e for e in spec.gens if e[0] not in ("Au", "Ad", "Su", "Sd")]
        if scalar and r < 0.6:
            parts.append(["*", cofactor(rng, n), rng.choice(scalar)])
        elif spec.gens and not scalar and r < 0.6:
            g = spec.gens[0]
            k = rng.choice([i for i in range(1, n + 1) if i != g[1]])
            parts.append(["*", cofactor(rng, n), ["A" if g[0] in ("Au", "Ad") else "S", g[1], k]])
        elif r < 0.85 or n < 4:
            parts.append(["*", cofactor(rng, n), conservation(rng, n)])
        else:
            parts.append(["*", cofactor(rng, n), schouten(rng, n)])
    out = parts[0]
    for p in parts[1:]:
        out = [rng.choice("+-"), out, p]
    return out


def candidate(rng, spec):
    """(expression, truth): half of them members; truth of the others by witness."""
    n = spec.n
    if spec.exact:
        for _ in range(20):
            r = rng.random()
            i = rng.randint(1, n)
            if r < 0.35:
                e = [rng.choice(("Au", "Sd", "Ad", "Su")), i]
            elif r < 0.6:
                e = ["*", bracket(rng, n), cofactor(rng, n)]
            elif r < 0.75:
                e = schouten(rng, n)
            else:
                e = ["+", ["*", bracket(rng, n), cofactor(rng, n)], ["*", bracket(rng, n), cofactor(rng, n)]]
            return e, spec.truth(e)
    r = rng.random()
    if r < 0.12:
        e = [rng.choice(("Au", "Sd", "Ad", "Su")), rng.randint(1, n)] if not any(g[0] in ("Au", "Sd") for g in spec.gens) or rng.random() < 0.4 else list(spec.gens[0])
        t = spec.truth(e)
        if t is None and [g for g in spec.gens if g[0][0] == e[0][0] and g[1] == e[1] and g[0] in ("Au", "Sd")]:
            t = True
        return (e, t) if t is not None else (member(rng, spec), True)
    if r < 0.5:
        return member(rng, spec), True
    for _ in range(20):
        q = rng.random()
        if q < 0.4:
            e = ["+", member(rng, spec), cofactor(rng, n)]
        elif q < 0.7:
            e = ["*", bracket(rng, n), cofactor(rng, n)]
        elif q < 0.85:
            e = ["-", ["*", bracket(rng, n), bracket(rng, n)], ["*", bracket(rng, n), bracket(rng, n)]]
        else:
            e = bracket(rng, n)
        if spec.truth(e) is False:
            return e, False
    return member(rng, spec), True


def invariant_text(e, n):
    """The expression in the variables A1, A2, ... B1, B2, ... of the invariant ring."""
    if e[0] == "num":
        return str(e[1])
    if e[0] in "+-*" and len(e[0]) == 1:
        return f"({invariant_text(e[1], n)}{e[0]}{invariant_text(e[2], n)})"
    _, i, j = e
    sign = "" if i < j else "-"
    i, j = min(i, j), max(i, j)
    k = 1 + sum(n - m for m in range(1, i)) + j - i - 1
    return f"({sign}{'A' if e[0] == 'A' else 'B'}{k})"
