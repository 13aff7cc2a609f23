"""Reference model: kinematics and expressions recomputed from components with formulas of their own.

A leg is (a, b, c, d) with lambda_alpha = (a, b), lambda-bar_alphadot = (c, d), or a bare rank-two spinor for massive legs.
"""
import re
import mpmath
from fractions import Fraction
from pyadic import ModP, PAdic

TOL = mpmath.mpf(10) ** -250


class Undefined(Exception):
    """The reference value does not exist (division by zero) or is not comparable."""


def mat_mul(x, y):
    return [[x[i][0] * y[0][j] + x[i][1] * y[1][j] for j in range(len(y[0]))] for i in range(len(x))]


def mat_add(x, y, sign=1):
    return [[x[i][j] + y[i][j] if sign > 0 else x[i][j] - y[i][j] for j in range(2)] for i in range(2)]


def det2(m):
    return m[0][0] * m[1][1] - m[0][1] * m[1][0]


class Leg:
    def __init__(self, comps=None, r2=None):
        if comps is not None:
            a, b, c, d = comps
            self.comps = comps
            self.bar = [[a * c, a * d], [b * c, b * d]]              # P_{alpha alphadot}
        else:
            self.comps = None
            (p, q), (r, s) = r2                                     # P^{alphadot alpha}
            self.bar = [[s, -q], [-r, p]]
        (w, x), (y, z) = self.bar
        self.up = [[z, -x], [-y, w]]

    def four(self, i):
        """P^mu; `i` is the imaginary unit of the field."""
        (w, x), (y, z) = self.bar
        return [(w + z) / 2, (x + y) / 2, (x - y) * i / 2, (w - z) / 2]


def leg_of(p):
    """Reads the components of a library particle (spinors if it has them and is massless, else the rank-two spinor)."""
    if p.r_sp_d is not None and p.l_sp_d is not None and p.r_sp_d.shape == (2, 1) and p.l_sp_d.shape == (1, 2):
        return Leg((p.r_sp_d[0, 0], p.r_sp_d[1, 0], p.l_sp_d[0, 0], p.l_sp_d[0, 1]))
    m = p.r2_sp
    return Leg(r2=((m[0, 0], m[0, 1]), (m[1, 0], m[1, 1])))


def legs_of(ps):
    return [leg_of(p) for p in list.__iter__(ps)]


# ------------------------------------------------------------------------------------------------------- comparisons

def is_zero(x, scale=1):
    if isinstance(x, PAdic):
        return x.num == 0 or x.k <= 0
    if isinstance(x, (mpmath.mpc, mpmath.mpf, float, complex)):
        return abs(x) <= TOL * max(1, abs(scale))
    return x == 0


def same(x, y):
    """Equality up to the working precision of the field; exact over finite fields and rationals."""
    if x is None or y is None:
        return x is None and y is None
    if isinstance(x, (mpmath.mpc, mpmath.mpf, float, complex)) or isinstance(y, (mpmath.mpc, mpmath.mpf, float, complex)):
        s = max(abs(x), abs(y))
        return abs(x - y) <= TOL * max(1, s)
    if isinstance(x, PAdic) or isinstance(y, PAdic):
        return is_zero(x - y)
    return x == y


def same_matrix(got, want):
    """got: numpy array or scalar; want: nested list or scalar."""
    if isinstance(want, list):
        if not hasattr(got, "shape") or got.shape != (len(want), len(want[0])):
            return False
        return all(same(got[i, j], want[i][j]) for i in range(len(want)) for j in range(len(want[0])))
    if hasattr(got, "shape"):
        return False
    return same(got, want)


# -------------------------------------------------------------------------------------------------------- invariants

class Point:
    """Reference view of a phase-space point: legs and masses."""

    def __init__(self, legs, masses=None):
        self.legs, self.masses = legs, masses or {}
        self.n = len(legs)

    @classmethod
    def of(cls, ps):
        return cls(legs_of(ps), {m: getattr(ps, m) for m in sorted(ps.internal_masses)})

    def leg(self, i):
        return self.legs[i - 1]

    def spin(self, i):
        c = self.leg(i).comps
        if c is None:
            raise Undefined("no spinors")
        return c

    def angle(self, i, j):
        (a, b, _, _), (e, f, _, _) = self.spin(i), self.spin(j)
        return b * e - a * f

    def square(self, i, j):
        (_, _, c, d), (_, _, g, h_) = self.spin(i), self.spin(j)
        return c * h_ - d * g

    def total(self, ijk=None, bar=False, signs=None):
        ijk = list(range(1, self.n + 1)) if ijk is None else ijk
        out = None
        for k, i in enumerate(ijk):
            m = self.leg(i).bar if bar else self.leg(i).up
            s = 1 if signs is None else signs[k]
            if out is None:
                out = m if s > 0 else [[-e for e in row] for row in m]
            else:
                out = mat_add(out, m, s)
        return out

    def mandelstam(self, ijk):
        return det2(self.total(ijk))

    def dot(self, ijk, lmn):
        m = mat_mul(self.total(ijk), self.total(lmn, bar=True))
        return (m[0][0] + m[1][1]) / 2

    def chain(self, mids, bar_first):
        out = None
        for k, item in enumerate(mids):
            m = self.total([i for _, i in item], bar=(k % 2 == 0) == bar_first, signs=[s for s, _ in item])
            out = m if out is None else mat_mul(out, m)
        return out

    def partition(self, ijk):
        """Cyclic corners starting at the given legs, grown in turn until they meet."""
        n, starts = self.n, list(ijk)
        corners = [[s] for s in starts]
        for k in range(3):
            while True:
                nxt = corners[k][-1] % n + 1
                if nxt in corners[(k + 1) % 3] or nxt in corners[(k + 2) % 3]:
                    break
                corners[k].append(nxt)
        return corners

    def gram(self, corners):
        k = len(corners) - 1
        g = [[self.dot(corners[i], corners[j]) for j in range(k)] for i in range(k)]
        if k == 1:
            d = g[0][0]
        elif k == 2:
            d = det2(g)
        elif k == 3:
            d = (g[0][0] * (g[1][1] * g[2][2] - g[1][2] * g[2][1]) - g[0][1] * (g[1][0] * g[2][2] - g[1][2] * g[2][0]) +
                 g[0][2] * (g[1][0] * g[2][1] - g[1][1] * g[2][0]))
        else:
            raise Undefined("gram size")
        return d if len(corners) % 2 == 0 else -d

    def four_units_sum(self):
        return self.total()

    # ---------------------------------------------------------------------------------------------------- expressions

    def value(self, e):
        op = e[0]
        if op == "num":
            return e[1]
        if op == "frac":
            return Fraction(e[1], e[2])
        if op == "A":
            return self.angle(e[1], e[2])
        if op == "S":
            return self.square(e[1], e[2])
        if op == "s":
            return self.mandelstam(e[1])
        if op == "mi":
            return self.mandelstam([e[1]])
        if op == "m":
            v = self.masses[e[1]]
            return self.value(parse_simple(v)) if isinstance(v, str) else v
        if op == "NB":
            _, left, i, mids, j, right = e
            m = self.chain(mids, bar_first=(left == "<"))
            a, b, c, d = self.spin(i)
            row = [[b, -a]] if left == "<" else [[c, d]]
            a, b, c, d = self.spin(j)
            col = [[a], [b]] if right == ">" else [[d], [-c]]
            return mat_mul(mat_mul(row, m), col)[0][0]
        if op == "SI":                                              # spin index raised or lowered: the second spinor of a massive pair
            _, left, i, p, mids, j, q, right = e
            sign = (-1 if p and left == "[" else 1) * (-1 if q and right == "]" else 1)
            i, j = i + p, j + q
            return sign * (self.value(["NB", left, i, mids, j, right]) if mids else self.angle(i, j) if left == "<" else self.square(i, j))
        if op == "tr":
            m = self.chain(e[1], bar_first=True)
            return m[0][0] + m[1][1]
        if op == "tr5":
            # trace of gamma5 times four slashed momenta, anti-cyclic difference of the two chiral traces
            if any(len(item) == 1 and self.legs[item[0] - 1].comps is None for item in e[1]):
                raise Undefined("tr5 is defined by the spinors of a massless entry")
            mids = [[[1, i] for i in item] for item in e[1]]
            x, y = self.chain(mids, bar_first=False), self.chain(mids, bar_first=True)
            return (y[0][0] + y[1][1]) - (x[0][0] + x[1][1])
        if op == "D3":
            A, B, C = self.partition(e[1])
            return self.dot(A, B) ** 2 - self.mandelstam(A) * self.mandelstam(B)
        if op == "DC":
            return self.gram(e[1])
        if op == "O":
            A, B, C = self.partition(e[1])
            s = self.mandelstam
            return 2 * s(C) * s(B) - (s(C) + s(B) - s(A)) * s(C + [A[0]])
        if op == "P":
            A, B, C = self.partition(e[1])
            return self.mandelstam(C + [A[0]]) - self.mandelstam(C + [A[1]])
        if op == "d5":
            s = self.mandelstam
            a, b, c, d, f = s([1, 2]), s([2, 3]), s([3, 4]), s([4, 5]), s([5, 1])
            # Gram determinant of five massless momenta in cyclic Mandelstams
            return (2 * a * b * c * d + 2 * a * b * c * f + 2 * a * b * d * f - 2 * a * b * b * c + 2 * a * c * d * f - 2 * a * d * f * f -
                    2 * a * a * b * f + a * a * b * b + a * a * f * f + 2 * b * c * d * f - 2 * b * c * c * d + b * b * c * c - 2 * c * d * d * f +
                    c * c * d * d + d * d * f * f)
        # open indices
        if op == "Au":
            a, b, _, _ = self.spin(e[1])
            return [[b, -a]]
        if op == "Ad":
            a, b, _, _ = self.spin(e[1])
            return [[a], [b]]
        if op == "Sd":
            _, _, c, d = self.spin(e[1])
            return [[c, d]]
        if op == "Su":
            _, _, c, d = self.spin(e[1])
            return [[d], [-c]]
        if op == "OB":                                              # |mids|j> or |mids|j]
            _, mids, j, right = e
            a, b, c, d = self.spin(j)
            bar_last = right == "]"
            m = self.chain(mids, bar_first=bar_last if len(mids) % 2 else not bar_last)
            return mat_mul(m, [[a], [b]] if right == ">" else [[d], [-c]])
        if op == "OE":                                              # <i|mids| or [i|mids|
            _, left, i, mids = e
            a, b, c, d = self.spin(i)
            return mat_mul([[b, -a]] if left == "<" else [[c, d]], self.chain(mids, bar_first=(left == "<")))
        if op == "OO":
            return self.chain(e[1], bar_first=True)
        if op == "outer":                                           # sums of c * |i>[j| * scalar
            out = None
            for c, left, i, right, j, scalar in e[1]:
                x, y, f = self.value([left, i]), self.value([right, j]), c * self.value(scalar)
                m = [[f * x[0][0] * y[0][0], f * x[0][0] * y[0][1]], [f * x[1][0] * y[0][0], f * x[1][0] * y[0][1]]]
                out = m if out is None else mat_add(out, m, 1)
            return out
        if op == "MX":                                              # <i|@(|mids|+|mids|)@|j> or |j]
            _, i, chains, j = e
            out = None
            for c, mids in chains:
                m = self.chain(mids, bar_first=True)
                out = m if out is None else mat_add(out, m, c)
            a, b, c, d = self.spin(j)
            end = [[a], [b]] if len(chains[0][1]) % 2 == 0 else [[d], [-c]]
            return mat_mul(mat_mul(self.value(["Au", i]), out), end)[0][0]
        if op == "sqrt":
            return mpmath.sqrt(self.value(e[1]))
        if op == "neg":
            return -self.value(e[1])
        x = self.value(e[1])
        if op == "^":
            if e[2] < 0:
                return self.div(1, x ** -e[2])
            return x ** e[2]
        y = self.value(e[2])
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            return self.div(x, y)
        raise KeyError(op)

    @staticmethod
    def div(x, y):
        if is_zero(y):
            raise Undefined("division by zero")
        if isinstance(x, int) and isinstance(y, int):
            return Fraction(x, y)
        return x / y


def parse_simple(text):
    """Masses given as strings are single Mandelstams in the plans."""
    return ["s", [int(c) for c in text.replace("s_", "").replace("s", "")]]


# --------------------------------------------------------------------------------------------------------- rendering

SUP = str.maketrans("0123456789-", "⁰¹²³⁴⁵⁶⁷⁸⁹⁻")


def render_mid(item, paren, style):
    s = ""
    for k, (sign, i) in enumerate(item):
        s += ("+" if sign > 0 else "-") if k or sign < 0 else ""
        s += str(i)
    return f"({s})" if len(item) > 1 and paren else s


def render(e, style=0):
    """style bits: 1 ascii angle brackets, 2 no separator in two-brackets, 4 ** for powers, 8 spaces, 16 'S_'/'s' spelling,
    32 parentheses in middle entries, 64 unicode powers, 128 implicit multiplication, 256 LaTeX fraction (top level)."""
    op = e[0]
    lt, gt = ("<", ">") if style & 1 else ("⟨", "⟩")
    paren = bool(style & 32)
    sp = " " if style & 8 else ""
    if op == "num":
        return str(e[1])
    if op == "frac":
        return f"{e[1]}/{e[2]}"
    if op in "AS":
        bar = "" if style & 2 and max(e[1], e[2]) < 10 else "|"
        return f"{lt}{e[1]}{bar}{e[2]}{gt}" if op == "A" else f"[{e[1]}{bar}{e[2]}]"
    if op == "s":
        return ("s" if style & 16 else "s_") + "".join(map(str, e[1]))
    if op == "mi":
        return f"m_{e[1]}"
    if op == "m":
        return e[1]
    if op == "NB":
        _, left, i, mids, j, right = e
        return (lt if left == "<" else "[") + f"{i}|" + "|".join(render_mid(m, paren, style) for m in mids) + f"|{j}" + (gt if right == ">" else "]")
    if op == "SI":
        _, left, i, p, mids, j, q, right = e
        down, up = ("d", "u") if style & 64 else ("_", "^")
        return (lt if left == "<" else "[") + str(i) + (down if left == "<" else up) * p + "|" + "".join(render_mid(m, paren, style) + "|" for m in mids) + \
            str(j) + (down if right == ">" else up) * q + (gt if right == ">" else "]")
    if op == "tr":
        return "tr(" + "|".join(render_mid(m, False, style) for m in e[1]) + ")"
    if op == "tr5":
        if all(len(i) == 1 for i in e[1]) and not style & 32:
            return "tr5_" + "".join(str(i[0]) for i in e[1])
        return "tr5(" + "|".join("+".join(map(str, i)) for i in e[1]) + ")"
    if op == "D3":
        return "Δ_" + "".join(map(str, e[1]))
    if op == "DC":
        return "Δ_" + "|".join("".join(map(str, c)) for c in e[1])
    if op == "O":
        return "Ω_" + "".join(map(str, e[1]))
    if op == "P":
        return "Π_" + "".join(map(str, e[1]))
    if op == "d5":
        return "δ5"
    if op == "Au":
        return f"{lt}{e[1]}|"
    if op == "Ad":
        return f"|{e[1]}{gt}"
    if op == "Sd":
        return f"[{e[1]}|"
    if op == "Su":
        return f"|{e[1]}]"
    if op == "OB":
        return "|" + "|".join(render_mid(m, False, style) for m in e[1]) + f"|{e[2]}" + ("⟩" if e[3] == ">" else "]")
    if op == "OE":
        return ("⟨" if e[1] == "<" else "[") + f"{e[2]}|" + "|".join(render_mid(m, False, style) for m in e[3]) + "|"
    if op == "OO":
        return "|" + "|".join(render_mid(m, False, style) for m in e[1]) + "|"
    if op == "outer":
        out = ""
        for k, (c, left, i, right, j, scalar) in enumerate(e[1]):
            out += ("+" if k and c > 0 else "") + f"{c}*({render([left, i], style)}{render([right, j], style)})*{render(scalar, style)}"
        return out
    if op == "MX":
        _, i, chains, j = e
        mid = "".join(("" if not k else "+" if c > 0 else "-") + render(["OO", mids], style) for k, (c, mids) in enumerate(chains))
        return f"{lt}{i}|@({mid})@|{j}" + (gt if len(chains[0][1]) % 2 == 0 else "]")
    if op == "sqrt":
        return f"sqrt({render(e[1], style)})"
    if op == "neg":
        return "-" + wrap(e[1], style, 2)
    if op == "^":
        base = wrap(e[1], style, 3)
        if style & 64:
            return base + str(e[2]).translate(SUP)
        return f"{base}{'**' if style & 4 else '^'}{e[2] if e[2] >= 0 else '(%d)' % e[2]}"
    if op == "*":
        if style & 128 and e[1][0] in ("num", "A", "S", "NB") and e[2][0] in ("A", "S", "NB", "s"):
            return render(e[1], style) + render(e[2], style)
        return wrap(e[1], style, 1) + f"{sp}*{sp}" + wrap(e[2], style, 2)
    if op == "/" and style & 256:                                   # at the top of an expression only
        return "\\frac{" + render(e[1], style & ~256) + "}{" + render(e[2], style & ~256) + "}"
    if op == "/":
        return wrap(e[1], style, 1) + f"{sp}/{sp}" + wrap(e[2], style, 3)
    if op in "+-":
        return wrap(e[1], style, 0) + f"{sp}{op}{sp}" + wrap(e[2], style, 1)
    raise KeyError(op)


BOLD = str.maketrans("0123456789", "𝟎𝟏𝟐𝟑𝟒𝟓𝟔𝟕𝟖𝟗")


def spell(e, style=0):
    """The text of an expression; style bit 512: bold digits inside brackets, as used for massive legs."""
    text = render(e, style)
    return re.sub(r"[<⟨\[][^<>⟨⟩\[\]]*[>⟩\]]", lambda m: m.group(0).translate(BOLD), text) if style & 512 else text


LEVEL = {"+": 0, "-": 0, "neg": 0, "*": 1, "/": 1, "frac": 1, "^": 3}


def wrap(e, style, need):
    s = render(e, style)
    return s if LEVEL.get(e[0], 4) >= need else f"({s})"


# -------------------------------------------------------------------------------------------------------- generation

def gen_mids(rng, n, k, minus=True):
    out = []
    for _ in range(k):
        legs = rng.sample(range(1, n + 1), rng.choice((1, 1, 2, 2, 3)) if n > 3 else rng.choice((1, 2)))
        out.append([[-1 if minus and q and rng.random() < 0.25 else 1, i] for q, i in enumerate(legs)])
    return out


def gen_atom(rng, n, masses=(), alone=False):
    r = rng.random()
    legs = list(range(1, n + 1))
    if r < 0.26:
        i, j = rng.sample(legs, 2)
        return [rng.choice("AS"), i, j]
    if r < 0.40:
        k = rng.randint(2, min(n - 1, 4))
        return ["s", sorted(rng.sample([i for i in legs if i < 10], min(k, 9)))]
    if r < 0.64:
        k = rng.randint(1, 4)
        left = rng.choice("<[")
        right = (">" if left == "<" else "]") if k % 2 == 0 else ("]" if left == "<" else ">")
        return ["NB", left, rng.choice(legs), gen_mids(rng, n, k), rng.choice(legs), right]
    if r < 0.72:
        return ["tr", gen_mids(rng, n, rng.choice((2, 4)))]
    if r < 0.80:
        four = [[i] for i in rng.sample([i for i in legs if i < 10], 4)] if n >= 4 else [[1], [2], [3], [1]]
        if n >= 6 and rng.random() < 0.4:
            pool = rng.sample([i for i in legs if i < 10], 5)
            four = [[pool[0]], [pool[1], pool[2]], [pool[3]], [pool[4]]]
        return ["tr5", four]
    if r < 0.88 and n >= 6 and not alone:
        return ["DC", [[1, 2], [3, 4], list(range(5, min(n, 9) + 1))]]
    if r < 0.88 and n >= 6:
        return ["D3", rng.choice(([1, 3, 5], [2, 4, 6], [1, 3, 5]))] if n == 6 else ["DC", [[1, 2], [3, 4], list(range(5, min(n, 9) + 1))]]
    if r < 0.91 and n == 6:
        return [rng.choice("OP"), rng.choice(([1, 3, 5], [2, 4, 6], [3, 5, 1]))]
    if r < 0.93 and n == 5 and alone:
        return ["d5"]
    if masses and r < 0.97:
        return ["m", rng.choice(list(masses))]
    if r < 0.99:
        i, j = rng.sample(legs, 2)
        return [rng.choice("AS"), i, j]
    return ["s", sorted(rng.sample([i for i in legs if i < 10], 2))]


def gen_open(rng, n):
    legs = list(range(1, n + 1))
    op = rng.choice(("Au", "Ad", "Sd", "Su", "OB", "OE", "OO", "outer", "MX", "SI"))
    if op == "SI":
        i, j = rng.sample(legs[:-1], 2)
        k = rng.choice((0, 1, 1))
        left = rng.choice("<[")
        right = (">" if left == "<" else "]") if k == 0 else ("]" if left == "<" else ">")
        p, q = rng.choice(((0, 1), (1, 0), (1, 1)))
        return ["SI", left, i, p, gen_mids(rng, n, k, minus=False), j, q, right]
    if op == "outer":
        left, right = rng.choice((("Ad", "Au"), ("Ad", "Sd"), ("Su", "Au"), ("Su", "Sd")))
        return ["outer", [[rng.choice((1, 2, 3, -1, -4)), left, rng.choice(legs), right, rng.choice(legs), [rng.choice("AS"), *rng.sample(legs, 2)]] for _ in range(rng.choice((1, 2, 3)))]]
    if op == "MX":
        k = rng.choice((1, 2, 2, 3))
        return ["MX", rng.choice(legs), [[rng.choice((1, -1)) if q else 1, gen_mids(rng, n, k, minus=False)] for q in range(rng.choice((1, 2, 3)))], rng.choice(legs)]
    if op in ("Au", "Ad", "Sd", "Su"):
        return [op, rng.choice(legs)]
    mids = gen_mids(rng, n, rng.choice((1, 2)), minus=False)
    if op == "OB":
        return ["OB", mids, rng.choice(legs), rng.choice(">]")]
    if op == "OE":
        return ["OE", rng.choice("<["), rng.choice(legs), mids]
    return ["OO", mids]


def gen_expr(rng, n, depth=2, masses=(), top=True):
    if depth == 0 or rng.random() < 0.25:
        return gen_atom(rng, n, masses, alone=top)
    op = rng.choice(("+", "-", "*", "*", "/", "^", "neg"))
    if op == "neg":
        return ["neg", gen_expr(rng, n, depth - 1, masses, False)]
    if op == "^":
        return ["^", gen_atom(rng, n, masses), rng.choice((2, 3, 2, 4))]
    if op == "*" and rng.random() < 0.3:
        return ["*", ["num", rng.randint(2, 12)] if rng.random() < 0.6 else ["frac", rng.randint(1, 9), rng.randint(2, 9)], gen_expr(rng, n, depth - 1, masses, False)]
    return [op, gen_expr(rng, n, depth - 1, masses, False), gen_expr(rng, n, depth - 1, masses, False)]
