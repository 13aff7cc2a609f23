"""Things shared by the checks: library import under the seams, canonical values."""
import hashlib
import os
import sys
import warnings

from . import entropy
from .core import REPO

warnings.filterwarnings("ignore")
entropy.install("import")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import lips            # noqa
import lips.algebraic_geometry.covariant_ideal  # noqa
import mpmath          # noqa
import numpy           # noqa
import sympy           # noqa
from fractions import Fraction  # noqa
from pyadic import ModP, PAdic  # noqa
from pyadic.gaussian_rationals import GaussianRational  # noqa
from syngular import Field  # noqa

assert os.path.realpath(lips.__file__).startswith(os.path.realpath(REPO)), lips.__file__


def canon(x):
    """An exact, process-independent rendering of a number, array or container."""
    if x is None:
        return "None"
    if isinstance(x, numpy.ndarray):
        return f"{x.shape}[" + ",".join(canon(e) for e in x.flatten().tolist()) + "]"
    if isinstance(x, ModP):
        return f"M{int(x.n)}%{int(x.p)}"
    if isinstance(x, PAdic):
        return f"P{int(x.num)}:{int(x.p)}:{int(x.k)}:{int(x.n)}"
    if isinstance(x, GaussianRational):
        return f"G{canon(x.real)}_{canon(x.imag)}"
    if isinstance(x, Fraction):
        return f"F{x.numerator}/{x.denominator}"
    if isinstance(x, mpmath.mpc):
        return f"C{canon(x.real)};{canon(x.imag)}"
    if isinstance(x, mpmath.mpf):
        s, m, e, _ = x._mpf_
        return f"R{int(s)}.{int(m):x}.{int(e)}"
    if isinstance(x, bool):
        return str(x)
    if isinstance(x, (int, numpy.integer)):
        return f"I{int(x)}"
    if isinstance(x, (float, complex, numpy.floating, numpy.complexfloating)):
        return "D" + repr(complex(x))
    if isinstance(x, (list, tuple)):
        return "(" + ",".join(canon(e) for e in x) + ")"
    if isinstance(x, dict):
        return "{" + ",".join(f"{canon(k)}:{canon(v)}" for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))) + "}"
    if isinstance(x, (set, frozenset)):
        return "<" + ",".join(sorted(canon(e) for e in x)) + ">"
    if isinstance(x, str):
        return "S" + x
    if isinstance(x, sympy.Basic):
        return "Y" + str(x)
    return f"{type(x).__name__}:{x}"


def h(text):
    return hashlib.sha256(text.encode("utf-8", "backslashreplace")).hexdigest()[:12]


REPS = ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d")


def canon_particle(p, reps=REPS):
    return ";".join(f"{r}={canon(getattr(p, r, None))}" for r in reps)


def canon_particles(ps, reps=REPS):
    masses = {m: getattr(ps, m, None) for m in sorted(getattr(ps, "internal_masses", ()))}
    return "\n".join(canon_particle(p, reps) for p in list.__iter__(ps)) + "\n" + canon(masses)


def field_of(spec):
    return Field(*spec)


MPC = ["mpc", 0, 300]
BIGP = 2 ** 31 - 1
FF = ["finite field", BIGP, 1]
FFS = ["finite field", 10007, 1]
PADIC = ["padic", BIGP, 5]
PADIC3 = ["padic", 10007, 3]
QI = ["gaussian rational", 0, 0]
QQ = ["rational", 0, 0]


def seeded(n, seed, **kw):
    """A seeded point; degenerate draws (a zero bracket where one divides) may raise, then the next seed is taken."""
    for k in range(20):
        try:
            return lips.Particles(n, seed=seed + k, **kw)
        except ZeroDivisionError:
            pass
    return lips.Particles(n, seed=seed + 20, **kw)
