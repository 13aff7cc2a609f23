"""D01: derived points are exact and independent of their source."""
import copy
import pickle
import random

import numpy

from .. import common as C
from .. import entropy, interrupt, nodefns, ref
from ..core import Skip, Violation

lips = C.lips
FIELDS = [C.MPC, C.MPC, C.FF, C.FF, C.FFS, C.PADIC, C.QI, C.QQ]
DERIVE = ("image", "image", "conj", "rule", "copy", "deepcopy", "pickle", "cluster", "cluster", "fermion", "legcopy", "sharedmass", "fieldcopy")
MUTATE = ("inplace", "inplace", "inplace", "setter", "item", "swap", "randomise", "mass", "massset", "delmass", "leg", "append", "reverse", "limit", "fix", "refvec", "attr", "field", "twistor", "container")
ARRAYS = ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d")


def gen_point(rng):
    field = rng.choice(FIELDS)
    t = {"n": rng.choice((4, 5, 6, 6, 7, 8, 10, 12)), "seed": rng.randrange(10 ** 6), "field": field, "masses": None, "degenerate": rng.random() < 0.2}
    if rng.random() < 0.5:
        t["masses"] = [rng.choice(("set", "list", "tuple", "dict")), rng.sample(["m_t", "M", "mu", "μ", "m_b"], rng.randint(1, 3))]
    if field[0] == "mpc" and rng.random() < 0.2:
        t["real"] = True
    if rng.random() < 0.3:
        t["strmass"] = rng.choice(("s_12", "s_56", "s56", "s_123", "s_45"))
    return t


def gen(rng, tier, index):
    points = [gen_point(rng) for _ in range(rng.randint(1, 2))]
    ops = []
    for _ in range(rng.randint(2, 14)):
        if rng.random() < 0.5:
            cut = rng.randint(1, 120) if rng.random() < 0.2 else None
            ops.append(["d", rng.choice(DERIVE), rng.randrange(100), rng.randrange(10 ** 6), cut])
        else:
            ops.append(["m", rng.choice(MUTATE), rng.randrange(100), rng.randrange(10 ** 6), None])
    return {"points": points, "ops": ops, "convention": rng.choice(("symmetric", "symmetric", "asymmetric"))}


def leg_canon(p):
    return C.canon_particle(p) + f";{getattr(p, 'spin_index', None)};{p.field.name},{p.field.characteristic},{p.field.digits}"


class Item:
    """A live point: the object, how it came about, and its last known description."""

    def __init__(self, ps, spec, how):
        self.ps, self.spec, self.how = ps, spec, how
        self.caller = None
        self.dirty = False              # representations made inconsistent on purpose (in-place changes)
        self.refresh()

    def refresh(self):
        self.legs = [leg_canon(p) for p in list.__iter__(self.ps)]
        self.full = self.describe()

    def describe(self):
        ps = self.ps
        attrs = sorted(k for k in ps.__dict__ if k not in ("oRefVec", "field", "internal_masses") and not k.startswith("_"))
        return "\n".join([leg_canon(p) for p in list.__iter__(ps)] + [C.canon_particle(ps.oRefVec), str([(k, C.canon(ps.__dict__[k])) for k in attrs]),
                         C.canon(set(ps.internal_masses)), f"{ps.field.name},{ps.field.characteristic},{ps.field.digits}"])


class World:
    def __init__(self, plan, ctx):
        self.ctx, self.items, self.shared_masses = ctx, [], {}
        for t in plan["points"]:
            self.items.append(self.make(t))

    def make(self, t):
        F = C.field_of(t["field"])
        masses = nodefns.masses_of(t["masses"])
        kw = {"real_momenta": True} if t.get("real") else {}
        ps = C.seeded(t["n"], t["seed"], field=F, internal_masses=masses, **kw)
        if t.get("degenerate"):                 # two legs with equal momenta
            src = ps[1]
            other = lips.Particle(field=F)
            other.r_sp_d = src.r_sp_d.copy()
            other.l_sp_d = src.l_sp_d.copy()
            ps[3] = other
        if t.get("strmass"):
            ps.m_s = t["strmass"]
        it = Item(ps, t, "made")
        it.caller = masses
        return it

    # ---------------------------------------------------------------------------------------------------- invariants

    def untouched(self, but, what):
        for it in self.items:
            if it is but:
                continue
            now = it.describe()
            if now != it.full:
                raise Violation("change-visible-elsewhere", f"{what} changed another point ({it.how}): {first_diff(now, it.full)}")

    def compare(self):
        """Equality is leg-wise equality of momenta."""
        for a in self.items:
            for b in self.items:
                if a.spec["field"] != b.spec["field"] or a.ps.field.name != b.ps.field.name or a.ps.field.characteristic != b.ps.field.characteristic:
                    continue
                if any(p.field.name != a.ps.field.name for it in (a, b) for p in list.__iter__(it.ps)):
                    continue
                x = [C.canon(p.r2_sp) for p in list.__iter__(a.ps)]
                y = [C.canon(p.r2_sp) for p in list.__iter__(b.ps)]
                got = bool(a.ps == b.ps)
                if x == y and not got:
                    raise Violation("equal-points-differ", f"{a.how} and {b.how} have the same momenta but compare different")
                if x != y and got and a.spec["field"][0] != "padic":
                    raise Violation("different-points-equal", f"{a.how} and {b.how} compare equal; lengths {len(x)}, {len(y)}")
                if bool(a.ps != b.ps) == got:
                    raise Violation("equal-points-differ", f"{a.how}, {b.how}: == and != agree")
        self.ctx.probe("comparisons")

    # ---------------------------------------------------------------------------------------------------- derivations

    def derive(self, name, k, seed, cut):
        src = self.items[k % len(self.items)]
        ps, n, rng = src.ps, len(src.ps), random.Random(seed)
        fn, spec = self.derivation(src, name, rng)
        if fn is None:
            return
        before = src.describe()
        if cut is not None:
            res = interrupt.interrupted_call(cut, fn)
            if res[0] == "interrupted":
                self.ctx.fault("interrupt")
        else:
            try:
                res = ("done", fn())
            except Exception as e:      # noqa
                res = ("raised", e)
        self.ctx.log("derive", name, k % len(self.items), res[0])
        if src.describe() != before:
            raise Violation("derivation-changed-source", f"{name} of a point ({src.how}, {res[0]}): {first_diff(src.describe(), before)}")
        self.untouched(None, f"{name} of {src.how}")
        if res[0] == "interrupted":
            return
        if res[0] == "raised":
            if name in ("cluster", "fermion") and src.spec["field"][0] in ("rational", "gaussian rational", "padic", "finite field") and (isinstance(res[1], (NotImplementedError, ValueError)) or "sqrt" in str(res[1])):
                self.ctx.probe("cluster-refused")
                return
            raise Violation("unexpected-" + type(res[1]).__name__, f"{name} of {src.how} (field {src.spec['field']}, n {n}): {res[1]}")
        q = res[1]
        self.exact(src, q, name, spec)
        self.ctx.probe("derived-" + name)
        new = Item(q, src.spec, f"{name} of {src.how[:60]}")
        new.dirty = src.dirty
        if len(self.items) >= 7:
            self.items.pop(rng.randrange(len(self.items)))
        self.items.append(new)

    def derivation(self, src, name, rng):
        ps, n = src.ps, len(src.ps)
        odd = any(p.r_sp_d is None for p in list.__iter__(ps))
        if name in ("image", "conj", "rule"):
            if n >= 10 or n < 1:
                return None, None
            perm = list(range(1, n + 1))
            rng.shuffle(perm)
            text = "".join(map(str, perm))
            if name == "image":
                return (lambda: ps.image(text)), (perm, False)
            flag = name == "conj" or rng.random() < 0.5
            return (lambda: ps.image((text, flag))), (perm, flag)
        if name == "copy":
            return ps.copy, None
        if name == "deepcopy":
            return (lambda: copy.deepcopy(ps)), None
        if name == "fieldcopy":
            return (lambda: copy.deepcopy([ps, ps.field, 3])[0]), None
        if name == "pickle":
            proto = rng.randint(2, 5)
            return (lambda: pickle.loads(pickle.dumps(ps, proto))), None
        if name == "legcopy":
            return (lambda: lips.Particles([copy.copy(p) for p in list.__iter__(ps)], field=ps.field, fix_mom_cons=False, internal_masses=ps.internal_masses_dict)), None
        if name == "sharedmass":
            if not src.spec["masses"]:
                return None, None
            t, F = src.spec, C.field_of(src.spec["field"])
            key = id(src.caller)
            if src.caller is None:
                return None, None
            cont = self.shared_masses.setdefault(key, src.caller)
            return (lambda: C.seeded(t["n"], t["seed"] + 1000, field=F, internal_masses=cont)), None
        if odd or n < 4 or any(hasattr(p, "spin_index") for p in list.__iter__(ps)):
            return None, None
        legs = list(range(1, n + 1))
        rng.shuffle(legs)
        if rng.random() < 0.5:
            legs.sort()
        corners = []
        while legs:
            m = min(len(legs), rng.choice((1, 1, 1, 2, 2, 3)))
            corners.append(legs[:m])
            legs = legs[m:]
        if name == "cluster":
            return (lambda: ps.cluster(corners)), (corners, None)
        two = [i for i, c in enumerate(corners, 1) if len(c) == 2]
        if not two:
            return None, None
        fermions = [(i, rng.choice("ud"), rng.choice((1, 2, all))) for i in rng.sample(two, min(len(two), rng.randint(1, 2)))]
        return (lambda: ps.cluster(corners, massive_fermions=tuple(fermions))), (corners, fermions)

    def exact(self, src, q, name, spec):
        """The derived point has exactly the prescribed legs, momenta and masses."""
        ps = src.ps
        if type(q) is not lips.Particles:
            raise Violation("derived-point-wrong", f"{name} gave a {type(q).__name__}")
        if name != "sharedmass" and fspec(q) != fspec(ps):
            raise Violation("derived-point-wrong", f"{name} of {src.how}: field {fspec(q)} instead of {fspec(ps)}")
        masses = {m: C.canon(getattr(ps, m)) for m in ps.internal_masses}
        gotm = {m: C.canon(getattr(q, m, None)) for m in q.internal_masses}
        if name in ("copy", "deepcopy", "pickle", "fieldcopy"):
            now = Item(q, src.spec, name).full
            if now != src.full:
                raise Violation("derived-point-wrong", f"{name}: {first_diff(now, src.full)}")
        elif name == "legcopy":
            got = [leg_canon(p) for p in list.__iter__(q)]
            if got != src.legs or gotm != masses:
                raise Violation("derived-point-wrong", f"copied legs or masses differ ({src.how})")
        elif name in ("image", "conj", "rule"):
            perm, conj = spec
            if len(q) != len(ps):
                raise Violation("derived-point-wrong", f"{name}: {len(q)} legs")
            for i, to in enumerate(perm):
                old, new = list.__getitem__(ps, i), list.__getitem__(q, to - 1)
                if not conj:
                    if leg_canon(old) != leg_canon(new):
                        raise Violation("derived-point-wrong", f"image {perm} of {src.how}: leg {to} is not leg {i + 1} of the source")
                elif not is_conjugate(old, new):
                    raise Violation("derived-point-wrong", f"image {perm} with conjugation of {src.how}: leg {to} is not the conjugate of leg {i + 1}")
            if gotm != masses:
                raise Violation("derived-point-wrong", f"{name}: masses {gotm} instead of {masses}")
            if C.canon_particle(q.oRefVec) != C.canon_particle(ps.oRefVec):
                raise Violation("derived-point-wrong", f"{name}: another reference vector")
        elif name in ("cluster", "fermion"):
            corners, fermions = spec
            if len(q) != len(corners):
                raise Violation("derived-point-wrong", f"cluster {corners}: {len(q)} legs")
            for j, corner in enumerate(corners):
                new = list.__getitem__(q, j)
                if len(corner) == 1:
                    if leg_canon(new) != src.legs[corner[0] - 1]:
                        raise Violation("derived-point-wrong", f"cluster {corners}: leg {j + 1} is not leg {corner[0]} of the source")
                    continue
                want = [[sum((list.__getitem__(ps, i - 1).r2_sp[a, b] for i in corner[1:]), list.__getitem__(ps, corner[0] - 1).r2_sp[a, b]) for b in (0, 1)] for a in (0, 1)]
                if not src.dirty and fspec(new) != fspec(ps):
                    raise Violation("derived-point-wrong", f"cluster {corners}: leg {j + 1} has field {fspec(new)} instead of {fspec(ps)}")
                if not ref.same_matrix(new.r2_sp, want):
                    raise Violation("derived-point-wrong", f"cluster {corners}: momentum of leg {j + 1} is not the sum")
            for m in masses:
                val = getattr(ps, m)
                if isinstance(val, str):
                    want = relabelled(val, corners)
                    got = getattr(q, m, None)
                    if want is not None and (not isinstance(got, str) or mandelstam_labels(got) != want):
                        raise Violation("derived-point-wrong", f"cluster {corners}: mass {m} = {val} became {got}")
                elif gotm.get(m) != masses[m]:
                    raise Violation("derived-point-wrong", f"cluster: mass {m}")
            if set(gotm) != set(masses):
                raise Violation("derived-point-wrong", f"cluster: masses {sorted(gotm)} instead of {sorted(masses)}")
            for leg, pos, val in fermions or ():
                self.fermion(ps, list.__getitem__(q, leg - 1), corners[leg - 1], pos, val, src.dirty)
        # evaluation sees the derived legs
        if not src.dirty and name in ("image", "conj", "rule", "copy", "pickle") and len(q) >= 4 and all(p.r_sp_d is not None and p.r_sp_d.shape == (2, 1) and not ext(p) for p in list.__iter__(q)):
            r = ref.Point.of(q)
            for e, text in ((["A", 1, 2], "⟨1|2⟩"), (["s", [1, 2, 3]], "s_123"), (["NB", "<", 1, [[[1, 2], [1, 3]]], 4, "]"], "⟨1|2+3|4]")):
                if not massive(q, e) and not ref.same_matrix(q(text), r.value(e)):
                    raise Violation("derived-evaluation-wrong", f"{text} on {name} of {src.how}")

    def fermion(self, ps, p, corner, pos, val, dirty):
        """|leg^I> and [leg_I| of a massive fermion: their contraction over the spin index is the momentum."""
        a, b = (list.__getitem__(ps, i - 1) for i in corner)
        R = numpy.block([a.r_sp_d, b.r_sp_d])
        L = numpy.block([[a.l_sp_d], [b.l_sp_d]])
        eps = lips.tools.LeviCivita
        r, l_ = p.r_sp_d, p.l_sp_d
        wantr, wantl = (R, -1 * (eps @ L)) if pos == "u" else (-1 * (R @ eps), L)
        if isinstance(val, int):
            wantr, wantl = wantr[:, val - 1:val], wantl[val - 1:val, :]
        ok = r.shape == wantr.shape and l_.shape == wantl.shape and all(ref.same(x, y) for x, y in zip(r.flatten(), wantr.flatten())) and \
            all(ref.same(x, y) for x, y in zip(l_.flatten(), wantl.flatten()))
        if not ok or p.spin_index != (pos, val):
            raise Violation("derived-point-wrong", f"massive fermion {corner} {pos} {val}: spinors")
        if not all(ref.same(x, y) for x, y in zip(p.r_sp_u.flatten(), (eps @ r).T.flatten())) or not all(ref.same(x, y) for x, y in zip(p.l_sp_u.flatten(), (l_ @ eps.T).T.flatten())):
            raise Violation("derived-point-wrong", f"massive fermion {corner} {pos} {val}: raised indices")
        if val is all and not dirty and all(ref.is_zero(x.m2, scale=max(1, *(abs(y) for y in x.r2_sp.flatten())) if x.field.name == "mpc" else 1) for x in (a, b)):
            m = r @ eps @ l_
            if not all(ref.same(m[i, j], p.r2_sp_b[i, j]) for i in (0, 1) for j in (0, 1)):
                raise Violation("derived-point-wrong", f"massive fermion {corner}: spinors do not give the momentum")

    # ----------------------------------------------------------------------------------------------------- mutations

    def mutate(self, name, k, seed):
        it = self.items[k % len(self.items)]
        ps, rng = it.ps, random.Random(seed)
        n = len(ps)
        if not n:
            return
        p = list.__getitem__(ps, rng.randrange(n))
        F = p.field
        done = True
        try:
            if name == "inplace":
                arrays = [a for a in (getattr(p, r, None) for r in ARRAYS) if isinstance(a, numpy.ndarray)]
                a = rng.choice(arrays)
                j = rng.randrange(a.size)
                it.dirty = True
                a.flat[j] = a.flat[j] + 1
            elif name == "setter":
                rep = rng.choice(("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u"))
                if p.r_sp_d is None or p.r_sp_d.shape != (2, 1):
                    return
                setattr(p, rep, numpy.array([F(rng.randint(1, 10 ** 6)), F(rng.randint(1, 10 ** 6))], dtype=object))
            elif name == "item":
                if p.r_sp_d is None or p.r_sp_d.shape != (2, 1):
                    return
                i = rng.randint(1, n)
                if list.__getitem__(ps, i - 1).r_sp_d is not None:
                    ps[f"|{i}⟩"] = numpy.array([[F(rng.randint(1, 99))], [F(rng.randint(1, 99))]], dtype=object)
            elif name == "swap":
                ps.angles_for_squares()
            elif name == "randomise":
                p.randomise()
            elif name == "twistor":
                p.randomise_twist()
            elif name == "mass":
                ms = sorted(ps.internal_masses)
                if not ms:
                    return
                setattr(ps, rng.choice(ms), F(rng.randint(1, 10 ** 6)))
            elif name == "massset":
                ps.internal_masses.add("m_added")
                ps.m_added = 4
            elif name == "delmass":
                ms = sorted(ps.internal_masses)
                if not ms:
                    return
                m = rng.choice(ms)
                ps.internal_masses.discard(m)
                object.__delattr__(ps, m)
            elif name == "leg":
                ps[rng.randint(1, n)] = lips.Particle(field=F)
            elif name == "append":
                list.append(ps, lips.Particle(field=F))
            elif name == "reverse":
                list.reverse(ps)
            elif name == "limit":
                if F.name != "mpc" or n < 4 or n > 8:
                    return
                ps._set("⟨1|2⟩", C.mpmath.mpf(10) ** -20)
            elif name == "fix":
                if n < 3:
                    return
                ps.fix_mom_cons(1, 2)
            elif name == "refvec":
                a = ps.oRefVec.r_sp_d
                a.flat[0] = a.flat[0] + 1
            elif name == "attr":
                ps.helconf = rng.choice(("ppmm", ["p", "m"]))
                if isinstance(ps.helconf, list):
                    ps.helconf.append("p")
            elif name == "field":
                if F.name not in ("rational",):
                    return
                it.dirty = True
                ps.to_field(C.field_of(C.FF))
            elif name == "container":                   # the caller keeps using the container it passed in
                c = it.caller
                if isinstance(c, set):
                    c.add("m_late")
                elif isinstance(c, list):
                    c.append("m_late")
                elif isinstance(c, dict):
                    c["m_late"] = 3
                else:
                    return
                self.untouched(None, "changing the container of masses passed by the caller")
        except Exception as e:      # noqa
            it.dirty, done = True, type(e).__name__         # a refused or failed modification may leave its own point half-way, never another one
        self.ctx.log("mutate", name, k % len(self.items), done)
        self.ctx.probe("mutation-" + name)
        self.untouched(it, f"{name} on a point ({it.how})")
        it.refresh()


def fspec(x):
    return x.field.name, x.field.characteristic, x.field.digits


def ext(p):
    return type(p.r_sp_d.flat[0]).__name__ == "FieldExtension"


def massive(q, e):
    return any(not ref.is_zero(ref.det2([[p.r2_sp[0, 0], p.r2_sp[0, 1]], [p.r2_sp[1, 0], p.r2_sp[1, 1]]]), scale=max(1, max(abs(x) for x in p.r2_sp.flatten())) if p.field.name == "mpc" else 1)
               for p in list.__iter__(q))


def mandelstam_labels(text):
    return set(map(int, text.lstrip("s_"))) if text.lstrip("s_").isdigit() else None


def relabelled(val, corners):
    """Labels of the Mandelstam variable after clustering, if it can be written in terms of the corners."""
    labels = mandelstam_labels(val)
    inside = [i for i, c in enumerate(corners, 1) if set(c) <= labels]
    if set().union(*(corners[i - 1] for i in inside)) != labels or max(inside) > 9:
        return None
    return set(inside)


def is_conjugate(old, new):
    def t(a):
        return C.canon(a.T)
    if C.canon(new.r2_sp) != t(old.r2_sp) or C.canon(new.r2_sp_b) != t(old.r2_sp_b):
        return False
    if old.r_sp_d is None or old.l_sp_d is None:
        return (new.r_sp_d is None) == (old.r_sp_d is None)
    if hasattr(old, "spin_index"):
        if getattr(new, "spin_index", None) != old.spin_index:
            return False
        if old.spin_index[0] == "u":
            return C.canon(new.r_sp_d) == t(old.l_sp_d) and C.canon(new.l_sp_d) == t(old.r_sp_d * -1)
        return C.canon(new.l_sp_d) == t(old.r_sp_d) and C.canon(new.r_sp_d) == t(old.l_sp_d * -1)
    return C.canon(new.r_sp_d) == t(old.l_sp_d) and C.canon(new.l_sp_d) == t(old.r_sp_d)


def first_diff(x, y):
    for k, (a, b) in enumerate(zip(x.split("\n"), y.split("\n"))):
        if a != b:
            j = next((i for i, (c, d) in enumerate(zip(a, b)) if c != d), min(len(a), len(b)))
            return f"line {k}: ...{a[max(0, j - 40):j + 60]} was ...{b[max(0, j - 40):j + 60]}"
    return f"{len(x.split(chr(10)))} lines, were {len(y.split(chr(10)))}"


def execute(plan, ctx):
    entropy.install("d01")
    lips.spinor_convention = plan["convention"]
    w = World(plan, ctx)
    for op in plan["ops"]:
        if op[0] == "d":
            w.derive(*op[1:])
        else:
            w.mutate(*op[1:4])
        w.compare()
        ctx.steps += 1
        ctx.state(op[1], len(w.items), w.items[-1].how[:40])
