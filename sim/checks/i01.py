"""I01: questions about ideals get the right answer or an exception, whatever the algebra system does; the same objects answer once it works."""
import random

from .. import common as C                                          # noqa: F401 (import order)
from .. import entropy, idealsim, interrupt, ref, solver, varsim
from ..core import Violation

LOUDS = list(solver.LOUD)


def gen_spec(rng, ns=None):
    if rng.random() < 0.2 and ns is None:
        n = rng.choice((4, 4, 5))
        names = sorted({rng.choice("abcd") + str(rng.randint(1, n)) for _ in range(rng.choice((0, 1, 2, 3)))})
        return ["vars", n, names]
    base = rng.choice([k for k, b in enumerate(idealsim.BASE) if ns is None or b[0] in ns])
    n = idealsim.BASE[base][0]
    perm = list(range(1, n + 1))
    r = rng.random()
    if r < 0.3:
        perm = perm[1:] + perm[:1]
    elif r < 0.4:
        rng.shuffle(perm)
    return ["base", base, perm, rng.random() < 0.3]


def gen_faults(rng):
    r = rng.random()
    if r < 0.4:
        return []
    kinds = rng.sample(LOUDS, rng.choice((1, 1, 2)))
    if r < 0.6:
        start = rng.choice((0, 1, 2, 3, 5))
        return [[start + i, rng.choice(kinds), 0] for i in range(200)]
    return [[rng.randrange(10), rng.choice(kinds), 0] for _ in range(rng.choice((1, 2)))]


def gen_question(rng, pool):
    """pool: specs of the live ideals; a question names them by index."""
    i = rng.randrange(len(pool))
    spec = idealsim.Spec(pool[i])
    perm = list(range(1, spec.n + 1))
    rng.shuffle(perm)
    conj = rng.random() < 0.4
    kind = rng.choice(("in", "in", "in", "img", "imgin", "eq", "sub", "back", "qring", "spin", "spimg", "slice", "class", "redo", "sum"))
    if kind == "in":
        e, t = idealsim.candidate(rng, spec)
        return ["in", i, e, t]
    if kind == "img":
        return ["img", i, perm, conj]
    if kind == "imgin":
        e, t = idealsim.candidate(rng, spec.image(perm, conj))
        return ["imgin", i, perm, conj, e, t]
    if kind in ("eq", "sub"):
        return [kind, i, rng.randrange(len(pool))]
    if kind == "redo":
        return ["redo", i, rng.choice(("order", "extra", "mix", "less")), rng.randrange(1 << 20)]
    if kind in ("spin", "spimg", "slice") and (spec.n > 5 or spec.spec[0] == "vars"):
        kind = "in"
        e, t = idealsim.candidate(rng, spec)
        return ["in", i, e, t]
    if kind == "spin":
        for _ in range(10):
            e, t = idealsim.candidate(rng, spec)
            if e[0] in ("Au", "Ad", "Su", "Sd"):
                continue
            try:
                e = idealsim.expand_nb(e)
            except AssertionError:
                continue
            if idealsim.brackets_only(e):
                return ["spin", i, e, t]
        return ["img", i, perm, conj]
    if kind == "spimg":
        return ["spimg", i, perm, conj]
    if kind == "class" and spec.n > 4:
        return ["back", i, perm, conj]
    return [kind, i, perm, conj]


def gen(rng, tier, index):
    pool = [gen_spec(rng) for _ in range(rng.choice((1, 2, 2, 3)))]
    if rng.random() < 0.5:                                          # related ideals make equality and containment questions interesting
        s = rng.choice(pool)
        if s[0] == "base":
            n = idealsim.BASE[s[1]][0]
            pool.append(["base", rng.choice([k for k, b in enumerate(idealsim.BASE) if b[0] == n]), s[2], s[3]])
    qs = []
    for _ in range(rng.choice((2, 3, 4, 6))):
        qs.append({"q": gen_question(rng, pool), "faults": gen_faults(rng), "slow": [[rng.randrange(8), rng.choice((59, 61, 600))] for _ in range(rng.choice((0, 0, 0, 1)))],
                   "cut": rng.choice((None, None, None, None, rng.choice((rng.randint(1, 60), rng.randint(1, 2000)))))})
    return {"pool": pool, "qs": qs, "entropy": rng.choice((1, 2))}


def text(e):
    return ref.render(e, 32)


class World:
    def __init__(self, plan):
        self.specs = [idealsim.Spec(s) for s in plan["pool"]]
        self.live, self.spin = {}, {}

    def ideal(self, i):
        if i not in self.live:
            self.live[i] = self.specs[i].build()
        return self.live[i]

    def spinor(self, i):
        if i not in self.spin:
            s = self.specs[i]
            self.spin[i] = idealsim.SpinorIdeal(s.n, tuple(text(e) for e in s.gens))
        return self.spin[i]

    def differ(self, I, J):
        """True if some generator of one does not vanish on a witness of the other; None if undecided."""
        if I.exact or J.exact:
            return None
        return True if any(X.truth(e) is False for X, Y in ((I, J), (J, I)) for e in Y.gens) else None

    def ask(self, q):
        """Returns (answer, truth)."""
        kind, i = q[0], q[1]
        s = self.specs[i]
        if kind == "in":
            return text(q[2]) in self.ideal(i), q[3]
        if kind in ("img", "imgin", "back", "spimg"):
            rule = ("".join(map(str, q[2])), q[3])
            if kind == "img":
                return self.ideal(i)(*rule) == s.image(q[2], q[3]).build(), True
            if kind == "imgin":
                return text(q[4]) in self.ideal(i).image(rule), q[5]
            if kind == "back":
                from lips.symmetries import inverse
                return self.ideal(i)(*rule)(*inverse(rule)) == self.ideal(i), True
            return self.spinor(i)(*rule) == idealsim.SpinorIdeal(s.n, tuple(text(e) for e in s.image(q[2], q[3]).gens)), True
        if kind == "eq":
            j = q[2]
            if self.specs[j].n != s.n:
                return None, None
            if self.specs[j].spec == s.spec:
                return self.ideal(i) == s.build(), True
            if self.differ(s, self.specs[j]):
                return self.ideal(i) == self.ideal(j), False
            return None, None
        if kind == "sub":
            j, t = q[2], None
            if self.specs[j].n != s.n or s.exact or self.specs[j].exact:
                return None, None
            if all(e in s.gens for e in self.specs[j].gens):
                t = True
            elif any(s.truth(e) is False for e in self.specs[j].gens):
                t = False
            if t is None:
                return None, None
            return self.ideal(j) in self.ideal(i), t
        if kind == "sum":
            if s.exact:
                return None, None
            j = q[2][0] % len(self.specs)
            o = self.specs[j]
            if o.n != s.n or o.exact:
                return None, None
            return self.ideal(i) + self.ideal(j) == idealsim.LipsIdeal(s.n, tuple(dict.fromkeys(text(e) for e in s.gens + o.gens))), True
        if kind == "redo":
            if s.exact:
                return None, None
            rng = random.Random(q[3])
            gens = [text(e) for e in s.gens]
            t = True
            if q[2] == "order":
                gens = gens[::-1]
            elif q[2] == "extra":
                e = idealsim.member(rng, s)
                if not idealsim.Spec(["vars", s.n, []]).truth(e):       # not the zero polynomial, which is refused as a generator
                    gens.insert(rng.randint(0, len(gens)), text(e))
            elif q[2] == "mix":
                if len(gens) < 2 or any(e[0] not in ("A", "S", "s", "NB") for e in s.gens):
                    gens.append(text(idealsim.conservation(rng, s.n)))
                else:
                    gens[0] = f"{gens[0]}*{rng.choice((1, 2, 3))}+{text(idealsim.cofactor(rng, s.n))}*{gens[1]}"
            else:
                if not gens:
                    return None, None
                k = rng.randrange(len(gens))
                rest = [e for m, e in enumerate(s.gens) if m != k]
                # what is left vanishes on the witnesses of a weaker ideal: decided by the catalogue entry without that generator, if there is one
                for b, (n, g, _) in enumerate(idealsim.BASE):
                    if n == s.n and len(g) == len(rest):
                        o = idealsim.Spec(["base", b, s.spec[2], s.spec[3]])
                        if o.gens == rest and o.truth(s.gens[k]) is False:
                            return self.ideal(i) == idealsim.LipsIdeal(s.n, tuple(text(e) for e in rest)), False
                return None, None
            return self.ideal(i) == idealsim.LipsIdeal(s.n, tuple(gens)), t
        if kind == "qring":
            if s.exact:
                return None, None
            self.ideal(i).to_mom_cons_qring()
            rng = random.Random(q[2][0])
            e, t = idealsim.candidate(rng, s)
            ans = text(e) in self.ideal(i)
            self.live.pop(i)
            return ans, t
        if kind == "spin":
            return idealsim.invariant_text(q[2], s.n) in self.spinor(i), q[3]
        if kind == "slice":
            return self.ideal(i).invariant_slice() == self.spinor(i), True
        if kind == "class":
            c = self.ideal(i).equivalenceClass
            if s.exact:
                return None, None
            want = {0: 1, 1: 6}[s.spec[1]]
            return len(c) == want, True
        raise KeyError(kind)


def execute(plan, ctx):
    entropy.install(f"i01|{plan['entropy']}")
    w = World(plan)
    for k, item in enumerate(plan["qs"]):
        q = item["q"]
        why = f"question {k} {q[0]} about {[text(e) for e in w.specs[q[1]].gens] or w.specs[q[1]].spec} (n={w.specs[q[1]].n}) {[text(x) if isinstance(x, list) and x and isinstance(x[0], str) else x for x in q[2:]]}"
        for attempt in range(2):
            varsim.reset_limits()
            sv = solver.Solver(ctx, ctx.shared, item["faults"] if attempt == 0 else [], item["slow"] if attempt == 0 else []).install()
            err, ans, truth, cut = None, None, None, attempt == 0 and item["cut"]
            with varsim.quiet():
                try:
                    if cut:
                        out, val = interrupt.interrupted_call(cut, lambda: w.ask(q))
                        if out == "interrupted":
                            ctx.fault("interrupt")
                            err = interrupt.Interrupted()
                        elif out == "raised":
                            raise val
                        else:
                            ans, truth = val
                            cut = None
                    else:
                        ans, truth = w.ask(q)
                except (Exception, KeyboardInterrupt) as e:         # noqa
                    err = e
            ctx.log(k, q[0], attempt, type(err).__name__, ans, sv.calls)
            ctx.state(q[0], w.specs[q[1]].spec[:2], type(err).__name__, ans, sv.fired[0] if sv.fired else "")
            if err is None:
                if truth is not None and bool(ans) != truth:
                    raise Violation("wrong-verdict", f"{why}: {ans} instead of {truth}" + (f" with solver faults {sv.fired[:4]}" if sv.fired else "") + (" after a failure" if attempt else ""))
                ctx.probe("answered" if truth is not None else "undecided")
                if attempt:
                    ctx.probe("answered-after-failure")
                break
            if not sv.fired and not isinstance(err, interrupt.Interrupted):
                raise Violation("refused", f"{why}: {type(err).__name__}: {str(err)[:200]} although the algebra system works" + (" again" if attempt else ""))
            ctx.probe("raised")
