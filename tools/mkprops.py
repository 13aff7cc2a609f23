"""Regenerates /verif/properties.jsonl (run by hand; the file itself is committed)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe}
    if hook is not None:
        a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "The invariants cache never changes an answer",
     "A request for the list of independent spinor invariants at a given multiplicity that returns, returns exactly the list that generating from scratch with the same options would give. This holds whatever the on-disk cache went through before or during the request: other processes running at the same time, processes killed or interrupted half-way, full disks, failed calls, torn or lost writes, and requests made with other options.",
     ["schedules", "crash_points", "fault_sequences", "histories", "configurations"],
     "every interleaving of any number of requesting processes at their file-system and database calls, every crash point, every disk error / torn write, every order of option sets, either database backend",
     "The tests request invariants from one process on a healthy disk, and mostly bypass the cache; a wrong or mixed list needs a particular crash, race or order of option sets.",
     ["lips/invariants.py"],
     [("cache lookup and regeneration", "lips/invariants.py: Invariants.__init__"), ("publication of a new cache file", "lips/invariants.py: Invariants._new_cache"), ("cache location", "lips/invariants.py: Invariants.pw_cache, pw_invariants")],
     "the category lists and the full list of the returned object")

prop("C02", "The invariants cache always recovers and is then used",
     "A request for the list of invariants issued while no fault is occurring succeeds, however many processes race on it and whatever state earlier crashes, full disks or torn writes left the on-disk cache in. Once one such request has succeeded with default options, later default requests are answered from the cache instead of being generated again, and leave the cache unchanged.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "every history of faults on the cache followed by a fault-free suffix of one or more (possibly racing) requests",
     "No test leaves a damaged cache behind or starts two processes; permanent failure after a crash is invisible to any single-shot test.",
     ["lips/invariants.py"],
     [("detection of an unusable cache", "lips/invariants.py: Invariants.__init__"), ("creation of the cache directory", "lips/invariants.py: Invariants.pw_cache"), ("publication of a new cache file", "lips/invariants.py: Invariants._new_cache")],
     "outcome of the request, files under the cache directory, amount of Python work done by the request")

prop("C03", "A saved phase-space point stays on disk, whole and exact",
     "When saving a point to disk returns normally, a file in the save directory holds all of that point's spinor components to full working precision, until a later save under the same name replaces the second slot. The file of the first point saved under a name is never altered by a later or concurrent save, and no acknowledged file ever mixes the data of two points, whatever other processes are saving, crashing or running out of disk at the time.",
     ["schedules", "crash_points", "fault_sequences"],
     "every interleaving of concurrent saves of different points, every crash point and write failure in any of them",
     "There is no test of saving at all; losing or mixing a point needs two processes inside the same window or a crash inside a save.",
     ["lips/particles.py"],
     [("choice of slot and writing", "lips/particles.py: Particles.save_phase_space_point"), ("rendering of the spinors", "lips/particles.py: Particles._r_sp_d_for_mathematica, _l_sp_d_for_mathematica")],
     "files in the phase_space_cache directory of the working directory")

prop("R01", "A seed fixes the generated kinematics",
     "Generating a phase-space point (over any supported number field, with or without internal masses), a point on a variety, or a univariate or bivariate slice from an explicit seed gives the same components every time: in a fresh process or after any history of other library calls, failures and random draws, in any process, and under any string-hash randomisation. Different seeds between 0 and 2**32 give different kinematics over large fields.",
     ["histories", "configurations", "fault_sequences"],
     "every history of library operations (including failed and interrupted ones) and random-stream states preceding the seeded call in the same process, every process and hash seed",
     "Tests compare at most two constructions in the same process from the same state; dependence on history, hash order or process needs other histories and other interpreters.",
     ["lips/particles.py", "lips/particles_slices.py", "lips/algebraic_geometry/particles_singular_variety.py", "lips/particle.py"],
     [("seeding of the random stream", "lips/particles.py: Particles.__init__"), ("seeded slices", "lips/particles_slices.py: univariate_slice, bivariate_slice"), ("seeded point on a variety", "lips/algebraic_geometry/particles_singular_variety.py: from_singular_variety")],
     "components of the spinors, masses and reference vector of the generated point")

prop("R02", "Unseeded points are fresh in every call and process",
     "Phase-space points generated without a seed never repeat: not across consecutive calls, not after a seeded generation left the random stream in a known state, and not across worker processes forked from one parent.",
     ["histories", "schedules"],
     "every history of seeded and unseeded generations, every fork point and every scheduling of the forked workers",
     "Tests never fork workers and never compare unseeded points after a seeded one.",
     ["lips/particles.py"],
     [("re-seeding from system entropy", "lips/particles.py: Particles.__init__")],
     "spinor components of the generated points")

prop("V01", "Putting a point on a surface succeeds exactly or raises",
     "When a request to move a phase-space point onto (or a given distance from) the surface where given invariants vanish returns, each invariant has the requested value or valuation, momentum is conserved and all legs are massless. If that cannot be achieved, because the algebraic solver times out, crashes, reports an error, returns truncated or wrong output, is missing, or the closed-form solution does not apply, the request raises instead of returning an off-surface point.",
     ["fault_sequences", "inputs", "histories"],
     "every sequence of solver outcomes (correct, slow, timed out, killed, erroneous, truncated, wrong, missing), every supported number field, constraints with and without closed-form solution",
     "Tests run each surface once with a healthy solver; the verification step matters only when the solver or the closed form goes wrong.",
     ["lips/particles_variety.py", "lips/algebraic_geometry/particles_singular_variety.py", "lips/hardcoded_limits/particles_set.py", "lips/hardcoded_limits/particles_set_pair.py"],
     [("closed form, fallback, verification", "lips/particles_variety.py: variety"), ("solver path", "lips/algebraic_geometry/particles_singular_variety.py: _singular_variety, update_particles"), ("closed forms", "lips/hardcoded_limits/")],
     "invariants, total momentum and masses recomputed from the spinors of the point after the call")

prop("V02", "A failed solver call leaves the point untouched and retryable",
     "When moving a point onto a surface raises because the algebraic solver failed, the point still has exactly the kinematics it had before the request and remains a consistent phase-space point. Repeating the same request once the solver works again succeeds.",
     ["fault_sequences", "histories"],
     "every position and kind of solver failure within a request, including after a closed-form attempt has already modified the point",
     "Tests never make the solver fail.",
     ["lips/particles_variety.py", "lips/algebraic_geometry/particles_singular_variety.py"],
     [("backup and restore around the closed-form attempt", "lips/particles_variety.py: variety"), ("update only after the solver answered", "lips/algebraic_geometry/particles_singular_variety.py: _singular_variety")],
     "all representations of all legs before the call, after the failed call and after the retry")

prop("S01", "All representations of a momentum agree after any history",
     "After any sequence of completed operations on a particle - assigning any of its representations (spinors with index up or down, rank-two spinors, four-momenta), randomising, exchanging chiralities, adding, scaling, changing number field - all representations it reports describe the same momentum (rank-one spinors: of massless momenta). A representation that cannot be given for the current momentum is reported as absent, never as a leftover of an earlier one.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every sequence of mutators in every number field and spinor convention, including degenerate momenta forced by the random stream and operations that fail or are interrupted in between on other particles",
     "Tests check single conversions on generic random momenta; stale or inconsistent representations need sequences of assignments and degenerate values.",
     ["lips/particle.py"],
     [("setters", "lips/particle.py: property setters of Particle"), ("conversions", "lips/particle.py: private _x_to_y methods"), ("field change", "lips/particle.py: Particle.to_field")],
     "all public representation attributes of the particle")

prop("S02", "Generated points conserve momentum and stay massless",
     "Every phase-space point that construction, randomisation, twistor randomisation, momentum-conservation repair, chirality exchange or relabelling returns has zero total momentum and massless legs (real ones when real momenta were requested), also when the random stream yields degenerate or repeated values. When degenerate draws make an operation raise, a later randomisation of the same point with ordinary draws restores a valid point.",
     ["histories", "inputs", "fault_sequences"],
     "every random stream, including adversarial ones (zeros, extremes, repeats), every sequence of these operations, every number field and multiplicity",
     "Tests draw a few generic points; degenerate draws have negligible probability under the real generator.",
     ["lips/particles.py", "lips/particle.py"],
     [("momentum conservation repair", "lips/particles.py: Particles.fix_mom_cons"), ("construction", "lips/particles.py: Particles.__init__"), ("randomisation", "lips/particles.py: randomise_all, randomise_twistor; lips/particle.py: randomise*")],
     "total momentum and masses recomputed from the reported spinors and four-momenta")

prop("S03", "Slices satisfy the constraints for every parameter value",
     "When building a univariate or bivariate slice returns, momentum conservation and every extra constraint hold identically in the slice parameters, and the slice genuinely depends on them, at most linearly in each spinor bracket for the default algorithm in one parameter; substituting values for the parameters gives exactly the numerical point on the slice. Building a slice needs only a bounded number of solver calls once the solver answers, and raises if the solver fails or if no such slice is found.",
     ["inputs", "fault_sequences", "histories"],
     "every multiplicity, constraint set, seed (or none) and solver fault sequence, including solver answers that must be retried",
     "Tests build three slices with one seed and a healthy solver and check nothing about bivariate slices.",
     ["lips/particles_slices.py"],
     [("slice construction and retry loop", "lips/particles_slices.py: univariate_slice, bivariate_slice"), ("substitution", "lips/particles.py: Particles.subs")],
     "polynomials in the slice parameters obtained from the spinors after the call")

prop("T01", "Evaluation is pure, concurrent-safe and never stale",
     "Evaluating spinor expressions on a point gives the value defined by the point's current components: the same from any number of threads evaluating on shared points in any interleaving, after any history of earlier evaluations, modifications and interrupted evaluations. Evaluation changes neither the point, nor other points, nor process-wide state such as the random stream and the working precision.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of evaluating threads at source-line granularity, every interruption point, every history of evaluations and modifications",
     "Tests evaluate from one thread, once per point; races, stale memoisation and side effects need interleavings and histories.",
     ["lips/particles_compute.py", "lips/particles_eval.py", "lips/tools.py"],
     [("evaluation of single expressions", "lips/particles_compute.py: compute"), ("expression parser", "lips/particles_eval.py: _parse, _eval, ast_eval_expr")],
     "returned values, component arrays of all points, random state, precision")

prop("D01", "Derived points are exact and independent of their source",
     "Relabelling, conjugating, copying, clustering or serialising a phase-space point yields a point with exactly the prescribed legs, momenta, masses and evaluation results, equal to another point exactly if all legs agree, and leaves the source untouched, even when interrupted. Afterwards no modification of any point, including in-place ones and changes of its masses, is visible through any other point.",
     ["histories", "fault_sequences", "schedules"],
     "every history of derivations and modifications over a population of points, with interruptions inside derivations",
     "Tests derive once and compare at once; aliasing shows only after a later modification of one of the two.",
     ["lips/particles.py", "lips/particle.py"],
     [("relabelling and copy", "lips/particles.py: image, copy"), ("clustering", "lips/particles.py: cluster; lips/particle.py: __add__, __radd__, __copy__"), ("masses", "lips/particles.py: internal_masses handling"), ("equality and hash", "lips/particles.py, lips/particle.py: __eq__, __hash__")],
     "legs, masses and evaluation results of all live points against a reference model")

prop("H01", "Points survive hand-off between processes",
     "A phase-space point serialised in one process and loaded in another - with another hash seed, spinor convention or random state, delivered twice, late or out of order - has identical components, masses and evaluation results, compares equal to itself sent back and forth, and in every process hashes like every point with the same components. A message cut short in transit raises instead of yielding a point.",
     ["histories", "schedules", "configurations", "fault_sequences"],
     "every routing of points through a network of interpreter processes with duplication, delay, reordering, truncation and process restarts",
     "Tests pickle in one process; per-process state (hash seed, conventions, caches) is invisible there.",
     ["lips/particles.py", "lips/particle.py"],
     [("state of a point", "lips/particles.py, lips/particle.py: instance attributes"), ("hash and equality", "lips/particles.py, lips/particle.py: __hash__, __eq__")],
     "components, expression values, equality and hash in every process")

prop("I01", "Ideal verdicts are right or raised, never guessed",
     "Membership, equality, containment and permutation-image questions about Lorentz-covariant and invariant ideals get the mathematically correct answer, or an exception when the algebra system times out, reports an error or is missing. After such a failure the same objects answer the same question correctly once the algebra system works.",
     ["fault_sequences", "histories", "inputs"],
     "every history of questions interleaved with solver timeouts, error reports and missing-binary faults",
     "Tests ask each question once with a healthy solver; cached partial state after a failure is never exercised.",
     ["lips/algebraic_geometry/covariant_ideal.py", "lips/algebraic_geometry/invariant_ideal.py", "lips/algebraic_geometry/tools.py"],
     [("covariant ideals and membership", "lips/algebraic_geometry/covariant_ideal.py: LipsIdeal"), ("invariant ideals", "lips/algebraic_geometry/invariant_ideal.py: SpinorIdeal"), ("images under symmetries", "covariant_poly_image, invariant_poly_image")],
     "truth values, generators and dimensions returned")

# --- pure-function properties: listed for completeness, not claimed (see MANIFEST not_applicable)

prop("E01", "Every spelling of an expression evaluates alike",
     "All documented notations of the same expression (ASCII and unicode brackets, optional separators, LaTeX fractions, unicode powers, implicit multiplication) parse to the same value, and malformed expressions are rejected.",
     ["inputs"], "every expression in the accepted grammar", "Tests sample a few dozen strings.",
     ["lips/particles_eval.py", "lips/particles_compute.py", "lips/tools.py"],
     [("grammar", "lips/particles_eval.py: _parse")], "returned values")

prop("L01", "The generated invariants are independent and complete",
     "For every multiplicity the generated list contains no two invariants equal up to a constant and no invariant that factorises into others, and contains every spinor factor expected in tree and one-loop amplitudes.",
     ["inputs"], "every multiplicity and option set", "Tests check lengths only.",
     ["lips/invariants.py"], [("generation", "lips/invariants.py: all_strings, Purge3Brackets, Purge4Brackets")], "the lists")

prop("M01", "Symmetry helpers form the permutation group",
     "Inverses compose to the identity, the enumeration of symmetries compatible with given phase weights is exactly the stabiliser of the weights up to conjugation, and the identity leaves everything unchanged.",
     ["inputs"], "every multiplicity and phase-weight vector", "Tests use one or two vectors.",
     ["lips/symmetries.py"], [("symmetries", "lips/symmetries.py: inverse, identity, phase_weights_compatible_symmetries")], "returned tuples")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
