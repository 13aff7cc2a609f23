"""Sizes and descriptions of the checks (no library import here)."""

BASE_ASSUMPTIONS = ["sampling, not enumeration: a clean batch is evidence, not proof"]
INFO = {}
NOTES = {}        # property -> (technique, level note)


def add(prop, quick, thorough, cap=(240, 3000), limit=60, level="exploration", rule="", state="", real=(), stub=(), assumptions=(), shrink_s=60):
    INFO[prop] = {"runs": {"quick": quick, "thorough": thorough}, "cap": {"quick": cap[0], "thorough": cap[1]}, "limit": limit, "level": level,
                  "rule": rule, "state_measure": state, "real": list(real), "stub": list(stub), "assumptions": BASE_ASSUMPTIONS + list(assumptions),
                  "shrink_s": shrink_s}


DISK_REAL = ["lips.invariants (unmodified)", "shelve, dbm.ndbm / dbm.dumb, pickle", "kernel file system on a scratch directory", "one real process per simulated process"]
DISK_STUB = ["choice of the running process, crash points, call failures, short writes: seeded scheduler", "system entropy, pids, clock and sleep: simulated",
             "power loss: truncation / zeroed pages / lost files applied between phases"]
add("C01", 1500, 30000,
    rule="one run = 1-4 phases of 1-4 processes issuing 1-3 requests (n=3..6, option mixes) under a seeded preemption list, crash / call-failure list and torn "
         "writes between phases, or (every 75th run) requests from interpreters with other hash seeds and random streams (n=5..7); non-trivial = distinct event log with at least one fault, context switch or four events",
    state="hash of (file-system call at which each process is parked, canonical names of the files in the cache), sampled every third step",
    real=DISK_REAL, stub=DISK_STUB,
    assumptions=["reference = generation from scratch with no_cached=True in the same tree", "torn writes are truncations, zeroed 4096-byte pages, empty or lost files; flipped bits are not modelled",
                 "processes switch at file-system and database calls only; writes inside the C database library are atomic w.r.t. the schedule"])
add("C02", 700, 30000,
    rule="one run = 0-3 faulty phases, then racing fault-free requests, then a first and a repeated default request; non-trivial as in C01",
    state="as C01", real=DISK_REAL, stub=DISK_STUB,
    assumptions=["'answered from the cache' = fewer than a third of the Python calls of a request that bypasses it (n>=5) and no change of the cache files"])
add("C03", 1200, 40000,
    rule="one run = 1-3 phases of 1-4 processes saving 1-3 of fourteen distinct points (3 to 11 legs, components from 10**-400 to 10**400) under 1-2 names, with preemptions, crashes, failing and short writes, "
         "then one fault-free save per name; non-trivial as in C01",
    state="hash of (call at which each process is parked, canonical file names and whether each holds a whole point), at every step",
    real=["lips.particles.save_phase_space_point (unmodified)", "kernel file system on a scratch directory", "one real process per simulated process"],
    stub=["choice of the running process, crash points, call failures, short writes: seeded scheduler", "entropy, pids, clock: simulated"],
    assumptions=["a file is whole if every line parses and the set of components equals one of the points exactly at 300 digits",
                 "a save that overlaps another save under the same name may find its second slot already replaced by that save"])

TRUST = "Seeded sampling, not proof. "
NOTES["C01"] = ("seeded schedules, crashes, failing calls and torn writes over real processes sharing the cache; refinement against generation without cache",
                TRUST + "Trusts the file-system call interception (processes switch only there), the torn-write model and the uncached generator as reference.")
NOTES["C02"] = ("seeded crash and fault histories followed by bounded-progress checks (answer, then cached answer)",
                TRUST + "Cached answers are recognised by call counts against an uncached request; writes inside the C database library are atomic for the scheduler.")
NOTES["C03"] = ("seeded schedules, crashes and failing/short writes over real saving processes; history check that acknowledged points are never lost or mixed",
                TRUST + "Durability is against process crashes, failed and short writes, not power loss inside the kernel.")

add("S01", 6000, 400000, limit=60,
    rule="one run = 1-4 particles, 2-14 operations (assignments of generic, massive and degenerate values to any representation, arithmetic, copies, field and "
         "convention changes), scheduled degenerate random draws and interrupts at a source line; non-trivial as in C01",
    state="hash of (operation, field, convention, which representations of each particle are absent)",
    real=["lips.particle (unmodified)", "pyadic, mpmath, syngular.Field"], stub=["random stream: seeded with scheduled degenerate draws", "interrupts: trace events"],
    assumptions=["particles whose last operation was interrupted or raised are not judged until the next complete assignment",
                 "spinors of massive momenta are only required not to depend on the history"])
NOTES["S01"] = ("seeded histories of assignments with degenerate draws, failing and interrupted operations; invariant check of all representations after every step",
                TRUST + "Values are compared with formulas of the harness; mpc at 250 of 300 digits, p-adic to known precision.")

add("S02", 4000, 250000, limit=60,
    rule="one run = 1-8 generations, randomisations, repairs, conjugations and relabellings of points (n=3..11) over a random stream with scheduled zeros, "
         "extremes and repeats, interrupts inside operations, and a recovery phase with ordinary draws; non-trivial as in C01",
    state="hash of (operation, outcome, field, multiplicity, real or not)",
    real=["lips.particles, lips.particle (unmodified)", "pyadic, mpmath, syngular.Field"], stub=["random stream: seeded with scheduled degenerate draws", "interrupts: trace events"],
    assumptions=["an operation may raise only if a degenerate draw or an earlier failed operation can explain it, or the field is so small that ordinary draws are degenerate"])
NOTES["S02"] = ("seeded histories over an adversarial random stream with interrupts; validity of the point recomputed after every step, recovery once draws are ordinary",
                TRUST + "Totals and masses are recomputed by the harness from the reported components.")

add("T01", 2500, 150000, limit=90,
    rule="one run = 1-3 points, 1-3 phases of modifications followed by 1-4 threads with 1-5 evaluations each, preempted at source lines (or opcodes) of the "
         "library by a seeded list, with interrupts inside evaluations; non-trivial as in C01",
    state="hash of (threads, scheduling points reached / 50, switches, points)",
    real=["lips evaluation code (unmodified), real threads", "pyadic, mpmath, numpy"],
    stub=["thread scheduler: one thread runs at a time, released by the plan", "interrupts: trace events", "locks created by the library: simulated"],
    assumptions=["threads switch at source lines or opcodes of the library only, not inside mpmath, numpy or pyadic", "values are compared with formulas of the harness"])
NOTES["T01"] = ("seeded thread schedules at source-line/opcode granularity with interrupts and modifications in between; values against a reference evaluator, purity of points and process state",
                TRUST + "Races inside dependencies (mpmath's global precision) are outside the scheduler.")
add("R01", 900, 60000, limit=120,
    rule="one run = 1-5 seeded generations (points over five kinds of field, with masses in any container, slices, points on varieties), each computed in a fresh interpreter and "
         "again in 1-3 other interpreter processes with other hash seeds and entropy after histories of draws, seedings, failing, interrupted and defaced calls",
    state="hash of (history operation, its outcome, interpreter)",
    real=["lips generation code (unmodified)", "pyadic, syngular, sympy", "Singular (answers memoised by command text)", "separately started interpreters with hash seeds 0, 1, 424242, one forked process per session"],
    stub=["system entropy: seeded streams", "interrupts: trace events", "solver errors in histories: scheduled"],
    assumptions=["hash seeds are sampled from three values", "the working precision is the one the Field object sets when it is built right before the generation"])
NOTES["R01"] = ("seeded histories across interpreter processes with different hash seeds and entropy; components compared exactly with those of a fresh process",
                TRUST + "The algebra system is real and assumed deterministic.")
add("R02", 2000, 150000, limit=60,
    rule="one run = a tree of 1-7 processes (forked or started anew, pids reused) generating unseeded points, points on surfaces and slices (each of these two twice) between seedings, seeded and interrupted generations, under a frozen or jumping clock",
    state="hash of (points made, distinct legs, faults)",
    real=["lips generation code (unmodified)", "real forked processes inheriting all Python state", "Singular for surfaces and slices"],
    stub=["system entropy: one seeded stream per process", "clock and process ids: simulated (frozen, jumping, reused)", "interrupts: trace events"],
    assumptions=["children run to completion one after the other", "the operating system's entropy never repeats"])
NOTES["R02"] = ("seeded process trees with forks, clock faults and pid reuse; no leg of an unseeded point may equal a leg of another one",
                TRUST + "Threads that seed the shared generator while another one generates are not claimed.")
add("H01", 3000, 60000, limit=90,
    rule="one run = 2-3 interpreter processes (different hash seeds, conventions, random states), 1-4 points, 3-14 steps: make, send, deliver (late, twice, out of order), cut, lose, restart, use",
    state="hash of (message form, deliveries of it, sender, receiver, messages in flight)",
    real=["lips points and their serialisation (unmodified)", "pickle, protocols 0-5", "separately started interpreters with hash seeds 0, 1, 424242"],
    stub=["network: seeded delivery order, duplication, loss, truncation, restarts", "system entropy: seeded streams"],
    assumptions=["sender and receiver run the same library version and precision", "points whose components are unhashable (symbolic) are compared without hashes"])
NOTES["H01"] = ("seeded exchanges of serialised points between interpreter processes over a faulty network; components, values, equality and hashes compared exactly", TRUST)
add("D01", 5000, 250000, limit=60,
    rule="one run = 1-2 points and 2-14 steps, each deriving a point (relabelling, conjugation, copies, serialisation, clustering with massive fermions; one in five interrupted) or modifying one of up to 7 live points",
    state="hash of (operation, number of live points, provenance of the last point)",
    real=["lips points (unmodified)", "copy, pickle, numpy"], stub=["interrupts: trace events", "system entropy: seeded stream"],
    assumptions=["slices ps[a:b], Particles([legs]) and copy.copy of a point share legs by design and are not derived points", "clustering may be refused where the field has no square root"])
NOTES["D01"] = ("seeded histories of derivations and modifications of a population of points with interrupts; derived components against the prescription, all other points unchanged after every step", TRUST)

SOLVER_REAL = ["lips (unmodified)", "syngular, sympy, pyadic, mpmath", "Singular for healthy calls (answers memoised by command text during a check)"]
SOLVER_STUB = ["the solver's process: scheduled time-outs, kills, errors, missing binary, failing spawns, truncated, empty and altered output", "solver latency: virtual clock against the caller's limit",
               "random stream and system entropy: seeded, with scheduled degenerate draws", "interrupts and failing allocations: trace events"]
add("V01", 2400, 120000, limit=120,
    rule="one run = 1-3 requests on points over C, finite fields and p-adic numbers: 40% answered by the algebra system under scheduled solver faults, 60% by closed forms (one or two invariants "
         "of ten kinds, n=4..7) under degenerate draws; a quarter with an interrupt or failing allocation at a source line",
    state="hash of (field, n, kinds of invariants, outcome, solver faults fired)", real=SOLVER_REAL, stub=SOLVER_STUB,
    assumptions=["values are recomputed with formulas of the harness from the reported components; over C within the field's tolerance"])
NOTES["V01"] = ("seeded solver failures, corrupted answers, degenerate draws and failing allocations inside requests; every returned point is re-verified independently", TRUST)

add("V02", 2000, 100000, limit=120,
    rule="one run = 1-2 requests; each attempted 1-3 times while the solver is down from some call on, or fails at single calls (half of them after a failing allocation left the closed-form "
         "solution half-way), and then repeated with a working solver",
    state="hash of (field, n, kinds of invariants, exception, first and last solver fault)", real=SOLVER_REAL, stub=SOLVER_STUB,
    assumptions=["only failures that the solver interface reports are covered: time-outs, errors, missing binary, failing spawns, halts and interrupts during a call"])
NOTES["V02"] = ("seeded solver outages inside requests on points; exact comparison of the point before and after, then bounded progress with a working solver", TRUST)
add("S03", 700, 50000, limit=300,
    rule="one run = 1-2 slices (univariate and bivariate covariant, univariate generic; n=4..7; no, one or three constraints; four finite fields, two of them small enough that coefficients vanish "
         "and the solution is retried) under solver outages, single failures and degenerate draws, then repeated with a working solver",
    state="hash of (kind, field, n, number of constraints, exception, first solver fault, solver calls)", real=SOLVER_REAL, stub=SOLVER_STUB,
    assumptions=["identities are tested at 14 parameter values per slice, more than the degree of any constraint used", "finite fields only"])
NOTES["S03"] = ("seeded solver outages and degenerate draws while slices are built; constraints re-evaluated along the slice by an independent polynomial evaluation, calls counted", TRUST)
add("I01", 3000, 200000, limit=120,
    rule="one run = 1-4 ideals (twelve kinds up to relabelling and conjugation, and ideals of components) and 2-6 questions (membership, equality, containment, images, sums, quotient rings, "
         "invariant slices, equivalence classes), each under solver failures or an interrupt and repeated with the same objects afterwards",
    state="hash of (question, kind of ideal, exception, answer, first solver fault)", real=SOLVER_REAL, stub=SOLVER_STUB,
    assumptions=["truth is known by construction (members) or by an exact rational point of the variety (non-members); undecided questions are not judged",
                 "failures that the solver interface reports only: time-outs, errors, missing binary, failing spawns, halts, interrupts"])
NOTES["I01"] = ("seeded solver failures and interrupts inside questions about ideals; verdicts against constructed members and rational witnesses, repeated after the failure", TRUST)
