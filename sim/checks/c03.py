"""C03: saved phase-space points stay on disk, whole and exact."""
import os
import re

import numpy

from ..common import Field, lips, mpmath
from ..core import Violation
from ..procsim import Namer, ProcSim, note, preemptions

NAMES = ["", "⟨1|2⟩", "⟨2|1⟩", "[1|2]", "[2|1]", "s_123", "s_12", "⟨1|(2+3)|4]", "⟨2|(1+3)|4]", "tr5_1234"]
ERRS = ["ENOSPC", "ENOSPC", "EIO", "EACCES", "short", "short", "interrupt"]
NPTS = 14
_points = []


def points():
    """Distinct phase-space points, prepared before the simulation starts."""
    if not _points:
        F = Field("mpc", 0, 300)
        for i in range(10):
            _points.append(lips.Particles([4, 4, 5, 3, 6][i % 5], seed=1000 + i, field=F, real_momenta=i == 7))
        _points.append(lips.Particles(11, seed=1010, field=F))
        for i in (11, 12, 13):                                        # components of very different sizes, integers and zeros
            pt = lips.Particles(4, seed=1000 + i, field=F)
            for k, p in enumerate(pt):
                scale = mpmath.mpf(10) ** ((-1) ** k * (7, 40, 400)[i - 11])
                p.r_sp_d = p.r_sp_d * scale
                p.l_sp_d = p.l_sp_d * (mpmath.mpc(0, 1) / scale if k % 2 else 1 / scale)
            if i == 12:
                pt[1].r_sp_d = numpy.array([[mpmath.mpc(0)], [mpmath.mpc(-3)]], dtype=object)
                pt[2].l_sp_d = numpy.array([[mpmath.mpc(0, -1), mpmath.mpc(5, 0)]], dtype=object)
            _points.append(pt)
    return _points


def worker_init(shared):
    points()


def gen(rng, tier, index):
    names = rng.sample(NAMES, rng.choice([1, 1, 2, 2, 3]))
    if rng.random() < 0.3:
        names = rng.choice((["⟨1|2⟩", "⟨2|1⟩"], ["[1|2]", "⟨1|2⟩"], ["s_12", "s_123"], ["⟨1|(2+3)|4]", "⟨2|(1+3)|4]"], ["", "s_12"], ["[1|2]", "[2|1]"]))
    phases = []
    for ip in range(rng.choice([1, 1, 2, 3])):
        nproc = rng.choice([1, 2, 2, 3, 3, 4])
        procs = [{"ops": [[rng.randrange(NPTS), rng.choice(names)] for _ in range(rng.choice([1, 1, 2, 3]))]} for _ in range(nproc)]
        faults = []
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 1, 2])):
                faults.append([rng.randrange(nproc), rng.randint(1, 16), "crash" if rng.random() < 0.5 else rng.choice(ERRS)])
        phases.append({"procs": procs, "sched": preemptions(rng, nproc, 16 * nproc), "faults": faults})
    return {"seed": rng.randrange(10 ** 6), "tasks": phases}


NUM = r"[+-]*\s*(?:\d+(?:\.\d*)?|\.\d+)(?:(?:\*\^|e)[+-]?\d+)?"
LINE = re.compile(r"^Subscript\[(?P<sp>.*), (?P<i>\d+),(?P<c>[12])\] = (?P<re>" + NUM + r")(?P<im>" + NUM + r")\*?\s*I;$")


def number(text):
    sign = -1 if text.count("-") - text.count("*^-") - text.count("e-") == 1 else 1
    return sign * mpmath.mpf(text.lstrip("+- ").replace("*^", "e"))


def parse(path):
    """Spinor components in a file, as {(chirality, leg, component): mpc}; None if the file is not whole and well formed."""
    out = {}
    try:
        with open(path, encoding="utf-8") as f:
            text = f.read()
    except (OSError, UnicodeDecodeError):
        return None
    if not text.endswith("\n"):
        return None
    for line in text.split("\n"):
        if not line.strip():
            continue
        m = LINE.match(line.strip())
        if m is None:
            return None
        key = ("l" if "OverscriptBox" in m.group("sp") else "r", int(m.group("i")), int(m.group("c")))
        if key in out:
            return None
        out[key] = mpmath.mpc(number(m.group("re")), number(m.group("im")))
    return out


def expected(pt):
    out = {}
    for i, p in enumerate(list.__iter__(pt), 1):
        for c in (0, 1):
            out[("r", i, c + 1)] = p.r_sp_d[c, 0]
            out[("l", i, c + 1)] = p.l_sp_d[0, c]
    return out


def slot_one(name):
    table = str.maketrans({"⟨": "A", "⟩": "A", "[": "S", "]": "S", "|": "V"})
    return (name.translate(table) if name else "NoLimit") + "1.m"


def which(path, cache):
    """Index of the point a file holds exactly, or None."""
    try:
        st = os.stat(path)
    except OSError:
        return None
    key = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if key not in cache:
        got = parse(path)
        cache[key] = None
        if got:
            for i, pt in enumerate(points()):
                if got == expected(pt):
                    cache[key] = i
    return cache[key]


def execute(plan, ctx):
    mpmath.mp.dps = 300
    work = os.path.join(ctx.scratch, "work")
    os.makedirs(work)
    os.chdir(work)
    pts = points()
    namer = Namer(work, {"phase_space_cache"})
    cache = {}
    protected = {}                # file of the first point saved under a name -> point index
    acked_files = {}              # file -> set of point indices allowed in it (saves started under that name)
    started = {}                  # name -> list of point indices whose save has started
    acks = {}                     # name -> number of acknowledged saves
    pending = {}                  # process -> (name, point)
    interrupted = set()           # names with a save that failed or crashed

    def files():
        out = []
        for d, _, fs in os.walk(work):
            out += [os.path.join(d, f) for f in fs]
        return sorted(out)

    def scan(sim=None):
        now = files()
        for f, i in protected.items():
            got = which(f, cache)
            if got != i:
                raise Violation("first-point-altered", f"{os.path.basename(f)} held point {i} (the first point saved and acknowledged under its name), now {got}")
        for f, n in acked_files.items():
            got = which(f, cache)
            if got is None or got not in started[n]:
                raise Violation("acknowledged-file-damaged", f"{os.path.basename(f)} held an acknowledged point, now {'nothing whole' if got is None else got}")
        if sim is not None:
            ctx.state(";".join(p["at"] if p["state"] != "dead" else "x" for p in sim.procs),
                      ",".join(f"{namer(f)}:{which(f, cache) is not None}" for f in now))

    def on_msg(idx, msg):
        if msg[0] == "start":
            pending[idx] = (msg[2], msg[1])
            started.setdefault(msg[2], []).append(msg[1])
            starts[idx] = len(order)
        elif msg[0] == "ack":
            name, pt = msg[2], msg[1]
            pending.pop(idx, None)
            ctx.log("P", idx, "ack", pt, name)
            holders = [f for f in files() if which(f, cache) == pt]
            overlapped = any(n == name for n, _ in pending.values()) or any(n == name for n in order[starts[idx]:])
            if not holders and not overlapped:
                raise Violation("acknowledged-point-not-on-disk", f"process {idx} saved point {pt} under {name!r} and returned; no file holds it: " +
                                ", ".join(f"{os.path.basename(f)}={which(f, cache)}" for f in files()))
            if not holders and overlapped:
                # a concurrent save may have replaced the second slot, but then the point must have been replaced by a whole one
                ctx.probe("ack-already-replaced")
                if not any(which(f, cache) in started[name] for f in files()):
                    raise Violation("acknowledged-point-not-on-disk", f"process {idx}, point {pt} under {name!r}, and no whole point of that name either")
            for f in holders:
                if os.path.basename(f) == slot_one(name) or (
                        not acks.get(name) and name not in interrupted and not overlapped and len(holders) == 1):
                    protected.setdefault(f, pt)
                    ctx.probe("first-slot-protected")
            for f in holders:
                if f not in protected and (len(holders) == 1):
                    acked_files.setdefault(f, name)
            acks[name] = acks.get(name, 0) + 1
            order.append(name)
        else:
            ctx.log("P", idx, "fail", msg[1], msg[2], msg[3])
            interrupted.add(msg[2])
            pending.pop(idx, None)
            order.append(msg[2])
            ctx.probe("save-raised")

    def body(seam, ops):
        for i, name in ops:
            note(seam, ["start", i, name])
            try:
                pts[i].save_phase_space_point(name)
            except (Exception, KeyboardInterrupt) as e:      # noqa
                note(seam, ["fail", i, name, type(e).__name__])
            else:
                note(seam, ["ack", i, name])
        return len(ops)

    for ip, ph in enumerate(plan["tasks"]):
        order, starts = [], {}
        pending.clear()
        ctx.log("phase", ip)
        # fault-free saves must succeed
        sim = ProcSim(ctx, work, ph["sched"], ph["faults"], namer, seed=plan["seed"] * 10 + ip, on_step=scan, on_msg=on_msg)
        for proc in ph["procs"]:
            sim.spawn(lambda seam, ops=proc["ops"]: body(seam, ops))
        sim.run()
        scan()
        for n, _ in pending.values():
            interrupted.add(n)
        faulty = {p for p, k, kind in ph["faults"]}
        for i, p in enumerate(sim.procs):
            if p["res"] is None or ("ok" not in p["res"] and p["res"].get("died") != "crash"):
                if i not in faulty:
                    raise Violation("saver-died", f"process {i}: {p['res']}")
    # afterwards, without faults, a save must succeed and hold
    pending.clear()
    order, starts = [], {}
    for name in sorted(started):
        sim = ProcSim(ctx, work, [], [], namer, seed=plan["seed"] * 10 + 9, on_step=scan, on_msg=on_msg)
        before = acks.get(name, 0)
        sim.spawn(lambda seam: body(seam, [[len(started[name]) % NPTS, name]]))
        sim.run()
        scan()
        if acks.get(name, 0) != before + 1:
            raise Violation("fault-free-save-failed", f"saving under {name!r} after the faults stopped: {sim.procs[0]['res']}")
