"""Real threads, one running at a time: every executed source line (or opcode) of the library is a scheduling point.

The plan's schedule is a list of [gap, thread]: after `gap` further scheduling points control moves to that thread (if it
can run).  Interrupts are [thread, its n-th scheduling point].  Locks created by library code are simulated.
"""
import gc
import sys
import threading
import types
import _thread

from .core import LIPS_DIR

_real_lock, _real_rlock = threading.Lock, threading.RLock
current = None


class Interrupted(KeyboardInterrupt):
    pass


class SimLock:
    """A lock whose waiting is a scheduling decision."""

    def __init__(self, reentrant=False):
        self.owner, self.depth, self.reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if current is None or not current.blocked():
                raise RuntimeError("deadlock: lock never released")
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.owner, self.depth = None, 0

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _factory(real, reentrant):
    def make(*a, **k):
        if sys._getframe(1).f_code.co_filename.startswith(LIPS_DIR):
            return SimLock(reentrant)
        return real(*a, **k)
    return make


def patch_locks():
    """Must run before the library is imported."""
    threading.Lock, threading.RLock = _factory(_real_lock, False), _factory(_real_rlock, True)


TOOL = 4
_codes = []


def lips_code():
    """All code objects of the library that are loaded."""
    if not _codes:
        seen, todo = set(), [f.__code__ for f in gc.get_objects() if type(f) is types.FunctionType]
        while todo:
            c = todo.pop()
            if id(c) not in seen and c.co_filename.startswith(LIPS_DIR):
                seen.add(id(c))
                _codes.append(c)
                todo += [k for k in c.co_consts if type(k) is types.CodeType]
    return _codes


class Deadlock(Exception):
    pass


class Threads:
    def __init__(self, ctx, bodies, sched=(), interrupts=(), opcodes=False, limit=20_000_000):
        self.ctx, self.bodies, self.opcodes, self.limit = ctx, bodies, opcodes, limit
        self.sched = [list(e) for e in sched]
        self.cuts = {}
        for t, k in interrupts:
            self.cuts.setdefault(t, set()).add(k)
        n = len(bodies)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.steps = [0] * n
        self.errors = [None] * n
        self.active = [False] * n
        self.main = threading.Semaphore(0)
        self.running = 0
        self.gap = self.sched[0][0] if self.sched else None
        self.idents = {}
        self.total = 0
        self.trace_digest = []

    # called in the running thread
    def point(self, tid):
        self.steps[tid] += 1
        self.total += 1
        if self.total > self.limit:
            raise Deadlock("step limit")
        if self.gap is not None:
            self.gap -= 1
            if self.gap <= 0:
                target = self.sched.pop(0)[1] % len(self.bodies)
                self.gap = self.sched[0][0] if self.sched else None
                if target != tid and not self.done[target]:
                    self.switch(tid, target)
        if self.steps[tid] in self.cuts.get(tid, ()):
            self.ctx.fault("interrupt")
            raise Interrupted()

    def switch(self, tid, target):
        self.ctx.switches += 1
        self.ctx.log("switch", tid, target, self.steps[tid])
        self.running = target
        self.sems[target].release()
        self.sems[tid].acquire()

    def blocked(self):
        """The running thread waits for a lock: somebody else must run."""
        tid = self.running
        others = [t for t in range(len(self.bodies)) if t != tid and not self.done[t]]
        if not others:
            return False
        self.total += 1
        if self.total > self.limit:
            return False
        self.switch(tid, others[self.total % len(others)])
        return True

    # instrumentation is set up once, before any thread runs, and never changed while one does: toggling sys.settrace in
    # one thread while another is suspended inside the same code crashes CPython 3.12
    def instrument(self):
        mon = sys.monitoring
        ev = mon.events.LINE | (mon.events.INSTRUCTION if self.opcodes else 0)
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, "lipsim")
        for code in lips_code():
            mon.set_local_events(TOOL, code, ev)
        mon.register_callback(TOOL, mon.events.LINE, self.on_event)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, self.on_event)

    def on_event(self, code, where):
        tid = self.idents.get(_thread.get_ident())
        if tid is not None and self.active[tid]:
            self.point(tid)

    def run_one(self, tid):
        self.idents[_thread.get_ident()] = tid
        self.sems[tid].acquire()
        try:
            self.bodies[tid](self, tid)
        except BaseException as e:      # noqa
            self.errors[tid] = e
        self.done[tid] = True
        rest = [t for t in range(len(self.bodies)) if not self.done[t]]
        if rest:
            self.running = rest[0]
            self.sems[rest[0]].release()
        else:
            self.main.release()

    def traced(self, tid, fn):
        """Runs fn() as simulated code of thread tid; returns (status, value)."""
        self.active[tid] = True
        try:
            out = fn()
            return "done", out
        except Interrupted:
            return "interrupted", None
        except Deadlock:
            raise
        except Exception as e:      # noqa
            return "raised", e
        finally:
            self.active[tid] = False

    def run(self):
        global current
        current = self
        self.instrument()
        ts = [threading.Thread(target=self.run_one, args=(t,), daemon=True) for t in range(len(self.bodies))]
        for t in ts:
            t.start()
        self.running = 0
        self.sems[0].release()
        self.main.acquire()
        for t in ts:
            t.join()
        current = None
        self.ctx.steps += self.total
        for e in self.errors:
            if e is not None:
                raise e


def gen_sched(rng, threads, length=None):
    """Mixtures of long undisturbed stretches and dense switching."""
    n = rng.choice((0, 1, 2, 4, 8, 20, 50)) if length is None else length
    mode = rng.choice(("dense", "sparse", "mixed"))
    out = []
    for _ in range(n):
        gap = {"dense": rng.randint(1, 12), "sparse": rng.randint(1, 400), "mixed": rng.choice((rng.randint(1, 6), rng.randint(1, 200)))}[mode]
        out.append([gap, rng.randrange(threads)])
    return out
