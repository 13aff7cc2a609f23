"""Deterministic multi-process file-system simulation.

Real forked processes run the library on a real scratch directory, but each one parks at every intercepted file-system
or database call and only the seeded scheduler in the parent lets it go on: exactly one process runs at any time.  At
any such point the parent can crash the process, make the call fail, cut a write short or deliver a KeyboardInterrupt.
"""
import builtins
import errno
import io
import json
import os
import random
import select
import sys
import time

from . import entropy

ERRNOS = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE, "EINTR": errno.EINTR,
          "ENOENT": errno.ENOENT}
AUDITED = {"open": 0, "os.mkdir": 0, "os.rename": 1, "os.remove": 0, "os.rmdir": 0, "os.listdir": 0, "os.scandir": 0,
           "os.truncate": 0, "os.link": 1, "os.symlink": 1, "os.chmod": 0}


class ChildSeam:
    """Installed in a child process: turns file-system calls below `root` into scheduling points."""

    def __init__(self, root, up, down, pid_alias):
        self.root, self.up, self.down = os.path.realpath(root), up, down
        self.busy = False
        self._write, self._read, self._exit = os.write, os.read, os._exit
        self._fstat = os.fstat
        self.pid_alias = pid_alias

    # -- protocol
    def send(self, obj):
        self._write(self.up, (json.dumps(obj) + "\n").encode())

    def recv(self):
        data = b""
        while not data.endswith(b"\n"):
            chunk = self._read(self.down, 4096)
            if not chunk:
                self._exit(9)
            data += chunk
        return data[:-1].decode()

    def event(self, kind, path="", forced=False):
        """Parks until scheduled; returns 'short' if a write has to be cut short, raises injected errors."""
        if self.busy:
            return None
        self.busy = True
        try:
            self.send({"ev": kind, "path": os.fsdecode(path) if isinstance(path, bytes) else str(path), "forced": forced})
            cmd = self.recv()
            if cmd == "go":
                return None
            if cmd == "crash":
                self._exit(137)
            if cmd == "interrupt":
                raise KeyboardInterrupt
            if cmd == "memory":
                raise MemoryError
            if cmd == "short":
                return "short"
            raise OSError(ERRNOS[cmd], os.strerror(ERRNOS[cmd]), str(path))
        finally:
            self.busy = False

    def inside(self, path):
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not isinstance(path, (str, os.PathLike)):
            return False
        path = os.fspath(path)
        if not isinstance(path, str):
            return False
        return path.startswith(self.root) or not path.startswith("/") and os.getcwd().startswith(self.root)

    # -- installation
    def install(self):
        seam = self

        def hook(name, args):
            if seam.busy or name not in AUDITED:
                return
            if name == "open" and not isinstance(args[0], (str, bytes, os.PathLike)):
                return
            path = args[0] if args else ""
            if isinstance(path, int):
                seam.event(name, "<fd>")
            elif seam.inside(path):
                if name == "open":
                    flags = args[2] if isinstance(args[2], int) else 0
                    name = "open.w" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else "open.r"
                seam.event(name, args[AUDITED.get(name, 0)] if name in ("os.rename",) else path)
        sys.addaudithook(hook)

        real_stat, real_osopen = os.stat, os.open

        def stat(path, *a, **k):
            if not seam.busy and isinstance(path, (str, os.PathLike)) and seam.inside(path):
                seam.event("stat", path)
            return real_stat(path, *a, **k)
        os.stat = stat

        real_access = os.access

        def access(path, *a, **k):
            if not seam.busy and seam.inside(path):
                seam.event("access", path)
            return real_access(path, *a, **k)
        os.access = access

        real_write = os.write

        def write(fd, data):
            if fd in (seam.up, 1, 2):
                return real_write(fd, data)
            if seam.event("os.write", "<fd>") == "short":
                real_write(fd, bytes(data)[:len(data) // 2])
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            return real_write(fd, data)
        os.write = write
        for name in ("fsync", "fdatasync"):
            real = getattr(os, name)

            def synced(fd, _real=real, _name=name):
                seam.event(_name, "<fd>")
                return _real(fd)
            setattr(os, name, synced)

        real_open = io.open

        def sim_open(file, mode="r", *a, **k):
            f = real_open(file, mode, *a, **k)
            if isinstance(file, (str, os.PathLike)) and seam.inside(file) and any(c in mode for c in "wax+"):
                return FileProxy(f, seam, os.fspath(file))
            return f
        builtins.open = io.open = sim_open

        import dbm
        real_dbm = dbm.open

        def dbm_open(file, flag="r", mode=0o666):
            seam.event(f"dbm.open.{flag}", file)
            return DbmProxy(real_dbm(file, flag, mode), seam, str(file))
        dbm.open = dbm_open

        import fcntl
        for name in ("flock", "lockf"):
            real = getattr(fcntl, name)

            def lock(fd, op, *a, _real=real, _name=name):
                if op & fcntl.LOCK_UN:
                    return _real(fd, op, *a)
                seam.event(_name, "<fd>")
                while True:
                    try:
                        return _real(fd, op | fcntl.LOCK_NB, *a)
                    except (BlockingIOError, PermissionError):
                        if op & fcntl.LOCK_NB:
                            raise
                        seam.event("blocked", "<fd>", forced=True)
            setattr(fcntl, name, lock)

        def sleep(dt):
            seam.event("sleep", dt, forced=True)
        time.sleep = sleep
        alias = self.pid_alias
        os.getpid = lambda: alias


class FileProxy:
    """A file opened for writing: its writes and its close are scheduling points."""

    def __init__(self, f, seam, path):
        self.__dict__.update(_f=f, _seam=seam, _path=path)

    def write(self, data):
        if self._seam.event("write", self._path) == "short":
            self._f.write(data[:len(data) // 2])
            self._f.flush()
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self._path)
        return self._f.write(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        self._seam.event("flush", self._path)
        return self._f.flush()

    def close(self):
        if not self._f.closed:
            try:
                self._seam.event("close", self._path)
            except BaseException:
                self._f.close()
                raise
        return self._f.close()

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *exc):
        self.close()
        return None

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __setattr__(self, name, value):
        setattr(self._f, name, value)


class DbmProxy:
    """A database handle: lookups, stores and close are scheduling points."""

    def __init__(self, db, seam, path):
        self.__dict__.update(_db=db, _seam=seam, _path=path)

    def __getitem__(self, key):
        self._seam.event("dbm.get", self._path)
        return self._db[key]

    def __setitem__(self, key, value):
        if self._seam.event("dbm.set", self._path) == "short":
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self._path)
        self._db[key] = value

    def __delitem__(self, key):
        self._seam.event("dbm.del", self._path)
        del self._db[key]

    def __contains__(self, key):
        return key in self._db

    def get(self, key, default=None):
        self._seam.event("dbm.get", self._path)
        return self._db[key] if key in self._db else default

    def keys(self):
        return self._db.keys()

    def __len__(self):
        return len(self._db.keys())

    def __iter__(self):
        return iter(self._db.keys())

    def close(self):
        try:
            self._seam.event("dbm.close", self._path)
        except BaseException:
            self._db.close()
            raise
        return self._db.close()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __getattr__(self, name):
        return getattr(self._db, name)


class Namer:
    """Canonical names: temporary names, pids and the like become #1, #2... in order of first appearance."""

    def __init__(self, root, stable):
        self.root, self.stable, self.ids = os.path.realpath(root), stable, {}

    def __call__(self, path):
        if path.startswith(self.root):
            path = path[len(self.root):].lstrip("/")
        return "/".join(self.part(p) for p in path.split("/") if p)

    def part(self, p):
        if p in self.stable or p.startswith("n=") or p == "<fd>":
            return p
        return self.ids.setdefault(p, f"#{len(self.ids)}")


class ProcSim:
    """One phase: processes run to completion under a preemption list and a fault list.

    sched: list of [step, process]; at that step the given process continues instead of the current one.
    faults: list of [process, k, kind]; the k-th scheduling point of that process fails that way.
    """

    def __init__(self, ctx, root, sched=(), faults=(), namer=None, seed=0, on_step=None, on_msg=None, max_steps=6000, setup=None):
        self.ctx, self.root = ctx, root
        self.sched = {}
        for s, t in sched:
            self.sched.setdefault(s, t)
        self.faults = {(p, k): kind for p, k, kind in faults}
        self.namer = namer or Namer(root, set())
        self.seed, self.on_step, self.on_msg, self.max_steps, self.setup = seed, on_step, on_msg, max_steps, setup
        self.procs = []
        self.step = 0

    def spawn(self, fn):
        idx = len(self.procs)
        ur, uw = os.pipe()
        dr, dw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(ur)
                os.close(dw)
                for p in self.procs:
                    os.close(p["ur"])
                    os.close(p["dw"])
                seam = ChildSeam(self.root, uw, dr, 100000 + idx + 1000 * self.seed % 100000)
                entropy.install(f"{self.seed}|{idx}")
                if self.setup:
                    self.setup(idx)
                seam.send({"ev": "start", "path": "", "forced": False})
                if seam.recv() != "go":
                    os._exit(137)
                seam.install()
                try:
                    res = {"ok": fn(seam)}
                except KeyboardInterrupt:
                    res = {"exc": "KeyboardInterrupt"}
                except BaseException as e:      # noqa
                    import traceback
                    res = {"exc": type(e).__name__, "msg": traceback.format_exc()[-800:]}
                seam.busy = True
                seam.send({"done": res})
            finally:
                os._exit(0)
        os.close(uw)
        os.close(dr)
        self.procs.append({"pid": pid, "ur": ur, "dw": dw, "buf": b"", "state": "new", "at": "start", "k": 0, "res": None, "forced": False, "wake": 0.0})
        self.read_msg(idx)                      # the start event
        return idx

    def read_msg(self, idx):
        p = self.procs[idx]
        while True:
            while b"\n" not in p["buf"]:
                chunk = os.read(p["ur"], 1 << 16)
                if not chunk:
                    _, status = os.waitpid(p["pid"], 0)
                    os.close(p["ur"])
                    os.close(p["dw"])
                    if p["res"] is None:
                        p["res"] = {"died": status if p.get("cmd") != "crash" else "crash"}
                    p["state"] = "dead"
                    self.ctx.log("P", idx, "end", p["res"].get("exc") or p["res"].get("died") or "ok")
                    return
                p["buf"] += chunk
            line, p["buf"] = p["buf"].split(b"\n", 1)
            msg = json.loads(line)
            if "done" in msg:
                p["res"] = msg["done"]
            elif "note" in msg:
                if self.on_msg:
                    self.on_msg(idx, msg["note"])
                os.write(p["dw"], b"go\n")
            else:
                p["at"], p["path"], p["forced"] = msg["ev"], self.namer(msg["path"]), msg["forced"]
                p["state"] = "parked"
                if msg["ev"] == "sleep":
                    p["wake"] = self.ctx.vtime + float(msg["path"] or 0)
                return

    def run(self):
        cur = 0
        while True:
            alive = [i for i, p in enumerate(self.procs) if p["state"] != "dead"]
            if not alive:
                break
            if cur not in alive:
                cur = alive[0]
            if self.procs[cur]["forced"] and len(alive) > 1:
                cur = alive[(alive.index(cur) + 1) % len(alive)]
            want = self.sched.get(self.step)
            if want is not None:
                tgt = alive[want % len(alive)]
                if tgt != cur:
                    self.ctx.switches += 1
                cur = tgt
            if self.step >= self.max_steps:
                for i in alive:
                    self.command(i, "crash")
                return "step-limit"
            p = self.procs[cur]
            if p["wake"] > self.ctx.vtime:
                self.ctx.vtime = p["wake"]
            cmd = self.faults.get((cur, p["k"]), "go") if p["k"] > 0 else "go"
            if cmd == "short" and p["at"] not in ("write", "os.write", "dbm.set"):
                cmd = "ENOSPC"
            self.ctx.log(self.step, "P", cur, p["at"], p.get("path", ""), cmd)
            if cmd != "go":
                self.ctx.fault(cmd if cmd == "crash" else f"{cmd}@{p['at'].split('.')[0]}")
            self.ctx.vtime += 0.001
            self.command(cur, cmd)
            self.step += 1
            self.ctx.steps += 1
            if self.on_step:
                self.on_step(self)
        return "done"

    def command(self, idx, cmd):
        p = self.procs[idx]
        p["k"] += 1
        p["cmd"] = cmd
        os.write(p["dw"], cmd.encode() + b"\n")
        self.read_msg(idx)

    def kill_all(self):
        for i, p in enumerate(self.procs):
            if p["state"] != "dead":
                self.command(i, "crash")


def note(seam, obj):
    """Tells the parent something at once; nobody else runs before the parent has seen it."""
    seam.busy = True
    try:
        seam.send({"note": obj})
        seam.recv()
    finally:
        seam.busy = False


def preemptions(rng, nproc, horizon):
    """A random preemption list (swarm style: none, few, or dense)."""
    style = rng.choice(["none", "few", "few", "dense", "rr", "burst"])
    if nproc < 2 or style == "none":
        return []
    if style == "few":
        return sorted([rng.randrange(horizon), rng.randrange(nproc)] for _ in range(rng.randint(1, 4)))
    if style == "dense":
        p = rng.choice([0.1, 0.3, 0.6])
        return [[s, rng.randrange(nproc)] for s in range(horizon) if rng.random() < p]
    if style == "rr":
        k = rng.randint(1, 4)
        return [[s, s // k % nproc] for s in range(0, horizon, k)]
    a = rng.randrange(horizon)
    return [[s, rng.randrange(nproc)] for s in range(a, min(horizon, a + 25))]


def tear(rng_ops, files, ctx, namer):
    """Applies torn-write operations [file index, mode, fraction] to files (sorted list of paths)."""
    for op in rng_ops:
        if not files:
            return
        path = files[op["file"] % len(files)]
        try:
            size = os.path.getsize(path)
        except OSError:
            continue
        mode = op["mode"]
        if mode == "empty":
            os.truncate(path, 0)
        elif mode == "trunc":
            os.truncate(path, int(size * op["frac"]))
        elif mode == "truncpage":
            os.truncate(path, int(size * op["frac"]) // 4096 * 4096)
        elif mode == "zero":
            pages = max(1, (size + 4095) // 4096)
            k = int(op["frac"] * pages) % pages
            with open(path, "r+b") as f:
                f.seek(k * 4096)
                f.write(b"\0" * min(4096, size - k * 4096))
        elif mode == "zerotail":
            k = int(size * op["frac"]) // 4096 * 4096
            with open(path, "r+b") as f:
                f.seek(k)
                f.write(b"\0" * (size - k))
        elif mode == "drop":
            os.remove(path)
        elif mode == "record":                                      # a record that never reached the disk, or that an older writer did not know
            if not drop_record(path, op["frac"]):
                continue
        ctx.fault("torn-" + mode)
        ctx.log("tear", namer(path), mode, round(op["frac"], 3))


def drop_record(path, frac):
    import dbm
    base = path[:-3] if path.endswith(".db") else path[:-4] if path.endswith((".dat", ".dir", ".bak")) else path
    try:
        with dbm.open(base, "w") as db:
            keys = sorted(db.keys())
            if not keys:
                return False
            del db[keys[int(frac * len(keys)) % len(keys)]]
        return True
    except Exception:       # noqa
        return False


def gen_tears(rng):
    return [{"file": rng.randrange(6), "mode": rng.choice(["empty", "trunc", "truncpage", "zero", "zerotail", "drop", "record", "record"]), "frac": rng.random()}
            for _ in range(rng.choice([1, 1, 1, 2, 3]))]
