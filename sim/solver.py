"""The algebra system behind a seam.

`syngular.tools.subprocess.Popen` and `shutil.which` are replaced by a simulated process table.  Healthy calls are
answered by the real Singular (memoised by command for the duration of one check run); the plan decides per call
whether it is slow (virtual clock against the caller's time limit), killed, erroneous, truncated, wrong or missing.
"""
import hashlib
import json
import os
import re
import subprocess as real_subprocess
import time

import syngular.tools

DEFAULT_LATENCY = 0.05
# faults that the solver interface reports as an exception
LOUD = ("timeout", "error", "missing", "oserror", "interrupt", "halt")
# faults after which the interface may hand out garbage
QUIET = ("killed", "empty", "trunc", "digit", "garbage", "coeff")


class Solver:
    def __init__(self, ctx, shared, faults=(), latency=None, interrupt=True):
        """faults: list of [call index, kind, parameter]; latency: list of [call index, simulated seconds]."""
        self.ctx, self.memo = ctx, os.path.join(shared, "memo")
        os.makedirs(self.memo, exist_ok=True)
        self.faults = {f[0]: (f[1], f[2] if len(f) > 2 else 0) for f in faults}
        self.latency = dict((latency or []))
        self.calls, self.fired, self.real_calls = 0, [], 0
        self.log = True
        self.calls_limit = None

    def install(self):
        shim = type("SubprocessShim", (), {})()
        for name in dir(real_subprocess):
            if not name.startswith("__"):
                setattr(shim, name, getattr(real_subprocess, name))
        shim.Popen = lambda *a, **k: FakeProcess(self, *a, **k)

        def run(cmd, *a, **k):
            return real_subprocess.run(cmd, *a, **dict(k, timeout=120))
        shim.run = run
        syngular.tools.subprocess = shim
        which = type("ShutilShim", (), {})()
        import shutil
        which.which = self.which
        for name in ("rmtree", "copy", "move"):
            setattr(which, name, getattr(shutil, name))
        syngular.tools.shutil = which
        return self

    def which(self, name, *a, **k):
        kind, _ = self.faults.get(self.calls, ("", 0))
        if kind == "missing":
            self.fire("missing")
            self.calls += 1
            return None
        return "/usr/bin/" + name

    def fire(self, kind):
        self.fired.append((self.calls, kind))
        self.ctx.fault("solver-" + kind)

    def healthy(self, command):
        key = hashlib.sha256(command.encode()).hexdigest()
        path = os.path.join(self.memo, key)
        try:
            with open(path) as f:
                out, err = json.load(f)
        except (OSError, ValueError):
            p = real_subprocess.Popen(["timeout", "--verbose", "240", "Singular", "--quiet", "--execute", command] if len(command) < 131072 else
                                      ["timeout", "--verbose", "240", "Singular", "--quiet"],
                                      stdin=real_subprocess.PIPE, stdout=real_subprocess.PIPE, stderr=real_subprocess.PIPE)
            o, e = p.communicate(None if len(command) < 131072 else command.encode())
            out, err = o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
            self.real_calls += 1
            if "timeout" not in err:
                tmp = f"{path}.{os.getpid()}.{time.monotonic_ns()}"
                with open(tmp, "w") as f:
                    json.dump([out, err], f)
                os.replace(tmp, path)
        return out, err

    def answer(self, argv):
        """Returns (stdout, stderr, simulated seconds)."""
        i, self.calls = self.calls, self.calls + 1
        limit = float(argv[argv.index("--verbose") + 1]) if "--verbose" in argv else float("inf")
        command = argv[-1]
        if "--execute" not in argv:                                  # command file
            with open(command) as f:
                command = f.read()
        kind, param = self.faults.get(i, ("", 0))
        secs = self.latency.get(i, DEFAULT_LATENCY)
        if self.calls_limit is not None and self.calls > self.calls_limit:
            raise CallLimit(f"{self.calls} solver calls")
        if kind == "timeout" or secs > limit:
            if kind != "timeout":
                kind = "slow"
            self.fired.append((i, kind))
            self.ctx.fault("solver-" + ("timeout" if kind == "timeout" else "slow-timeout"))
            return "", "timeout: sending signal TERM to command 'Singular'\n", limit
        if kind == "halt":
            self.fire_at(i, kind)
            return "halt 14\n", "", limit
        if kind == "error":
            self.fire_at(i, kind)
            return "   ? `foo` is not defined\n   ? error occurred in or before STDIN line 3: `ideal i = foo;`\n", "", secs
        if kind in ("killed", "empty"):
            self.fire_at(i, kind)
            return "", "" if kind == "empty" else "Killed\n", secs
        out, err = self.healthy(command)
        if kind == "trunc":
            self.fire_at(i, kind)
            return out[:int(len(out) * param)], err, secs
        if kind == "garbage":
            self.fire_at(i, kind)
            return "_[1]=1\n", err, secs
        if kind in ("digit", "coeff"):
            spots = [m.start() for m in re.finditer(r"(?<![A-Za-z_\[\d])\d", out)]
            if spots:
                self.fire_at(i, kind)
                k = spots[int(param * len(spots)) % len(spots)]
                out = out[:k] + str((int(out[k]) + 1 + int(param * 97) % 8) % 10) + out[k + 1:]
        return out, err, secs

    def fire_at(self, i, kind):
        self.fired.append((i, kind))
        self.ctx.fault("solver-" + kind)


class CallLimit(BaseException):
    """More solver calls than the bound; not an Exception, so that retry loops cannot swallow it."""


class FakeProcess:
    def __init__(self, solver, argv, *a, **k):
        self.solver, self.argv, self.pid, self.returncode = solver, list(map(str, argv)), 2 ** 30, None
        kind, _ = solver.faults.get(solver.calls, ("", 0))
        if kind == "oserror":
            solver.fire("oserror")
            solver.calls += 1
            raise OSError(11, "Resource temporarily unavailable")

    def communicate(self, input=None, timeout=None):
        s = self.solver
        kind, _ = s.faults.get(s.calls, ("", 0))
        if kind == "interrupt":
            s.fire("interrupt")
            s.calls += 1
            self.returncode = -15
            raise KeyboardInterrupt
        out, err, secs = s.answer(self.argv)
        s.ctx.vtime += secs
        self.returncode = 0
        s.ctx.log("solver", s.calls - 1, hashlib.sha256(self.argv[-1].encode()).hexdigest()[:8] if s.log else "", len(out))
        return out.encode(), err.encode()

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        return self.returncode

    def kill(self):
        pass

    terminate = kill
