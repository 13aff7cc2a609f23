"""Interpreter nodes: separately started interpreters with their own hash seed, which fork one child per session.

The simulator owns every message: a node only runs while it answers a call, so the interleaving of nodes is the order in
which the plan calls them.
"""
import json
import os
import signal
import struct
import subprocess
import sys

from .core import PYTHON

HASHSEEDS = ("0", "1", "424242")


def read_exact(fd, n):
    out = b""
    while len(out) < n:
        chunk = os.read(fd, n - len(out))
        if not chunk:
            raise EOFError
        out += chunk
    return out


def read_frame(fd):
    return read_exact(fd, struct.unpack(">Q", read_exact(fd, 8))[0])


def write_frame(fd, data):
    view = memoryview(struct.pack(">Q", len(data)) + data)
    while view:
        view = view[os.write(fd, view):]


class Node:
    """Handle, used in the simulator."""

    def __init__(self, hashseed, extra_env=None):
        self.hashseed = hashseed
        env = dict(os.environ, PYTHONHASHSEED=hashseed, **(extra_env or {}))
        self.p = subprocess.Popen([PYTHON, "-m", "sim.nodes"], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, start_new_session=True, bufsize=0)
        self.w, self.r = self.p.stdin.fileno(), self.p.stdout.fileno()

    def wait_ready(self):
        assert read_frame(self.r) == b"ready"

    def raw(self, obj):
        write_frame(self.w, json.dumps(obj).encode())
        return json.loads(read_frame(self.r))

    def start(self, entropy, cwd):
        self.raw({"op": "start", "entropy": entropy, "cwd": cwd})

    def call(self, fn, *args):
        """Calls module:function in the running session; returns ('ok', value) or ('exc', type, text)."""
        return self.raw({"op": "call", "fn": fn, "args": args})

    def stop(self):
        self.raw({"op": "stop"})

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()


def start_nodes(seeds=HASHSEEDS):
    nodes = [Node(s) for s in seeds]
    for n in nodes:
        n.wait_ready()
    return nodes


def serve():
    rfd, wfd = os.dup(0), os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    from . import common, entropy, nodefns      # noqa
    write_frame(wfd, b"ready")
    while True:
        try:
            msg = json.loads(read_frame(rfd))
        except EOFError:
            os._exit(0)
        if msg["op"] != "start":
            write_frame(wfd, b'["exc", "Protocol", "no session"]')
            continue
        pid = os.fork()
        if pid == 0:
            session(rfd, wfd, msg)
        _, status = os.waitpid(pid, 0)
        if status:
            write_frame(wfd, json.dumps(["exc", "NodeDied", str(status)]).encode())


def session(rfd, wfd, msg):
    import importlib
    import traceback
    from . import entropy
    entropy.install(msg["entropy"])
    os.makedirs(msg["cwd"], exist_ok=True)
    os.chdir(msg["cwd"])
    os.environ["HOME"] = msg["cwd"]
    write_frame(wfd, b'["ok", null]')
    while True:
        try:
            msg = json.loads(read_frame(rfd))
        except EOFError:
            os._exit(0)
        if msg["op"] == "stop":
            write_frame(wfd, b'["ok", null]')
            os._exit(0)
        try:
            mod, fn = msg["fn"].split(":")
            res = ["ok", getattr(importlib.import_module("sim." + mod), fn)(*msg["args"])]
        except BaseException as e:      # noqa
            res = ["exc", type(e).__name__, traceback.format_exc()[-1500:]]
        write_frame(wfd, json.dumps(res).encode())


if __name__ == "__main__":
    from sim.nodes import serve as _serve
    sys.exit(_serve())
