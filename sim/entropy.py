"""Simulated system entropy: every source of OS randomness a process can reach becomes a seeded stream of its own."""
import hashlib
import os
import random
import tempfile


class Stream:
    def __init__(self, name):
        self.name, self.n, self.draws = name, 0, 0

    def bytes(self, k):
        out = b""
        while len(out) < k:
            out += hashlib.sha256(f"entropy|{self.name}|{self.n}".encode()).digest()
            self.n += 1
        self.draws += 1
        return out[:k]


stream = None
_real_method_seed = random.Random.seed
_real_urandom = os.urandom


def install(name):
    """From here on this process draws its entropy from the stream `name`."""
    global stream
    stream = Stream(name)

    def urandom(k):
        return stream.bytes(k)
    os.urandom = urandom
    random._urandom = urandom

    def method_seed(self, a=None, version=2):
        if a is None and type(self) is not random.SystemRandom:
            a = int.from_bytes(stream.bytes(32), "big")
        return _real_method_seed(self, a, version)
    random.Random.seed = method_seed
    random.seed = random._inst.seed = method_seed.__get__(random._inst)

    def getrandbits(self, k):
        return int.from_bytes(stream.bytes((k + 7) // 8), "big") >> (-k % 8)
    random.SystemRandom.getrandbits = getrandbits
    random.SystemRandom.random = lambda self: getrandbits(self, 53) / (1 << 53)
    random.seed()
    tempfile._name_sequence = None
    try:
        import numpy
        numpy.random.seed(int.from_bytes(stream.bytes(4), "big"))
    except Exception:           # noqa
        pass


def switch(name):
    """A forked process: the kernel gives it fresh entropy, but all Python-level generator states are inherited."""
    global stream
    stream = Stream(name)
