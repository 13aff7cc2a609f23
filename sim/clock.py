"""Virtual wall clock and process ids for code that runs inside a simulated process."""
import datetime as _dt
import os
import time

_real_getpid = os.getpid


class Clock:
    def __init__(self, now=1.7e9):
        self.now, self.pid = now, 4321

    def install(self):
        t0 = self.now
        time.time = lambda: self.now
        time.time_ns = lambda: int(self.now * 1e9)
        for name in ("monotonic", "perf_counter", "process_time", "thread_time"):
            setattr(time, name, lambda: self.now - t0 + 1000)
            setattr(time, name + "_ns", lambda: int((self.now - t0 + 1000) * 1e9))
        os.getpid = lambda: self.pid
        clock = self

        class SimDateTime(_dt.datetime):
            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(clock.now, tz)

            @classmethod
            def utcnow(cls):
                return cls.fromtimestamp(clock.now, _dt.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return cls.fromtimestamp(clock.now)
        self.DateTime = SimDateTime
        real = _dt.datetime
        _dt.datetime = SimDateTime
        import sys
        for m in list(sys.modules.values()):            # names already imported by library modules
            if getattr(m, "__name__", "").split(".")[0] == "lips":
                for k, v in list(vars(m).items()):
                    if v is real:
                        setattr(m, k, SimDateTime)
                    elif callable(v) and getattr(v, "__module__", "") == "time" and hasattr(time, getattr(v, "__name__", "")):
                        setattr(m, k, getattr(time, v.__name__))
                    elif v is _real_getpid:
                        setattr(m, k, os.getpid)
        return self
