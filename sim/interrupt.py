"""Interrupts: an exception raised at the k-th executed source line of the library inside a call."""
import sys

from .core import LIPS_DIR


class Interrupted(KeyboardInterrupt):
    pass


def interrupted_call(k, fn, exc=Interrupted):
    """Runs fn(); raises `exc` at the k-th line event inside the library.  Returns ('done', value), ('interrupted', None) or ('raised', e)."""
    count = [0]

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] == k:
                raise exc()
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(LIPS_DIR):
            return local
        return None
    sys.settrace(tracer)
    try:
        out = fn()
        sys.settrace(None)
        return "done", out
    except exc:
        sys.settrace(None)
        return "interrupted", None
    except Exception as e:      # noqa
        sys.settrace(None)
        return "raised", e
    finally:
        sys.settrace(None)
