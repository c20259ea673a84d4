"""Logical clock: import before the code under test.  While `active`, time.monotonic() is a counter."""
import time
from .core import Tick

_real = {n: getattr(time, n) for n in ("monotonic", "time", "perf_counter", "monotonic_ns", "time_ns")}
active = False
_n = 0


def _mono():
    global _n
    if not active:
        return _real["monotonic"]()
    _n += 1
    return Tick(_n)


time.monotonic = _mono


def on():
    global active
    active = True


def real_time():
    return _real["time"]()
