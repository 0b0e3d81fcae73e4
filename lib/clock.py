"""A virtual clock and freshly imported library modules, so that cache state and time are part of the case."""
import contextlib
import importlib
import sys
import time


class Clock:
    def __init__(self, now=1.6e9):
        self.now = now

    def advance(self, dt):
        self.now += dt


@contextlib.contextmanager
def fresh(*names, start=1.6e9):
    """Yields (clock, module, ...) with `names` imported anew under the virtual clock."""
    clock = Clock(start)
    saved_time = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'time_ns', 'monotonic_ns')}
    saved_mods = {n: m for n, m in sys.modules.items() if n == 'bit' or n.startswith('bit.')}
    time.time = lambda: clock.now
    time.monotonic = lambda: clock.now - 1.5e9
    time.perf_counter = lambda: clock.now - 1.5e9
    time.time_ns = lambda: int(clock.now * 10 ** 9)
    time.monotonic_ns = lambda: int((clock.now - 1.5e9) * 10 ** 9)
    try:
        for n in saved_mods:
            del sys.modules[n]
        yield (clock,) + tuple(importlib.import_module(n) for n in names)
    finally:
        for n in [n for n in sys.modules if n == 'bit' or n.startswith('bit.')]:
            del sys.modules[n]
        sys.modules.update(saved_mods)
        for n, f in saved_time.items():
            setattr(time, n, f)
