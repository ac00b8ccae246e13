"""Injected faults and delays at every torch call made under a block."""

from __future__ import annotations

import os
import random
import sys
import threading
import time

from torch.overrides import TorchFunctionMode


class Injected(RuntimeError):
    """Stands for an out-of-memory or device error raised by torch."""


class Interrupt(BaseException):
    """Stands for a keyboard interrupt or an alarm."""


class Fault(TorchFunctionMode):
    """Count the torch calls and raise at number ``at`` (before or after executing it)."""

    def __init__(self, at=None, exc=Injected, after=False):
        super().__init__()
        self.at, self.exc, self.after = at, exc, after
        self.calls = 0
        self.fired = None

    def __torch_function__(self, func, types, args=(), kwargs=None):
        if "_set_grad_enabled" in getattr(func, "__name__", ""):
            # switching the gradient mode cannot fail
            return func(*args, **(kwargs or {}))
        k = self.calls
        self.calls += 1
        if k == self.at and not self.after:
            self.fired = getattr(func, "__name__", str(func))
            raise self.exc(f"injected at torch call {k} ({self.fired})")
        out = func(*args, **(kwargs or {}))
        if k == self.at:
            self.fired = getattr(func, "__name__", str(func))
            raise self.exc(f"injected after torch call {k} ({self.fired})")
        return out


class Foreign:
    """Count the calls that ptwt code makes into pywt and numpy, raise at number ``at``.

    These calls (wavelet construction, level and frequency computations) are not
    seen by a torch function mode.
    """

    TOOL = 3

    def __init__(self, at=None, exc=Injected):
        self.at, self.exc = at, exc
        self.calls = 0
        self.fired = None

    def _event(self, code, offset, fn, arg0):
        if f"{os.sep}ptwt{os.sep}" not in code.co_filename:
            return sys.monitoring.DISABLE
        mod = getattr(fn, "__module__", None) or type(fn).__module__ or ""
        if not mod.startswith(("pywt", "numpy")):
            return None
        k = self.calls
        self.calls += 1
        if k == self.at:
            self.fired = getattr(fn, "__name__", str(fn))
            raise self.exc(f"injected at foreign call {k} ({self.fired})")
        return None

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "verif-faults")
        m.register_callback(self.TOOL, m.events.CALL, self._event)
        m.set_events(self.TOOL, m.events.CALL)
        return self

    def __exit__(self, *exc):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.CALL, None)
        m.free_tool_id(self.TOOL)
        return False


class Delays(TorchFunctionMode):
    """Yield the interpreter at random torch calls and log the global order."""

    def __init__(self, log, who, seed, rate):
        super().__init__()
        self.log, self.who, self.rate = log, who, rate
        self.rng = random.Random(seed)

    def __torch_function__(self, func, types, args=(), kwargs=None):
        self.log.append(self.who)
        r = self.rng.random()
        if r < self.rate:
            time.sleep(0 if r < self.rate * 0.7 else 2e-5)
        return func(*args, **(kwargs or {}))


def switches(log):
    return sum(1 for a, b in zip(log, log[1:]) if a != b)


def run_threads(fns, timeout=120):
    """Start all functions at a barrier; results or exceptions in order."""
    n = len(fns)
    barrier = threading.Barrier(n)
    out = [None] * n
    exc = [None] * n

    def body(i):
        try:
            barrier.wait(60)
            out[i] = fns[i]()
        except BaseException as e:  # noqa: BLE001
            exc[i] = e

    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    for t in threads:
        t.start()
    for t in threads:
        t.join(timeout)
    stuck = any(t.is_alive() for t in threads)
    return out, exc, stuck
