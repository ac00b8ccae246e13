"""Run-time instrumentation of the public ptwt API.

``install`` replaces the public functions (wherever the package holds a
reference to them) and the public methods of the public classes with wrappers
that emit one event per call.  Online monitors subscribe to events; nested
calls (packets -> wavedec, fswavedec -> wavedec, ...) are observed as well.
Only names documented as public are touched, nothing depends on how the package
is organised internally.
"""

from __future__ import annotations

import functools
import inspect
import sys
import threading
import traceback
from collections import Counter

import torch

import ptwt

from . import core

FUNCTIONS = [
    "cwt", "wavedec", "waverec", "wavedec2", "waverec2", "wavedec3", "waverec3",
    "fswavedec2", "fswavedec3", "fswaverec2", "fswaverec3", "swt", "iswt",
]
METHODS = {
    "MatrixWavedec": ["__call__"],
    "MatrixWaverec": ["__call__"],
    "MatrixWavedec2": ["__call__"],
    "MatrixWaverec2": ["__call__"],
    "MatrixWavedec3": ["__call__"],
    "MatrixWaverec3": ["__call__"],
    "WaveletPacket": ["transform", "reconstruct", "__getitem__"],
    "WaveletPacket2D": ["transform", "reconstruct", "__getitem__"],
}

_totals: Counter = Counter()
_subs: dict = {}
_lock = threading.Lock()
_tls = threading.local()
_installed = False
_ctx = None


class Event:
    __slots__ = ("op", "args", "before", "result", "exc", "depth", "obj", "tid")

    def __repr__(self):
        return f"<{self.op} depth={self.depth}>"


def event_totals():
    return dict(_totals)


def snapshot(value):
    """Deep copy tensors in nested containers; everything else by reference."""
    if isinstance(value, torch.Tensor):
        return value.detach().clone()
    if isinstance(value, tuple) and hasattr(value, "_fields"):
        return type(value)(*(snapshot(v) for v in value))
    if isinstance(value, (list, tuple)):
        return type(value)(snapshot(v) for v in value)
    if isinstance(value, dict):
        return {k: snapshot(v) for k, v in value.items()}
    return value


def _emit(op, sig, fn, obj, args, kwargs):
    depth = getattr(_tls, "depth", 0)
    with _lock:
        _totals[op + ("" if depth == 0 else "@nested")] += 1
    subs = _subs.get(op)
    muted = getattr(_tls, "muted", False)
    if not subs or muted or torch.jit.is_tracing():
        _tls.depth = depth + 1
        try:
            return fn(*args, **kwargs)
        finally:
            _tls.depth = depth
    ev = Event()
    ev.op, ev.depth, ev.obj = op, depth, obj
    ev.tid = threading.get_ident()
    ev.exc = ev.result = None
    try:
        bound = sig.bind(*args, **kwargs)
        bound.apply_defaults()
        ev.args = dict(bound.arguments)
        ev.args.pop("self", None)
    except TypeError:
        ev.args = None
    ev.before = snapshot(ev.args) if ev.args is not None else None
    _tls.depth = depth + 1
    try:
        ev.result = fn(*args, **kwargs)
        return ev.result
    except Exception as e:
        ev.exc = e
        raise
    finally:
        _tls.depth = depth
        _tls.muted = True
        try:
            for sub in subs:
                _deliver(sub, ev)
        finally:
            _tls.muted = False


def _deliver(sub, ev):
    try:
        sub(_ctx, ev)
    except core.Violation as v:
        _ctx.note(v.mech, v.detail)
    except core.Inconclusive as e:
        _ctx.count("inconclusive:" + str(e)[:60])
    except MemoryError:
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        _ctx.note(
            f"unusable-result:{type(e).__name__}",
            f"monitor of {ev.op}: {e} at "
            + " < ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-3:]),
        )


class muted:
    """No events inside this block (used by oracles calling the API)."""

    def __enter__(self):
        self.old = getattr(_tls, "muted", False)
        _tls.muted = True

    def __exit__(self, *exc):
        _tls.muted = self.old


def _wrap_function(name):
    orig = getattr(ptwt, name)
    sig = inspect.signature(orig)

    @functools.wraps(orig)
    def wrapper(*args, **kwargs):
        return _emit(name, sig, orig, None, args, kwargs)

    for mname, module in list(sys.modules.items()):
        if mname == "ptwt" or mname.startswith("ptwt."):
            for attr, val in list(vars(module).items()):
                if val is orig:
                    setattr(module, attr, wrapper)


def _wrap_method(cname, mname):
    cls = getattr(ptwt, cname)
    orig = getattr(cls, mname)
    sig = inspect.signature(orig)
    op = cname if mname == "__call__" else f"{cname}.{mname}"

    @functools.wraps(orig)
    def wrapper(self, *args, **kwargs):
        return _emit(op, sig, orig, self, (self, *args), kwargs)

    setattr(cls, mname, wrapper)


def install(ctx, subscriptions):
    """Install the wrappers once and set the online monitors."""
    global _installed, _ctx
    _ctx = ctx
    _subs.clear()
    for op, fns in subscriptions.items():
        _subs[op] = list(fns)
    if not _installed:
        import ptwt.wavelets_learnable  # noqa: F401

        for name in FUNCTIONS:
            _wrap_function(name)
        for cname, mnames in METHODS.items():
            for mname in mnames:
                _wrap_method(cname, mname)
        _installed = True
