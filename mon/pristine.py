"""A second, freshly imported copy of the package as a reference without history.

Module-level and class-level state (caches, registries, counters) of the copy in
use cannot reach the copy made here, so a result that depends on earlier calls
through such state differs from the pristine copy's result.
"""

from __future__ import annotations

import contextlib
import importlib
import sys

import ptwt

from . import cases, gen, matrix, packetmodel, universe

_USERS = (cases, gen, matrix, packetmodel, universe)


def _names():
    return [k for k in sys.modules if k == "ptwt" or k.startswith("ptwt.")]


def load():
    """A new copy of the package; ``sys.modules`` keeps the copy in use."""
    saved = {k: sys.modules.pop(k) for k in _names()}
    try:
        return importlib.import_module("ptwt")
    finally:
        for k in _names():
            del sys.modules[k]
        sys.modules.update(saved)


@contextlib.contextmanager
def swapped(module=None):
    """Let the generators and builders of this package use another copy (single thread)."""
    module = load() if module is None else module
    for m in _USERS:
        m.ptwt = module
    try:
        yield module
    finally:
        for m in _USERS:
            m.ptwt = ptwt


def convert(tree, module=ptwt):
    """The container with the named tuples of ``module``; tensors stay the same objects."""
    if isinstance(tree, dict):
        return {k: convert(v, module) for k, v in tree.items()}
    if isinstance(tree, tuple) and hasattr(tree, "_fields"):
        cls = getattr(module, type(tree).__name__, type(tree))
        return cls(*(convert(v, module) for v in tree))
    if isinstance(tree, (list, tuple)):
        return type(tree)(convert(v, module) for v in tree)
    return tree


def clone(w):
    """The wavelet argument with filter tensors of its own."""
    if isinstance(w, tuple):
        return type(w)(*(f.detach().clone() for f in w))
    return w
