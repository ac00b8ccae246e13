"""Online monitors: each judges one observed API event against a reference."""

from __future__ import annotations

import numpy as np
import pywt
import torch

from . import gen, oracle
from .core import Violation


def _norm_axes(axes, ndim):
    if axes is None:
        return tuple(range(-ndim, 0))
    if isinstance(axes, int):
        return (axes,)
    return tuple(axes)


def _bad_cast(dtype):
    return dtype not in (torch.float32, torch.float64)


def _scale(x, w, levels, ndim):
    return oracle.amax(x) * oracle.gain(w) ** (levels * ndim)


def raise_if(msg, mech):
    if msg:
        raise Violation(mech, msg)


def describe(ev):
    a = ev.before
    t = a.get("data")
    parts = [f"{k}={v!r}" for k, v in a.items()
             if isinstance(v, (str, int, tuple, type(None))) and k not in ("data",)
             and not isinstance(v, tuple) or k in ("axes", "axis")]
    if isinstance(t, torch.Tensor):
        parts.insert(0, f"data{tuple(t.shape)} {t.dtype}")
    return f"{ev.op}({', '.join(parts)})"


# ---------------------------------------------------------------- analysis
def mon_wavedec(ctx, ev):
    if ev.exc is not None or ev.before is None:
        return
    x = ev.before["data"]
    if not isinstance(x, torch.Tensor) or _bad_cast(x.dtype):
        return
    (axis,) = _norm_axes(ev.before["axis"], 1)
    w = gen.oracle_wavelet(ev.before["wavelet"])
    mode = ev.before["mode"] or "reflect"
    xn = oracle.to_np(x)
    ref = oracle.wavedec(xn, w, mode, ev.before["level"], axis)
    res = ev.result
    where = describe(ev)
    if not isinstance(res, list):
        raise Violation("structure", f"{where} returned {type(res).__name__}, not a list")
    if len(res) != len(ref):
        raise Violation("structure", f"{where}: {len(res)} entries instead of {len(ref)}")
    tol = oracle.tol_for(x.dtype)
    for i, (g, r) in enumerate(zip(res, ref)):
        lev = len(ref) - max(i, 1)
        raise_if(oracle.diff(g, r, tol, _scale(xn, w, lev, 1), f"{where} coefficient {i}",
                             x.dtype), "values")
    if len(ref) > 1:
        ctx.judged("wavedec")
    else:
        ctx.count("zero-level")


def mon_wavedec2(ctx, ev):
    if ev.exc is not None or ev.before is None:
        return
    x = ev.before["data"]
    axes = _norm_axes(ev.before["axes"], 2)
    w = gen.oracle_wavelet(ev.before["wavelet"])
    mode = ev.before["mode"] or "reflect"
    xn = oracle.to_np(x)
    ref = oracle.wavedec2(xn, w, mode, ev.before["level"], axes)
    res = ev.result
    where = describe(ev)
    if not isinstance(res, tuple):
        raise Violation("structure", f"{where} returned {type(res).__name__}, not a tuple")
    if len(res) != len(ref):
        raise Violation("structure", f"{where}: {len(res)} entries instead of {len(ref)}")
    tol = oracle.tol_for(x.dtype)
    for i, (g, r) in enumerate(zip(res, ref)):
        lev = len(ref) - max(i, 1)
        sc = _scale(xn, w, lev, 2)
        if i == 0:
            raise_if(oracle.diff(g, r, tol, sc, f"{where} approximation", x.dtype), "values")
            continue
        if not isinstance(g, tuple) or len(g) != 3:
            raise Violation("structure", f"{where}: entry {i} is no (H, V, D) tuple")
        for n, gg, rr in zip("HVD", g, r):
            raise_if(oracle.diff(gg, rr, tol, sc, f"{where} {n} entry {i}", x.dtype), "values")
        if not (g.horizontal is g[0] and g.vertical is g[1] and g.diagonal is g[2]):
            raise Violation("structure", f"{where}: field names do not match the order")
    if len(ref) > 1:
        ctx.judged("wavedec2")
    else:
        ctx.count("zero-level")


def mon_wavedecn(ndim):
    keys = ["".join(k) for k in np.array(np.meshgrid(*[["a", "d"]] * ndim)).T.reshape(-1, ndim)]
    keys = sorted(k for k in keys if "d" in k)

    def monitor(ctx, ev):
        if ev.exc is not None or ev.before is None:
            return
        x = ev.before["data"]
        axes = _norm_axes(ev.before["axes"], ndim)
        w = gen.oracle_wavelet(ev.before["wavelet"])
        mode = ev.before["mode"]
        xn = oracle.to_np(x)
        ref = oracle.wavedecn(xn, w, mode, ev.before["level"], axes)
        res = ev.result
        where = describe(ev)
        if not isinstance(res, tuple):
            raise Violation("structure", f"{where} returned {type(res).__name__}")
        if len(res) != len(ref):
            raise Violation("structure",
                            f"{where}: {len(res)} entries instead of {len(ref)}")
        tol = oracle.tol_for(x.dtype)
        for i, (g, r) in enumerate(zip(res, ref)):
            lev = len(ref) - max(i, 1)
            sc = _scale(xn, w, lev, ndim)
            if i == 0:
                raise_if(oracle.diff(g, r, tol, sc, f"{where} approximation", x.dtype),
                         "values")
                continue
            if not isinstance(g, dict) or sorted(g) != keys:
                raise Violation("structure", f"{where}: entry {i} has keys "
                                f"{sorted(g) if isinstance(g, dict) else type(g)}")
            for k in keys:
                raise_if(oracle.diff(g[k], r[k], tol, sc, f"{where} {k} entry {i}",
                                     x.dtype), "values")
        if len(ref) > 1:
            ctx.judged(ev.op)
        else:
            ctx.count("zero-level")

    return monitor


# --------------------------------------------------------------- synthesis
def _coeff_scale(tree, w, levels, ndim):
    m = 0.0
    for leaf in leaves(tree):
        if leaf.numel():
            m = max(m, oracle.amax(oracle.to_np(leaf)))
    return m * (2 * oracle.gain(w, False)) ** (levels * ndim)


def leaves(tree):
    if isinstance(tree, torch.Tensor):
        return [tree]
    if isinstance(tree, dict):
        return [x for k in tree for x in leaves(tree[k])]
    if isinstance(tree, (list, tuple)):
        return [x for t in tree for x in leaves(t)]
    return []


def np_tree(tree):
    if isinstance(tree, torch.Tensor):
        return oracle.to_np(tree)
    if isinstance(tree, dict):
        return {k: np_tree(v) for k, v in tree.items()}
    if isinstance(tree, tuple):
        return tuple(np_tree(v) for v in tree)
    return [np_tree(v) for v in tree]


def mon_rec(ndim, style):
    """Synthesis must be the synthesis operator of pywt on any coefficients."""

    def monitor(ctx, ev):
        if ev.exc is not None or ev.before is None:
            return
        co = ev.before["coeffs"]
        axes = _norm_axes(ev.before["axis" if ndim == 1 else "axes"], ndim)
        w = gen.oracle_wavelet(ev.before["wavelet"])
        cn = list(np_tree(list(co)))
        dtype = co[0].dtype
        if len(cn) == 1:
            ref = cn[0]
        elif ndim == 1:
            ref = oracle.quiet(pywt.waverec, cn, w, mode="zero", axis=axes[0])
        elif style == "2d":
            ref = oracle.quiet(pywt.waverec2, [cn[0]] + [tuple(c) for c in cn[1:]], w,
                               mode="zero", axes=axes)
        else:
            ref = oracle.quiet(pywt.waverecn, cn, w, mode="zero", axes=axes)
        sc = _coeff_scale(co, w, len(cn) - 1, ndim)
        where = f"{ev.op}(shapes {[tuple(t.shape) for t in leaves(co)][:4]}.. {w.name} " \
                f"axes={axes} {dtype})"
        raise_if(oracle.diff(ev.result, ref, oracle.tol_for(dtype), sc, where, dtype),
                 "values")
        if len(cn) > 1:
            ctx.judged(ev.op)

    return monitor
