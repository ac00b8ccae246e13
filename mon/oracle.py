"""Reference models: pywt / numpy computations independent of ptwt."""

from __future__ import annotations

import warnings

import numpy as np
import pywt
import torch

from . import gen


def to_np(t):
    return t.detach().cpu().to(torch.float64).numpy()


def amax(x):
    """The largest finite magnitude."""
    m = np.abs(x)
    return float(np.where(np.isfinite(m), m, 0).max()) if m.size else 0.0


def gain(w, analysis=True):
    b = w.filter_bank[:2] if analysis else w.filter_bank[2:]
    return max(1.0, *(sum(abs(v) for v in f) for f in b))


def tol_for(dtype):
    return 2e-11 if dtype == torch.float64 else 2e-5


def diff(got, ref, tol, scale, name, dtype=None):
    """None, or a message that describes how got differs from ref."""
    if not isinstance(got, torch.Tensor):
        return f"{name}: not a tensor but {type(got).__name__}"
    if tuple(got.shape) != tuple(ref.shape):
        return f"{name}: shape {tuple(got.shape)} instead of {tuple(ref.shape)}"
    if dtype is not None and got.dtype != dtype:
        return f"{name}: dtype {got.dtype} instead of {dtype}"
    g = to_np(got) if not got.is_complex() else got.detach().cpu().numpy()
    if g.size == 0:
        return None
    bad = ~np.isfinite(g)
    if not np.array_equal(bad, ~np.isfinite(ref)):
        return f"{name}: {int(bad.sum())} non-finite values instead of " \
               f"{int((~np.isfinite(ref)).sum())}"
    err = np.abs(np.where(bad, 0, g) - np.where(bad, 0, ref))
    e = float(err.max())
    if e > tol * max(scale, 1e-300):
        pos = np.unravel_index(int(err.argmax()), err.shape)
        return (
            f"{name}: |error| {e:.3e} > {tol * scale:.1e} at {tuple(map(int, pos))} "
            f"(got {g[pos]!r}, expected {ref[pos]!r})"
        )
    return None


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def wavedec(x, w, mode, level, axis):
    if level is None:
        level = gen.max_level(x.shape[axis], w.dec_len)
    if level == 0:
        return [x]
    return quiet(pywt.wavedec, x, w, mode=mode, level=level, axis=axis)


def wavedecn(x, w, mode, level, axes):
    if level is None:
        level = min(gen.max_level(x.shape[a], w.dec_len) for a in axes)
    if level == 0:
        return [x]
    return quiet(pywt.wavedecn, x, w, mode=mode, level=level, axes=axes)


def wavedec2(x, w, mode, level, axes):
    if level is None:
        level = min(gen.max_level(x.shape[a], w.dec_len) for a in axes)
    if level == 0:
        return [x]
    return quiet(pywt.wavedec2, x, w, mode=mode, level=level, axes=axes)


def pr_defect(w):
    """How far the filter bank is from perfect reconstruction."""
    lo, hi, rlo, rhi = (np.asarray(f, dtype=np.float64) for f in w.filter_bank)
    p = np.convolve(lo, rlo) + np.convolve(hi, rhi)
    alt = (-1.0) ** np.arange(len(lo))
    a = np.convolve(lo * alt, rlo) + np.convolve(hi * alt, rhi)
    t = np.zeros_like(p)
    t[len(lo) - 1] = 2
    return float(np.abs(p - t).sum() + np.abs(a).sum())


def roundtrip_noise(x, w, mode, levels, axes, eps):
    """How far rounding errors of size eps can move the round trip of x.

    A rounding error of one analysis step is a perturbation of that level's coefficients. It is
    drawn at random, carried through the synthesis of pywt, and summed over the levels.
    """
    rng = np.random.default_rng(7)
    g = gain(w) ** len(axes)
    total, low = 0.0, x
    for lev in range(1, levels + 1):
        size = eps * g * float(np.abs(low).max())
        step = wavedecn(low, w, mode, 1, axes)
        low = step[0]
        worst = 0.0
        for _ in range(2):
            noise = [size * rng.choice([-1.0, 1.0], low.shape),
                     {k: size * rng.choice([-1.0, 1.0], v.shape) for k, v in step[1].items()}]
            rec = pywt.waverecn(noise, w, mode="zero", axes=axes)
            for size_to in reversed(shapes_below(x.shape, w, lev - 1, axes)):
                rec = rec[tuple(slice(0, n) for n in size_to[0])]
                rec = pywt.waverecn([rec, {}], w, mode="zero", axes=axes) if size_to[1] else rec
            worst = max(worst, float(np.abs(rec).max()))
        total += worst
    return total


def shapes_below(shape, w, levels, axes):
    """The shapes of the approximations of the levels levels, ..., 1, 0 as (shape, invert)."""
    out, cur = [(tuple(shape), False)], list(shape)
    for _ in range(levels):
        for a in axes:
            cur[a] = pywt.dwt_coeff_len(cur[a], w.dec_len, "zero")
        out.append((tuple(cur), True))
    return out
