"""C14: swt and iswt are pywt's stationary transform and invert one another."""

import numpy as np
import pywt
import torch

import ptwt
from mon import cases, gen, hooks, oracle, universe

COUNT = {"quick": 6000, "thorough": 80000}
RULE = ("random wavelet (also arbitrary filters), length a multiple of 2^level (also shorter than "
        "the filter), level or None, axis, batch, dtype, layout: swt against pywt.swt, iswt on "
        "arbitrary coefficients against pywt.iswt, iswt(swt(x)) against x, and equivariance under "
        "circular shifts; non-trivial = a transform with at least one level was judged; distinct "
        "by the description")
ASSUMPTIONS = ["pywt.swt / pywt.iswt are the reference; lengths are multiples of 2^level, which "
               "is the domain on which pywt defines the transform"]
REQUIRED = ["swt", "iswt", "inverse", "shift"]
MIN_JUDGED = 1000


def setup(ctx):
    hooks.install(ctx, {})


def corner_cases(tier):
    out = []
    for wav in ["haar", "db2", "db5", "bior2.2", "bior3.1", "rbio1.5", "sym8", "coif3"]:
        for n, level in [(2, 1), (4, 2), (8, 1), (8, 3), (16, 2), (24, 3), (64, None), (12, None),
                         (7, None), (1, None), (32, 5), (10, 0)]:
            out.append({"u": "swt", "wav": wav, "wform": "str", "shape": [2, n], "level": level,
                        "axes": None, "dtype": "f64", "kind": "normal", "shift": 1})
    for i, (shape, level, axes) in enumerate([
            ([131072], 3, None), ([2, 4096], 12, None), ([1, 2048], None, None),
            ([70001, 8], 2, None), ([8, 1025], 3, [0]), ([2, 32768 + 32], 5, None)]):
        out.append({"u": "swt", "wav": ["haar", "db2", "bior2.2"][i % 3], "wform": "str",
                    "shape": shape, "level": level, "axes": axes, "kind": "normal", "shift": 7,
                    "dtype": "f64", "ds": i})
    return out


def generate(rng, idx, tier):
    level = rng.choice([None, 1, 1, 2, 2, 3, 4, 5])
    spec = {"u": "swt", "level": level, "dtype": rng.choice(["f64", "f64", "f32"]),
            "kind": rng.choice(gen.KINDS), "ds": rng.randrange(2**31),
            "layout": rng.choice(gen.LAYOUTS) if rng.random() < 0.4 else "contig",
            "wform": rng.choice(cases.FORMS) if rng.random() < 0.5 else "str"}
    n = 2 ** (level or rng.randrange(0, 6)) * rng.randrange(1, 12)
    if rng.random() < 0.15:
        spec["wav"] = f"random:{rng.choice([2, 4, 6, 10])}:{rng.randrange(10**6)}"
        if spec["wform"] == "str":
            spec["wform"] = "custom"
    else:
        spec["wav"] = gen.pick_wavelet(rng, maxlen=80)
    bd, batch = rng.choice([0, 1, 1, 2, 3]), None
    big = rng.random()
    if big < 0.03:
        spec["level"] = rng.choice([None, 1, 4, 8, 10])
        n = 2 ** (spec["level"] or rng.randrange(5, 9)) * rng.randrange(1, 30)
        n *= max(1, 600 // n)
        batch = cases.wide_batch(rng, [0, 1], 20000 // n)
    elif big < 0.05:
        batch = cases.wide_batch(rng, [4, 5, 6], 20000 // n)
    spec["shape"], spec["axes"] = cases.shape_with_axes(
        rng, bd if batch is None else len(batch), [n], rng.random() < 0.5, batch)
    spec["shift"] = rng.randrange(1, 40)
    if rng.random() < 0.03:
        spec["kind"] = rng.choice(["nan", "inf", "-inf"])
    return spec


def case(ctx, spec):
    x = gen.tensor(spec)
    xn = oracle.to_np(x)
    axis = spec["axes"][0] if spec["axes"] else -1
    w = gen.wavelet(spec, x.dtype)
    ow = gen.oracle_wavelet(w)
    kw = {} if spec["axes"] is None else {"axis": axis}
    if spec["level"] is not None or spec["ds"] % 2:
        kw["level"] = spec["level"]
    name = universe.name_of(spec)
    got = ptwt.swt(x, w, **kw)
    level = spec["level"]
    if level is None:
        level = pywt.swt_max_level(xn.shape[axis])
    if level == 0:
        ref = [xn]
    else:
        ref = oracle.quiet(pywt.swt, xn, ow, level=level, axis=axis, trim_approx=True)
    if not isinstance(got, list) or len(got) != len(ref):
        ctx.fail("structure", f"{name}: {len(got)} entries instead of {len(ref)}")
    tol = oracle.tol_for(x.dtype)
    sc0 = oracle.amax(xn)
    g = oracle.gain(ow)
    for i, (a, b) in enumerate(zip(got, ref)):
        msg = oracle.diff(a, b, tol, sc0 * g ** (level - max(i, 1) + 1), f"{name} entry {i}",
                          x.dtype)
        if msg:
            ctx.fail("swt-values", msg)
    ikw = {k: v for k, v in kw.items() if k == "axis"}
    rec = ptwt.iswt(got, w, **ikw)
    gr = oracle.gain(ow, False)
    if level == 0:
        msg = oracle.diff(rec, xn, 0, 1, name, x.dtype)
        if msg:
            ctx.fail("zero-level", msg)
        ctx.count("zero-level")
        return
    ctx.judged("swt")
    if spec["kind"] in ("nan", "inf", "-inf"):
        # where the values go is the filters' business; pywt's iswt averages shifted inverses,
        # which spreads them further
        return
    if not spec["wav"].startswith("random:") and spec["wav"] != "dmey":
        t = min(tol * (g * gr) ** (0.5 * level), 100 * tol) + 4 * level * oracle.pr_defect(ow) * g
        msg = oracle.diff(rec, xn, t, sc0, f"iswt({name})", x.dtype)
        if msg:
            ctx.fail("reconstruction", msg)
        ctx.judged("inverse")
    co = cases.perturb(list(got), spec["ds"])
    cont = tuple(co) if spec["ds"] % 3 == 0 else co
    r2 = ptwt.iswt(cont, w, **ikw)
    cn = [oracle.to_np(c) for c in co]
    ref2 = oracle.quiet(pywt.iswt, cn, ow, axis=axis)
    sc = max(float(np.abs(c).max()) for c in cn)
    msg = oracle.diff(r2, ref2, tol, sc * (gr + 1) ** level, f"iswt of arbitrary {name}", x.dtype)
    if msg:
        ctx.fail("iswt-values", msg)
    ctx.judged("iswt")
    s = spec["shift"]
    rolled = ptwt.swt(torch.roll(x.detach(), s, axis), w, **kw)
    for i, (a, b) in enumerate(zip(rolled, got)):
        msg = oracle.diff(a, oracle.to_np(torch.roll(b.detach(), s, axis)), tol,
                          sc0 * g ** level, f"{name} rolled by {s}, entry {i}")
        if msg:
            ctx.fail("shift", msg)
    ctx.judged("shift")
