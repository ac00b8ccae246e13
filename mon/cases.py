"""Reusable case builders for the transform properties."""

from __future__ import annotations

import numpy as np
import torch

import ptwt

from . import gen

FORMS = ["str", "pywt", "tuple", "plain", "custom"]


def common(rng, idx, dtypes=("f64", "f64", "f32")):
    return {
        "mode": gen.MODES[idx % 5],
        "kind": rng.choice(gen.KINDS),
        "dtype": rng.choice(dtypes),
        "layout": rng.choice(gen.LAYOUTS) if rng.random() < 0.5 else "contig",
        "wform": rng.choice(FORMS) if rng.random() < 0.5 else "str",
        "ds": rng.randrange(2**31),
    }


def size_for(rng, fl, cap, mode, small=False):
    """A signal length that mixes short, odd, power-of-two and long ones."""
    r = rng.random()
    if r < 0.15:
        n = rng.randrange(1, fl + 3)
    elif r < 0.35:
        n = fl + rng.randrange(-2, 4)
    elif r < 0.55:
        n = rng.choice([2, 4, 8, 16, 32, 64, 128])
    elif r < 0.8:
        n = rng.randrange(2, max(3, min(cap, 4 * fl + 20)))
    else:
        n = rng.randrange(2, cap + 1)
    return max(1, min(n, cap))


def pick_level(rng, sizes, fl, mode, maxlev):
    """None, a natural level or (where padding permits) one beyond it."""
    nat = min(gen.max_level(n, fl) for n in sizes)
    r = rng.random()
    if r < 0.3:
        return None if nat <= maxlev else maxlev
    if r < 0.35:
        return 0
    hi = nat if r < 0.85 else nat + 2
    lev = rng.randrange(1, max(1, min(hi, maxlev)) + 1)
    while lev > 0 and not all(gen.pad_ok(n, fl, mode, lev) for n in sizes):
        lev -= 1
    return lev


def axes_for(rng, total, ndim):
    """ndim distinct axes of a tensor with ``total`` dims, in any notation."""
    axes = rng.sample(range(total), ndim)
    return [a if rng.random() < 0.5 else a - total for a in axes]


def shape_with_axes(rng, batch_dims, sizes, use_axes, batch=None):
    """Shape where the sizes sit at the returned axes (or at the end)."""
    total = batch_dims + len(sizes)
    if batch is None:
        batch = [rng.choice([1, 2, 2, 3, 4]) for _ in range(batch_dims)]
    if not use_axes:
        return batch + list(sizes), None
    axes = axes_for(rng, total, len(sizes))
    shape = [0] * total
    for a, s in zip(axes, sizes):
        shape[a % total] = s
    it = iter(batch)
    shape = [s if s else next(it) for s in shape]
    return shape, axes


def has_zero(shape):
    return any(s == 0 for s in shape)


def dtype_of(spec):
    return gen.DTYPES[spec["dtype"]]


def call_analysis(op, spec, x=None):
    """Run the analysis function ``op`` as described by spec."""
    x = gen.tensor(spec) if x is None else x
    w = gen.wavelet(spec, dtype_of(spec))
    kw = {"mode": spec["mode"]}
    if spec.get("level", "unset") != "unset":
        kw["level"] = spec["level"]
    if spec.get("axes") is not None:
        if op in ("wavedec",):
            kw["axis"] = spec["axes"][0]
        else:
            kw["axes"] = tuple(spec["axes"])
    return x, w, getattr(ptwt, op)(x, w, **kw)


def call_synthesis(op, coeffs, w, spec):
    kw = {}
    if spec.get("axes") is not None:
        if op == "waverec":
            kw["axis"] = spec["axes"][0]
        else:
            kw["axes"] = tuple(spec["axes"])
    return getattr(ptwt, op)(coeffs, w, **kw)


INVERSE = {
    "wavedec": "waverec", "wavedec2": "waverec2", "wavedec3": "waverec3",
    "fswavedec2": "fswaverec2", "fswavedec3": "fswaverec3",
}
NDIM = {"wavedec": 1, "wavedec2": 2, "wavedec3": 3, "fswavedec2": 2, "fswavedec3": 3}
CAPS = {1: 300, 2: 48, 3: 22}
FLCAP = {1: 110, 2: 40, 3: 20}
MAXLEV = {1: 6, 2: 4, 3: 3}


def big_sizes(rng, nd, low, high, budget):
    """Axis sizes of which at least one is far beyond the usual range."""
    for _ in range(100):
        sizes = [int(low * (high / low) ** rng.random()) for _ in range(nd)]
        if nd > 1 and rng.random() < 0.5:
            keep = rng.randrange(nd)
            sizes = [n if i == keep else rng.randrange(2, low + 1) for i, n in enumerate(sizes)]
        if np.prod(sizes) <= budget:
            return sizes
    return [low] * nd


def wide_batch(rng, dims, budget):
    """Batch dimensions: one long, several, or many of size one and two."""
    r = rng.random()
    if r < 0.5:
        top = 300 if r < 0.4 else 5000
        out = [1] * max(0, rng.choice([1, 1, 2]) - 1) + [rng.randrange(5, top)]
        rng.shuffle(out)
    else:
        out = [rng.choice([1, 1, 2, 2, 3]) for _ in range(rng.choice(dims))]
    while np.prod(out) > max(1, budget):
        k = max(range(len(out)), key=out.__getitem__)
        out[k] = max(1, out[k] // 2)
    return out


BIG = {1: (200, 20000, 40000), 2: (40, 900, 40000), 3: (12, 60, 20000)}


def huge_cases(op, modes=tuple(gen.MODES)):
    """Sizes and batches beyond 2^10, 2^15, 2^16 and 2^17."""
    shapes = {
        1: [([2, 65537], 3), ([131077], 2), ([1, 70001], None), ([70001, 5], 1), ([33000, 2, 6], 1),
            ([1025, 9], 2), ([3, 1026, 7], 1)],
        2: [([300, 259], 2), ([1, 66001, 3], 1), ([4, 32771], 1), ([66001, 4, 5], 1),
            ([1025, 6, 7], 2)],
        3: [([43, 41, 39], 2), ([4, 5, 33001], 1), ([33001, 4, 3, 5], 1), ([1025, 4, 5, 6], 1)],
    }[NDIM[op]]
    out = []
    for i, (shape, level) in enumerate(shapes):
        for k, mode in enumerate(modes):
            wav = ["haar", "db2", "bior2.2"][(i + k) % 3]
            sizes, fl = shape[len(shape) - NDIM[op]:], gen.flen(wav)
            if not all(gen.pad_ok(n, fl, mode, level or 8) for n in sizes):
                wav, fl = "haar", 2
                if not all(gen.pad_ok(n, fl, mode, level or 8) for n in sizes):
                    continue
            out.append({"op": op, "wav": wav, "mode": mode, "level": level, "shape": shape,
                        "dtype": "f64" if (i + k) % 4 else "f32", "kind": "normal", "ds": i + k})
    return out


def gen_big(rng, spec, op, fl):
    """Turn spec into a large case: long axes, deep levels, wide or many batch dims."""
    nd = NDIM[op]
    low, high, budget = BIG[nd]
    if rng.random() < 0.65:
        for _ in range(40):
            sizes = big_sizes(rng, nd, low, high, budget)
            level = rng.choice([None, 1, 2, rng.randrange(3, 15)])
            eff = level
            if level is None:
                eff = min(gen.max_level(n, fl) for n in sizes)
            if all(gen.pad_ok(n, fl, spec["mode"], eff) for n in sizes):
                break
        else:
            return None
        batch = wide_batch(rng, [0, 1, 2], budget // int(np.prod(sizes)))
    else:
        sizes = [size_for(rng, fl, {1: 60, 2: 16, 3: 8}[nd], spec["mode"]) for _ in range(nd)]
        level = pick_level(rng, sizes, fl, spec["mode"], MAXLEV[nd])
        if level is None and not all(
            gen.pad_ok(n, fl, spec["mode"], min(gen.max_level(m, fl) for m in sizes))
            for n in sizes
        ):
            return None
        batch = wide_batch(rng, [4, 5, 6], budget // int(np.prod(sizes)))
    spec["level"] = level
    spec["shape"], spec["axes"] = shape_with_axes(rng, len(batch), sizes, rng.random() < 0.4,
                                                  batch)
    spec["big"] = 1
    return spec


def gen_analysis(rng, idx, op, tier="quick", nonfinite=False):
    """A random spec for one of the padded convolution transforms."""
    nd = NDIM[op]
    spec = common(rng, idx)
    spec["op"] = op
    if rng.random() < 0.1:
        length = rng.choice([2, 4, 6, 8, 10])
        spec["wav"] = f"random:{length}:{rng.randrange(10**6)}"
        if spec["wform"] == "str":
            spec["wform"] = "custom"
        fl = length
    else:
        spec["wav"] = gen.pick_wavelet(rng, maxlen=FLCAP[nd])
        fl = gen.flen(spec["wav"])
    cap = CAPS[nd] if tier == "quick" else int(CAPS[nd] * 1.5)
    if rng.random() < 0.03:
        big = gen_big(rng, dict(spec), op, fl)
        if big is not None:
            return big
    for _ in range(60):
        sizes = [size_for(rng, fl, cap, spec["mode"]) for _ in range(nd)]
        level = pick_level(rng, sizes, fl, spec["mode"], MAXLEV[nd])
        if level is None and not all(
            gen.pad_ok(n, fl, spec["mode"], min(gen.max_level(m, fl) for m in sizes))
            for n in sizes
        ):
            continue
        if level == 0 and rng.random() < 0.7:
            continue
        break
    spec["level"] = level
    if spec["level"] is None and rng.random() < 0.3:
        spec["level"] = "unset"
    bd = rng.choice([0, 1, 1, 2] if nd == 3 else [0, 1, 1, 2, 3])
    spec["shape"], spec["axes"] = shape_with_axes(rng, bd, sizes, rng.random() < 0.4)
    if nonfinite and rng.random() < 0.03:
        spec["kind"] = rng.choice(["nan", "inf", "-inf"])
    return spec


def sig_of(spec):
    return "|".join(str(spec.get(k)) for k in
                    ("op", "wav", "wform", "mode", "dtype", "layout", "shape", "axes",
                     "level", "kind"))


def perturb(tree, ds):
    """Coefficients of the same structure with fresh random values."""
    g = torch.Generator().manual_seed(ds % (2**31))

    def one(t):
        return torch.randn(t.shape, generator=g, dtype=t.dtype)

    def rec(t):
        if isinstance(t, torch.Tensor):
            return one(t)
        if isinstance(t, dict):
            return {k: rec(v) for k, v in t.items()}
        if isinstance(t, tuple) and hasattr(t, "_fields"):
            return type(t)(*(rec(v) for v in t))
        return type(t)(rec(v) for v in t)

    return rec(tree)


def sizes_np(t):
    return np.array(t.shape)


def coeff_sizes(sizes, fl, level):
    """Sizes of the bands per level, finest first, plus nothing else."""
    out = []
    for _ in range(level):
        sizes = [(n + fl - 1) // 2 for n in sizes]
        out.append(list(sizes))
    return out


def spec_flen(spec):
    if spec["wav"].startswith("random:"):
        return int(spec["wav"].split(":")[1])
    return gen.flen(spec["wav"])


def spec_axes(spec):
    nd = NDIM[spec["op"]]
    return list(spec["axes"]) if spec.get("axes") is not None else list(range(-nd, 0))


def spec_sizes(spec):
    return [spec["shape"][a] for a in spec_axes(spec)]


def spec_level(spec):
    lev = spec.get("level")
    if lev is None or lev == "unset":
        return min(gen.max_level(n, spec_flen(spec)) for n in spec_sizes(spec))
    return lev


def band_keys(nd):
    from itertools import product

    return ["".join(k) for k in product("ad", repeat=nd) if "d" in k]


def build_coeffs(spec, kind="normal"):
    """Arbitrary coefficients with the structure of the transform in spec."""
    op = spec["op"]
    nd = NDIM[op]
    fl, level = spec_flen(spec), spec_level(spec)
    axes = spec_axes(spec)
    per_level = coeff_sizes(spec_sizes(spec), fl, level)
    counter = [spec["ds"]]

    def one(sizes):
        shape = list(spec["shape"])
        for a, n in zip(axes, sizes):
            shape[a] = n
        counter[0] += 1
        s = {"shape": shape, "kind": kind, "ds": counter[0], "dtype": spec["dtype"],
             "layout": spec.get("layout", "contig")}
        return gen.tensor(s)

    if level == 0:
        head = [one(spec_sizes(spec))]
        return head if op == "wavedec" else tuple(head)
    out = [one(per_level[-1])]
    for sizes in reversed(per_level):
        if op == "wavedec":
            out.append(one(sizes))
        elif op == "wavedec2":
            out.append(ptwt.WaveletDetailTuple2d(one(sizes), one(sizes), one(sizes)))
        else:
            out.append({k: one(sizes) for k in band_keys(nd)})
    return out if op == "wavedec" else tuple(out)


def corner_sizes(fl, nd):
    """Axis sizes around the interesting lengths, all axes different."""
    base = [fl, fl + 1, 2 * fl, 2 * fl + 1, 3 * fl + 2, max(2, fl - 1)]
    return [[base[(i + 2 * j) % len(base)] for j in range(nd)] for i in range(len(base))]
