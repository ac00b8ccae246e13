"""Generators and dense reference models for the matrix transforms."""

from __future__ import annotations

import functools

import numpy as np
import torch

import ptwt

from . import cases, gen, oracle

FWD = {"m1": "MatrixWavedec", "m2s": "MatrixWavedec2", "m2n": "MatrixWavedec2",
       "m3": "MatrixWavedec3"}
INV = {"m1": "MatrixWaverec", "m2s": "MatrixWaverec2", "m2n": "MatrixWaverec2",
       "m3": "MatrixWaverec3"}
ND = {"m1": 1, "m2s": 2, "m2n": 2, "m3": 3}
# the boundary filters of longer wavelets are too ill-conditioned to be judged
MAXLEN = {"qr": 20, "gramschmidt": 16}
# the rare large cases: smallest, largest size and number of elements
BIG = {"m1": {"qr": (97, 1200, 1200), "gramschmidt": (97, 700, 700)},
       "m2s": {"qr": (31, 200, 9000), "gramschmidt": (31, 120, 6000)},
       "m2n": {"qr": (15, 40, 600), "gramschmidt": (15, 28, 400)},
       "m3": {"qr": (15, 40, 9000), "gramschmidt": (15, 30, 8000)}}
CAP = {"m1": 96, "m2s": 30, "m2n": 14, "m3": 14}
FLCAP = {"m1": 20, "m2s": 12, "m2n": 4, "m3": 6}


def forward(spec, w=None):
    kw = {"orthogonalization": spec["orth"]}
    if spec.get("pad_mode"):
        kw["odd_coeff_padding_mode"] = spec["pad_mode"]
    return _make(FWD, spec, w, kw, level=spec.get("level"))


def inverse(spec, w=None):
    return _make(INV, spec, w, {"orthogonalization": spec["orth"]})


def _make(table, spec, w, kw, **more):
    w = gen.wavelet(spec, cases.dtype_of(spec)) if w is None else w
    if spec.get("axes") is not None:
        if spec["cls"] == "m1":
            kw["axis"] = spec["axes"][0]
        else:
            kw["axes"] = tuple(spec["axes"])
    if spec["cls"] in ("m2s", "m2n"):
        kw["separable"] = spec["cls"] == "m2s"
    return getattr(ptwt, table[spec["cls"]])(w, **more, **kw)


def generate(rng, idx, tier, cls=None, axes=True):
    cls = cls or rng.choice(["m1", "m1", "m1", "m2s", "m2s", "m2n", "m3"])
    orth = rng.choice(["qr", "qr", "gramschmidt"])
    nd = ND[cls]
    spec = {"cls": cls, "orth": orth, "dtype": rng.choice(["f64", "f64", "f64", "f32"]),
            "kind": rng.choice([k for k in gen.KINDS]), "ds": rng.randrange(2**31),
            "layout": rng.choice(gen.LAYOUTS) if rng.random() < 0.4 else "contig",
            "wform": rng.choice(cases.FORMS) if rng.random() < 0.4 else "str"}
    cap = min(MAXLEN[orth], FLCAP[cls])
    if orth == "gramschmidt":
        cap = min(cap, {"m1": 12, "m2s": 8, "m2n": 4, "m3": 4}[cls])
    spec["wav"] = gen.pick_wavelet(rng, "orth", cap)
    fl = gen.flen(spec["wav"])
    top = CAP[cls]
    r = rng.random()
    if r < 0.25:
        sizes = [rng.choice([fl, fl + 1, fl + 2, 2 * fl]) for _ in range(nd)]
    elif r < 0.5:
        sizes = [rng.choice([8, 16, 32, 64]) for _ in range(nd)]
    else:
        sizes = [rng.randrange(max(2, fl - 1), max(fl + 3, top) + 1) for _ in range(nd)]
    sizes = [min(max(n, 2), max(top, fl + 2)) for n in sizes]
    spec["level"] = rng.choice([None, 1, 1, 2, 2, 3, 4, 6])
    batch = None
    big = rng.random()
    if big < 0.03:
        sizes = cases.big_sizes(rng, nd, *BIG[cls][orth])
        spec["level"] = rng.choice([None, 1, 2, 5, 9])
    elif big < 0.05:
        sizes = [rng.randrange(max(2, fl - 1), fl + 6) for _ in range(nd)]
        batch = cases.wide_batch(rng, [4, 5], 20000 // int(np.prod(sizes)))
    spec["pad_mode"] = rng.choice([None, None, "zero", "constant", "symmetric", "periodic",
                                   "reflect"])
    bd = rng.choice([0, 1, 1, 2]) if batch is None else len(batch)
    spec["shape"], spec["axes"] = cases.shape_with_axes(rng, bd, sizes,
                                                        axes and rng.random() < 0.4, batch)
    return spec


def axes_of(spec):
    nd = ND[spec["cls"]]
    return list(spec["axes"]) if spec.get("axes") is not None else list(range(-nd, 0))


def sizes_of(spec):
    return [spec["shape"][a] for a in axes_of(spec)]


def auto_level(sizes, fl):
    return max(0, min(int(np.log2(n / (fl - 1))) for n in sizes))


def structure(spec):
    """Band sizes per level (finest first) and whether padding was needed."""
    fl = gen.flen(spec["wav"])
    sizes = sizes_of(spec)
    padded = False
    if spec["cls"] == "m1" and sizes[0] % 2:
        sizes = [sizes[0] + 1]
        padded = True
    level = spec.get("level")
    if level is None:
        level = auto_level(sizes, fl)
    out = []
    cur = list(sizes)
    for _ in range(level):
        if any(n < fl for n in cur):
            break
        if any(n % 2 for n in cur):
            padded = True
        cur = [(n + n % 2) // 2 for n in cur]
        out.append(list(cur))
    return out, cur, padded


def sig_of(spec):
    return "|".join(str(spec.get(k)) for k in
                    ("cls", "wav", "wform", "orth", "dtype", "layout", "shape", "axes",
                     "level", "pad_mode", "kind"))


# ---------------------------------------------------------- dense reference
def raw_rows(filt, n):
    """Rows of the decimated convolution with the filter cut at the borders."""
    fl = len(filt)
    rows = np.zeros((n // 2, n))
    cut = np.zeros(n // 2, dtype=bool)
    start = fl // 2 - 1 + fl % 2
    for k in range(n // 2):
        out = 2 * k + 1 + start
        for t in range(fl):
            col = out - t
            if 0 <= col < n:
                rows[k, col] = filt[t]
            else:
                cut[k] = True
    return rows, cut


def orth_rows(a, cut):
    """Gram-Schmidt (by Householder) on the cut rows, leading sign positive."""
    idx = np.flatnonzero(cut)
    if len(idx):
        q, r = np.linalg.qr(a[idx].T)
        a = a.copy()
        a[idx] = (q * np.sign(np.diag(r))).T
    return a


@functools.lru_cache(maxsize=4096)
def analysis_1d(wav, n):
    """Dense boundary analysis matrix and mask of the boundary rows."""
    import pywt

    w = pywt.Wavelet(wav)
    lo, cl = raw_rows(w.dec_lo, n)
    hi, ch = raw_rows(w.dec_hi, n)
    a = np.concatenate([lo, hi])
    cut = np.concatenate([cl, ch])
    return orth_rows(a, cut), cut


@functools.lru_cache(maxsize=256)
def analysis_2d(wav, h, w_):
    """Dense non-separable 2d matrix on (h, w) images: bands a, h, v, d.

    Rows and columns are in column-major image order.
    """
    import pywt

    w = pywt.Wavelet(wav)
    bands = {}
    for key, n in (("r", h), ("c", w_)):
        bands[key + "a"] = raw_rows(w.dec_lo, n)
        bands[key + "d"] = raw_rows(w.dec_hi, n)
    mats, cuts = [], []
    for r, c in (("a", "a"), ("d", "a"), ("a", "d"), ("d", "d")):
        mr, cr = bands["r" + r]
        mc, cc = bands["c" + c]
        mats.append(np.kron(mc, mr))
        cuts.append((cc[:, None] | cr[None, :]).reshape(-1))
    a, cut = np.concatenate(mats), np.concatenate(cuts)
    return orth_rows(a, cut), cut


def pad_axes(x, axes, mode):
    """Extend odd axes by one sample at the end."""
    mode = mode or "zero"
    for a in axes:
        n = x.shape[a]
        if n % 2 == 0:
            continue
        if mode == "zero":
            ext = np.zeros_like(np.take(x, [0], a))
        elif mode in ("constant", "symmetric"):
            ext = np.take(x, [n - 1], a)
        elif mode == "reflect":
            ext = np.take(x, [n - 2], a)
        elif mode == "periodic":
            ext = np.take(x, [0], a)
        x = np.concatenate([x, ext], axis=a)
    return x


def flat(tree):
    """Canonical list of (name, tensor) of a coefficient container."""
    if isinstance(tree, list) or (isinstance(tree, tuple)
                                  and all(isinstance(t, torch.Tensor) for t in tree)
                                  and not hasattr(tree, "_fields")):
        return [(str(i), t) for i, t in enumerate(tree)]
    out = [("A", tree[0])]
    for i, d in enumerate(tree[1:]):
        if isinstance(d, dict):
            out += [(f"{i}{k}", d[k]) for k in sorted(d)]
        else:
            out += [(f"{i}{n}", t) for n, t in zip("HVD", d)]
    return out


def compare_trees(ctx, got, ref, name, tol=1e-12, mech="values"):
    if type(got) is not type(ref):
        ctx.fail("structure", f"{name}: {type(got).__name__} versus {type(ref).__name__}")
    fa, fb = flat(got), flat(ref)
    if [n for n, _ in fa] != [n for n, _ in fb]:
        ctx.fail("structure", f"{name}: {[n for n, _ in fa]} versus {[n for n, _ in fb]}")
    sc = max([1e-300] + [float(t.detach().abs().max()) for _, t in fb if t.numel()])
    for (n, a), (_, b) in zip(fa, fb):
        if a.dtype != b.dtype:
            ctx.fail("structure", f"{name}: {n} dtype {a.dtype} versus {b.dtype}")
        msg = oracle.diff(a, oracle.to_np(b), tol, sc, f"{name}: {n}")
        if msg:
            ctx.fail(mech, msg)
