"""C07: the matrix transforms reconstruct their input."""

from mon import gen, hooks, matrix, oracle

COUNT = {"quick": 1500, "thorough": 22000}
RULE = ("random orthogonal wavelet, class (1d, separable and non-separable 2d, 3d), "
        "orthogonalization, level (automatic, natural, too large), even and odd sizes, padding of "
        "odd lengths, axes, batch, dtype, layout; non-trivial = a decomposition with at least one "
        "level was inverted and compared with the input; distinct by the description without seed")
ASSUMPTIONS = ["orthogonal wavelets of at most 20 taps (qr) or 12 taps (gramschmidt); longer "
               "boundary filters are numerically ill-conditioned in double precision"]
REQUIRED = ["m1", "m2s", "m2n", "m3"]
MIN_JUDGED = 200


def setup(ctx):
    hooks.install(ctx, {})


def corner_cases(tier):
    out = []
    for wav in ["haar", "db2", "sym3", "db4", "coif1"]:
        fl = gen.flen(wav)
        for n in sorted({fl - 1, fl, fl + 1, 2 * fl - 1, 2 * fl, 2 * fl + 1, 4 * fl + 2,
                         4 * fl + 3}):
            for level in [None, 1, 2, 3, 9]:
                for orth in ["qr", "gramschmidt"]:
                    out.append({"cls": "m1", "orth": orth, "dtype": "f64", "wav": wav,
                                "shape": [2, max(n, 2)], "level": level})
    for cls in ["m2s", "m2n", "m3"]:
        for wav in ["haar", "db2"]:
            for sizes in [[8, 8, 8], [6, 7, 8], [7, 6, 5], [9, 5, 12], [3, 8, 9], [4, 4, 5]]:
                for level in [None, 1, 2, 5]:
                    out.append({"cls": cls, "orth": "qr", "dtype": "f64", "wav": wav,
                                "shape": [2, *sizes[:matrix.ND[cls]]], "level": level})
    for cls, wav, shape, level in [
            ("m1", "haar", [65542], 2), ("m1", "db2", [70001], 1), ("m1", "db2", [70001, 8], 2),
            ("m1", "haar", [2, 1026, 6], 1), ("m2s", "haar", [260, 258], 1),
            ("m2s", "db2", [2, 6, 33002], 1), ("m2s", "db2", [70001, 6, 4], 1),
            ("m2n", "haar", [258, 8], 1), ("m2n", "haar", [70001, 2, 4], 1),
            ("m3", "haar", [4, 2, 33002], 1), ("m3", "haar", [33002, 4, 2, 6], 2)]:
        out.append({"cls": cls, "orth": "qr", "dtype": "f64", "wav": wav, "shape": shape,
                    "level": level})
    return out


def generate(rng, idx, tier):
    return matrix.generate(rng, idx, tier)


def case(ctx, spec):
    x = gen.tensor(spec)
    before = oracle.to_np(x.clone())
    name = f"{spec['cls']} {spec['wav']} {spec['orth']} level={spec.get('level')} " \
           f"{spec['shape']} axes={spec.get('axes')} {spec['dtype']}"
    coeffs = matrix.forward(spec)(x)
    bands, last, _ = matrix.structure(spec)
    axes = matrix.axes_of(spec)
    if len(coeffs) != len(bands) + 1:
        ctx.fail("structure", f"{name}: {len(coeffs) - 1} levels instead of {len(bands)}")
    flat = matrix.flat(coeffs)
    per = {1: 1, 2: 3, 3: 7}[matrix.ND[spec["cls"]]]
    want = [last] + [b for b in reversed(bands) for _ in range(per)]
    for (n, t), sizes in zip(flat, want):
        shape = list(spec["shape"])
        for a, s in zip(axes, sizes):
            shape[a] = s
        if list(t.shape) != shape:
            ctx.fail("structure", f"{name}: band {n} has shape {tuple(t.shape)}, not {shape}")
        if t.dtype != x.dtype:
            ctx.fail("structure", f"{name}: band {n} has dtype {t.dtype}")
    rec = matrix.inverse(spec)(coeffs)
    moved = [a % x.dim() for a in axes]
    if rec.dim() != x.dim():
        ctx.fail("structure", f"{name}: reconstruction has shape {tuple(rec.shape)}")
    for a in range(x.dim()):
        n = x.shape[a]
        ok = (n,) if a not in moved else ((n + n % 2,) if bands else (n, n + n % 2))
        if rec.shape[a] not in ok:
            ctx.fail("structure", f"{name}: reconstruction has shape {tuple(rec.shape)}")
    crop = rec[tuple(slice(0, s) for s in x.shape)]
    tol = (1e-9 if spec["dtype"] == "f64" else 3e-4) * (len(bands) + 1)
    sc = float(abs(before).max()) * max(1.0, before.size ** 0.5 / 4)
    msg = oracle.diff(crop, before, tol, sc, name, x.dtype)
    if msg:
        ctx.fail("reconstruction", msg)
    ctx.sig(matrix.sig_of(spec))
    if bands:
        ctx.judged(spec["cls"])
    else:
        ctx.count("zero-level")
