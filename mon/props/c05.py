"""C05: the padded transforms reconstruct their input."""

import torch

from mon import cases, gen, oracle

COUNT = {"quick": 9000, "thorough": 110000}
RULE = ("random perfect-reconstruction wavelet, transform (1d, 2d, 3d, separable 2d and 3d), "
        "mode, level, sizes, axes, batch, dtype, layout; non-trivial = a decomposition with at "
        "least one level was inverted and compared with the input; distinct by the whole "
        "description except the value seed")
ASSUMPTIONS = ["the tabulated pywt filters reconstruct up to their measured defect; dmey is "
               "excluded because its filters do not reconstruct"]
REQUIRED = ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3"]
MIN_JUDGED = 500
OPS = ["wavedec", "wavedec", "wavedec2", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3"]


def setup(ctx):
    from mon import hooks

    hooks.install(ctx, {})


def corner_cases(tier):
    out = []
    for op in ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3"]:
        nd = cases.NDIM[op]
        for wav in ["haar", "db2", "bior2.2", "rbio3.1", "sym4"]:
            fl = gen.flen(wav)
            if nd == 3 and fl > 6:
                continue
            for k, mode in enumerate(gen.MODES):
                for sizes in cases.corner_sizes(fl, nd):
                    for level in [1, 2]:
                        if all(gen.pad_ok(n, fl, mode, level) for n in sizes):
                            out.append({"op": op, "wav": wav, "mode": mode, "level": level,
                                        "shape": [1 + k % 2, *sizes], "dtype": "f64",
                                        "kind": "normal"})
    for op in cases.INVERSE:
        out += cases.huge_cases(op, (gen.MODES[len(op) % 5], gen.MODES[(len(op) + 2) % 5]))
    return out


def generate(rng, idx, tier):
    spec = cases.gen_analysis(rng, idx // 5, OPS[idx % len(OPS)], tier)
    if spec["wav"].startswith("random:") or spec["wav"] == "dmey":
        spec["wav"] = "db3" if cases.spec_flen(spec) >= 6 else "haar"
    return spec


def case(ctx, spec):
    op = spec["op"]
    nd = cases.NDIM[op]
    x = gen.tensor(spec)
    before = x.detach().clone()
    _, w, coeffs = cases.call_analysis(op, spec, x)
    rec = cases.call_synthesis(cases.INVERSE[op], coeffs, w, spec)
    ow = gen.oracle_wavelet(w)
    axes = cases.spec_axes(spec)
    name = f"{cases.INVERSE[op]}({op}(x{tuple(x.shape)}, {spec['wav']}, {spec['mode']}, " \
           f"{spec.get('level')}), axes={spec.get('axes')})"
    if rec.dim() != x.dim():
        ctx.fail("structure", f"{name}: {rec.dim()} dimensions instead of {x.dim()}")
    for a in range(x.dim()):
        moved = a in [b % x.dim() for b in axes]
        ok = (0, 1) if moved else (0,)
        if rec.shape[a] - x.shape[a] not in ok:
            ctx.fail("structure", f"{name}: shape {tuple(rec.shape)}")
        if moved and len(coeffs) > 1 and rec.shape[a] % 2:
            ctx.fail("structure", f"{name}: odd length {tuple(rec.shape)}")
    crop = rec[tuple(slice(0, s) for s in x.shape)]
    levels = len(coeffs) - 1
    g = oracle.gain(ow) * oracle.gain(ow, False)
    base = 4e-12 if x.dtype == torch.float64 else 4e-6
    tol = min(base * g ** (0.5 * nd * max(levels, 1)), 100 * base)
    tol += 4 * nd * max(levels, 1) * oracle.pr_defect(ow) * g ** (0.5 * nd)
    sc = float(before.abs().max())
    msg = oracle.diff(crop, oracle.to_np(before), tol, sc, name, x.dtype)
    if msg and levels and before.numel():
        # badly conditioned pairs amplify rounding errors at deep levels: measure by how much.
        noise = oracle.roundtrip_noise(oracle.to_np(before), ow, spec["mode"], levels,
                                       tuple(axes), torch.finfo(x.dtype).eps)
        msg = oracle.diff(crop, oracle.to_np(before), tol + 20 * noise / max(sc, 1e-300), sc,
                          name, x.dtype)
    if msg:
        ctx.fail("reconstruction", msg)
    if levels:
        ctx.judged(op)
        ctx.sig(cases.sig_of(spec))
