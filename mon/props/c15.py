"""C15: cwt computes the continuous wavelet transform of pywt."""

import numpy as np
import pywt
import torch

import ptwt
from mon import cases, gen, hooks, oracle

COUNT = {"quick": 7000, "thorough": 80000}
RULE = ("random continuous wavelet (gaus, cgau, mexh, morl, shan, cmor, fbsp, also orthogonal "
        "discrete and the differentiable ones), by name or object, random scales given as array, "
        "tensor or scalar, sampling period, precision, shape, dtype and layout; coefficients and "
        "frequencies against a direct convolution and against pywt.cwt; too small scales must be "
        "rejected; non-trivial = a transform was judged; distinct by the description")
ASSUMPTIONS = ["pywt.integrate_wavelet and pywt.scale2frequency describe the wavelets; float32 "
               "data is judged in the mean (the sampling positions are rounded in float32)"]
REQUIRED = ["values", "pywt", "frequencies", "too-small", "differentiable"]
MIN_JUDGED = 1000
FAMS = ["gaus1", "gaus2", "gaus5", "gaus8", "cgau1", "cgau4", "cgau8", "mexh", "morl",
        "shan1-1.5", "shan1.5-1.0", "cmor1.5-1.0", "cmor1-0.5", "fbsp1-1.5-1.0", "fbsp2-1-0.7"]
DISC = ["haar", "db2", "db5", "sym4", "coif2"]
DIFF = ["shan1-1.5", "shan1-0.8", "cmor1.5-1.0", "cmor1-0.7"]


def setup(ctx):
    hooks.install(ctx, {})


def corner_cases(tier):
    out = []
    for w in FAMS + DISC:
        for form in ("str", "obj"):
            if w in DISC and form == "str":
                continue
            for sform in ("array", "tensor", "scalar"):
                out.append({"wav": w, "form": form, "scales": [2.0, 5.5] if sform != "scalar"
                            else [3.0], "sform": sform, "period": 0.5, "precision": 10,
                            "shape": [2, 40], "dtype": "f64", "kind": "normal",
                            "layout": "contig"})
    for w in DIFF:
        out.append({"wav": w, "form": "diff", "scales": [2.0, 4.0], "sform": "array",
                    "period": 1.0, "precision": 12, "shape": [3, 50], "dtype": "f64",
                    "kind": "normal", "layout": "contig"})
    return out


def generate(rng, idx, tier):
    form = rng.choice(["str", "str", "obj", "obj", "disc", "diff"])
    pool = {"disc": DISC, "diff": DIFF}.get(form, FAMS)
    n = rng.choice([rng.randrange(2, 20), rng.randrange(20, 160), 64, 128])
    k = rng.choice([1, 2, 3, 6])
    kind = rng.choice(["ints", "floats", "range"])
    if kind == "ints":
        scales = [rng.randrange(1, 40) for _ in range(k)]
    elif kind == "range":
        scales = list(range(1, rng.randrange(2, 12)))
    else:
        scales = [round(rng.uniform(0.3, 30), 3) for _ in range(k)]
    bd = rng.choice([0, 1, 1, 2])
    batch = [rng.choice([1, 2, 3]) for _ in range(bd)]
    big = rng.random()
    if big < 0.02:
        n = rng.randrange(300, 5000)
        batch = []
    elif big < 0.04:
        scales = [round(1.5 * 1.03 ** i, 3) for i in range(rng.randrange(20, 160))]
        rng.shuffle(scales)
    elif big < 0.05:
        scales = [rng.randrange(60, 400)]
    elif big < 0.06:
        n = min(n, 40)
        batch = cases.wide_batch(rng, [4, 5], 200)
    k = len(scales)
    spec = {"wav": rng.choice(pool), "form": "obj" if form == "disc" else form, "scales": scales,
            "sform": rng.choice(["array", "array", "tensor"] + (["scalar"] if k == 1 else [])),
            "period": rng.choice([1.0, 0.01, 2.5]),
            "precision": rng.choice([12, 12, 8, 10]),
            "shape": batch + [n],
            "dtype": rng.choice(["f64", "f64", "f32"]),
            "kind": rng.choice(["normal", "uniform", "ints", "impulse", "const", "ramp", "huge",
                                "tiny", "mixed"]),
            "layout": rng.choice(gen.LAYOUTS), "ds": rng.randrange(2**31),
            "unset": rng.random() < 0.2}
    if spec["dtype"] == "f32":
        spec["precision"] = 12
        spec["kind"] = rng.choice(["normal", "ints", "impulse", "mixed"])
    return spec


def reference(x, scales, w, precision):
    """Direct evaluation; None if a scale gives a too short wavelet."""
    int_psi, t = pywt.integrate_wavelet(w, precision=precision)[:2]
    if getattr(w, "complex_cwt", False):
        int_psi = np.conj(int_psi)
    step = t[1] - t[0]
    n = x.shape[-1]
    out = []
    for s in scales:
        j = np.floor(np.arange(s * (t[-1] - t[0]) + 1) / (s * step)).astype(int)
        j = j[j < len(int_psi)]
        h = int_psi[j][::-1]
        if n + len(h) - 2 < n:
            return None
        rows = x.reshape(-1, n)
        conv = np.stack([np.convolve(r, h) for r in rows])
        coef = -np.sqrt(s) * np.diff(conv, axis=-1)
        d = coef.shape[-1] - n
        lo = d // 2
        out.append(coef[:, lo:lo + n].reshape(x.shape))
    return np.stack(out)


def case(ctx, spec):
    x = gen.tensor(spec)
    xn = oracle.to_np(x)
    wav = spec["wav"]
    disc = wav in DISC
    ow = pywt.Wavelet(wav) if disc else pywt.ContinuousWavelet(wav)
    if spec["form"] == "str":
        w = wav
    elif spec["form"] == "diff":
        from ptwt import continuous_transform as ct

        w = (ct._ShannonWavelet if wav.startswith("shan") else ct._ComplexMorletWavelet)(wav)
    else:
        w = ow
    sc_in = np.array(spec["scales"])
    if spec["sform"] == "tensor":
        arg = torch.tensor(spec["scales"])
        sc_in = arg.numpy()
    elif spec["sform"] == "scalar":
        arg = spec["scales"][0]
    else:
        arg = sc_in.copy()
    kw = {"sampling_period": spec["period"], "precision": spec["precision"]}
    if spec.get("unset"):
        kw = {}
    prec = kw.get("precision", 12)
    name = f"cwt(x{tuple(x.shape)} {x.dtype}, {spec['scales']} as {spec['sform']}, {wav} as " \
           f"{spec['form']}, {kw})"
    ref = reference(xn, sc_in, ow, prec)
    if ref is None:
        try:
            got = ptwt.cwt(x, arg, w, **kw)
        except ValueError:
            ctx.judged("too-small")
            return
        ctx.fail("too-small", f"{name}: a too small scale was accepted")
    got, freq = ptwt.cwt(x, arg, w, **kw)
    want_c = bool(getattr(ow, "complex_cwt", False))
    if tuple(got.shape) != ref.shape or got.is_complex() != want_c:
        ctx.fail("structure", f"{name}: {tuple(got.shape)} {got.dtype} instead of {ref.shape}")
    if spec["dtype"] == "f64" and got.dtype != (torch.complex128 if want_c else torch.float64):
        ctx.fail("structure", f"{name}: dtype {got.dtype}")
    g = got.detach().numpy()
    scale = float(np.abs(xn).max()) * np.sqrt(np.max(sc_in)) * 4
    if not np.all(np.isfinite(g)):
        ctx.fail("values", f"{name}: non-finite coefficients")
    if spec["dtype"] == "f64":
        tol = 1e-9 if spec["form"] != "diff" else 1e-6
        e = float(np.abs(g - ref).max())
        if e > tol * scale * xn.shape[-1]:
            k = np.unravel_index(int(np.abs(g - ref).argmax()), g.shape)
            ctx.fail("values", f"{name}: error {e:.2e} at {tuple(map(int, k))}")
        ctx.judged("differentiable" if spec["form"] == "diff" else "values")
    else:
        e = np.linalg.norm(g - ref)
        if e > 0.05 * np.linalg.norm(ref) + 1e-3 * scale * np.sqrt(ref.size):
            ctx.fail("values-f32", f"{name}: error {e:.2e} of {np.linalg.norm(ref):.2e}")
        ctx.judged("values-f32")
    if not disc and spec["dtype"] == "f64":
        pr, pf = pywt.cwt(xn, sc_in, ow, sampling_period=kw.get("sampling_period", 1.0),
                          method="fft", axis=-1, precision=prec)
        tol = 1e-8 if spec["form"] != "diff" else 1e-6
        e = float(np.abs(g - pr).max())
        if e > tol * scale * xn.shape[-1]:
            ctx.fail("pywt", f"{name}: differs from pywt.cwt by {e:.2e}")
        ctx.judged("pywt")
    pf = pywt.scale2frequency(ow, sc_in, prec) / kw.get("sampling_period", 1.0)
    f = freq.detach().numpy() if isinstance(freq, torch.Tensor) else np.asarray(freq)
    pf = np.atleast_1d(pf)
    ftol = 1e-6 if sc_in.dtype == np.float32 else 1e-9
    if f.shape != pf.shape or np.abs(f - pf).max() > ftol * np.abs(pf).max():
        ctx.fail("frequencies", f"{name}: frequencies {f} instead of {pf}")
    ctx.judged("frequencies")
