"""C22: losses of learnable wavelets measure the reconstruction error and orthogonality."""

import copy

import numpy as np
import pywt
import torch

import ptwt
from mon import gen, hooks, vdevice as V

COUNT = {"quick": 2400, "thorough": 40000}
RULE = ("random filter bank (pywt wavelet, orthonormal lattice, biorthogonal pair, perturbed or "
        "arbitrary, even and odd lengths) as ProductFilter or SoftOrthogonalWavelet: every loss "
        "and its components against polynomial formulas in numpy, the perfect reconstruction and "
        "alias losses against the energy of the error of waverec(wavedec(impulse)), zero for "
        "banks that reconstruct, gradients against a stencil exact for quartic polynomials, "
        "dtype, device, default dtype and parameters kept; non-trivial = one loss was compared; "
        "distinct by bank and class")
ASSUMPTIONS = ["the four filters have one length"]
REQUIRED = ["formula", "impulse-energy", "zero", "gradient", "pure", "device", "dtype", "bank"]
MIN_JUDGED = 4000
KINDS = ["pywt", "lattice", "perturbed", "random", "bior", "random", "lattice", "odd"]


def setup(ctx):
    hooks.install(ctx, {})


def generate(rng, idx, tier):
    kind = KINDS[idx % len(KINDS)]
    spec = {"kind": kind, "cls": rng.choice(["product", "soft"]), "ds": rng.randrange(2**31),
            "dtype": rng.choice(["f64", "f64", "f32"]), "default": rng.random() < 0.3}
    if kind in ("pywt", "perturbed"):
        spec["wav"] = gen.pick_wavelet(rng, maxlen=40)
    elif kind == "bior":
        spec["wav"] = rng.choice([w for w in gen.ALL if w.startswith(("bior", "rbio"))])
    elif kind == "odd":
        spec["len"] = rng.choice([1, 3, 5, 7])
    else:
        spec["len"] = rng.choice([2, 4, 4, 6, 8, 10, 14])
    spec["scale"] = rng.choice([1e-3, 0.1, 1.0, 3.0])
    return spec


def lattice(angles):
    """An orthonormal bank: pywt's sign and order conventions."""
    h = np.array([np.cos(angles[0]), np.sin(angles[0])])
    g = np.array([-np.sin(angles[0]), np.cos(angles[0])])
    for a in angles[1:]:
        # delay the second branch by two samples, then rotate
        g2 = np.concatenate([[0, 0], g])
        h2 = np.concatenate([h, [0, 0]])
        h, g = np.cos(a) * h2 + np.sin(a) * g2, -np.sin(a) * h2 + np.cos(a) * g2
    return h[::-1].copy(), g[::-1].copy(), h, g


def bank_of(spec):
    g = np.random.default_rng(spec["ds"])
    kind = spec["kind"]
    if kind in ("pywt", "bior"):
        return [np.array(f, dtype=np.float64) for f in pywt.Wavelet(spec["wav"]).filter_bank]
    if kind == "perturbed":
        return [np.array(f) + spec["scale"] * g.standard_normal(len(f))
                for f in pywt.Wavelet(spec["wav"]).filter_bank]
    if kind == "lattice":
        return list(lattice(g.uniform(-np.pi, np.pi, spec["len"] // 2)))
    return [g.standard_normal(spec["len"]) * spec["scale"] for _ in range(4)]


def model(b):
    """The losses from the filters alone."""
    lo, hi, rlo, rhi = b
    n = len(lo)
    alt = (-1.0) ** np.arange(n)[::-1]
    t = np.convolve(lo, rlo) + np.convolve(hi, rhi)
    two = np.zeros_like(t)
    two[n - 1] = 2
    a = np.convolve(lo * alt, rlo) + np.convolve(hi * alt, rhi)
    e1, e2 = rlo - alt * hi, rhi + alt * lo
    auto = np.correlate(lo, lo, "full")[n - 1:]
    even = auto[::2].copy()
    even[0] -= 1
    return {
        "pr": (((t - two) ** 2).sum(), t, two), "ac": ((a ** 2).sum(), a, 0 * a),
        "pf": ((e1 ** 2).sum() + (e2 ** 2).sum(), e1, e2),
        "bank": ((lo - rlo[::-1]) ** 2).sum() + ((hi - rhi[::-1]) ** 2).sum(),
        "auto": (even ** 2).sum(),
    }


def losses(m):
    out = {"pr": m.perfect_reconstruction_loss(), "ac": m.alias_cancellation_loss(),
           "pf": m.pf_alias_cancellation_loss(), "prod": m.product_filter_loss(),
           "total": m.wavelet_loss()}
    if hasattr(m, "rec_lo_orthogonality_loss"):
        out["bank"] = m.filt_bank_orthogonality_loss()
        out["auto"] = m.rec_lo_orthogonality_loss()
    return out


def value(v):
    return v[0] if isinstance(v, tuple) else v


def case(ctx, spec):
    from ptwt import wavelets_learnable as wl

    dt = gen.DTYPES[spec["dtype"]]
    raw = [torch.tensor(f, dtype=dt) for f in bank_of(spec)]
    b = [t.double().numpy() for t in raw]
    n = len(b[0])
    cls = wl.ProductFilter if spec["cls"] == "product" else wl.SoftOrthogonalWavelet
    name = f"{cls.__name__}({spec.get('wav', n)}, {spec['kind']}, {spec['dtype']})"
    ctx.sig(name + (str(spec["ds"]) if spec["kind"] not in ("pywt", "bior") else ""))
    m = cls(*(t.clone() for t in raw))
    keep = copy.deepcopy(m.state_dict())
    ref = model(b)
    ref["prod"] = ref["pr"][0] + ref["ac"][0]
    ref["total"] = ref["prod"] + (ref["bank"] if spec["cls"] == "soft" else 0)
    mag = sum((np.abs(f).sum()) ** 2 for f in b)
    scale = (mag + 2) ** 2
    tol = (1e-12 if dt == torch.float64 else 1e-5) * scale
    got = losses(m)
    check(ctx, got, ref, tol, scale, dt, name)
    ctx.judged("formula")
    # what the transforms see
    fb = m.filter_bank
    if len(m) != n or not all(torch.equal(f.detach(), t) for f, t in zip(fb, raw)) or \
            not all(getattr(m, k) is getattr(fb, k) for k in ("dec_lo", "dec_hi", "rec_lo",
                                                              "rec_hi")):
        ctx.fail("bank", f"{name}: filter_bank or len() is not what was passed")
    x = torch.randn(2, 40, generator=torch.Generator().manual_seed(spec["ds"]), dtype=dt)
    if n % 2 == 0:
        w = ptwt.WaveletTensorTuple(*raw)
        one = ptwt.wavedec(x, m, mode="zero", level=1)
        two = ptwt.wavedec(x, w, mode="zero", level=1)
        rec = ptwt.waverec([c.detach() for c in one], m)
        rec2 = ptwt.waverec([c.detach() for c in two], w)
        for p, q in zip([*one, rec], [*two, rec2]):
            if p.shape != q.shape or not torch.allclose(p, q, rtol=1e-5, atol=1e-30):
                ctx.fail("bank", f"{name}: transform differs from that with the same filters")
            if not p.requires_grad:
                ctx.fail("bank", f"{name}: transform result does not depend on the parameters")
    ctx.judged("bank")
    if n % 2 == 0:
        impulses(ctx, m, got, dt, tol, n, name)
    if spec["kind"] in ("pywt", "bior", "lattice"):
        zero(ctx, spec, got, dt, scale, b, name)
    if dt == torch.float64:
        gradient(ctx, m, cls, raw, got, spec, scale, name)
    # nothing changed, and the result is repeatable
    again = losses(m)
    for k in got:
        if not torch.equal(value(got[k]), value(again[k])):
            ctx.fail("pure", f"{name}: {k} loss changes when it is computed again")
    for k, v in m.state_dict().items():
        if not torch.equal(v, keep[k]) or v.dtype != dt:
            ctx.fail("pure", f"{name}: parameter {k} changed")
    if sorted(keep) != ["dec_hi", "dec_lo", "rec_hi", "rec_lo"]:
        ctx.fail("pure", f"{name}: parameters are {sorted(keep)}")
    ctx.judged("pure")
    if spec["default"]:
        old = torch.get_default_dtype()
        torch.set_default_dtype(torch.float32 if dt == torch.float64 else torch.float64)
        try:
            other = losses(m)
        finally:
            torch.set_default_dtype(old)
        check(ctx, other, ref, tol, scale, dt, name + " under another default dtype")
        ctx.judged("dtype")
    else:
        device(ctx, m, ref, tol, scale, dt, name)


def check(ctx, got, ref, tol, scale, dt, name):
    for k, v in got.items():
        r = ref[k]
        val = value(v)
        if val.dim() != 0 or val.dtype != dt:
            ctx.fail("formula", f"{name}: {k} loss has shape {tuple(val.shape)} dtype {val.dtype}")
        want = r[0] if isinstance(r, tuple) else r
        if not abs(float(val) - want) <= tol:
            ctx.fail("formula", f"{name}: {k} loss is {float(val):.12g} instead of {want:.12g}")
        if isinstance(r, tuple):
            for i in (1, 2):
                c = v[i].detach().double().reshape(-1).numpy()
                if c.shape != r[i].shape or not np.abs(c - r[i]).max() <= tol:
                    ctx.fail("formula", f"{name}: component {i} of the {k} loss is wrong")


def impulses(ctx, m, got, dt, tol, n, name):
    """Energy of the reconstruction error of one even and one odd impulse."""
    size = 6 * n + 8
    size += size % 2
    pos = size // 2 - (size // 2) % 2
    x = torch.zeros(2, size, dtype=dt)
    x[0, pos] = 1
    x[1, pos + 1] = 1
    w = ptwt.WaveletTensorTuple(*(f.detach() for f in m.filter_bank))
    y = ptwt.waverec(ptwt.wavedec(x, w, mode="zero", level=1), w)
    energy = float(((y - x) ** 2).sum())
    want = 0.5 * float(value(got["pr"]) + value(got["ac"]))
    if not abs(energy - want) <= 10 * tol:
        ctx.fail("impulse-energy", f"{name}: the reconstruction error of two impulses has energy "
                                   f"{energy:.12g} but (pr + ac) / 2 = {want:.12g}")
    ctx.judged("impulse-energy")


def zero(ctx, spec, got, dt, scale, b, name):
    lim = (1e-10 if dt == torch.float64 else 1e-5) * scale
    if spec["kind"] != "lattice":
        if spec["wav"] == "dmey":
            lim = 1e-3
        elif dt == torch.float64:
            lim = max(lim, 1e-7)
    names = ["pr", "ac", "prod"]
    orth = spec["kind"] == "lattice" or pywt.Wavelet(spec["wav"]).orthogonal
    if orth and spec["cls"] == "soft":
        names += ["bank", "auto", "total"]
    if spec["kind"] != "lattice" and orth:
        names += ["pf"]
    for k in names:
        if not float(value(got[k])) <= lim:
            ctx.fail("zero", f"{name}: {k} loss of a reconstructing bank is "
                             f"{float(value(got[k])):.3e}")
    ctx.judged("zero")


def gradient(ctx, m, cls, raw, got, spec, scale, name):
    g = torch.Generator().manual_seed(spec["ds"] + 5)
    d = [torch.randn(t.shape, generator=g, dtype=t.dtype) for t in raw]
    params = [m.dec_lo, m.dec_hi, m.rec_lo, m.rec_hi]
    mag = max(float(t.abs().max()) for t in raw) + 1e-9
    h = 0.05 * mag

    def at(eps):
        with torch.no_grad():
            return {k: float(value(v)) for k, v in
                    losses(cls(*(t + eps * q for t, q in zip(raw, d)))).items()}

    # exact for polynomials of degree four
    a, bb, c, e = at(h), at(-h), at(2 * h), at(-2 * h)
    for k, v in got.items():
        fd = (8 * (a[k] - bb[k]) - (c[k] - e[k])) / (12 * h)
        grads = torch.autograd.grad(value(v), params, allow_unused=True, retain_graph=True)
        s = float(sum((q * p).sum() for q, p in zip(grads, d) if q is not None))
        lim = 1e-9 * (max(abs(a[k]), abs(c[k]), abs(bb[k]), abs(e[k])) / h + abs(fd)) + 1e-12
        if not abs(s - fd) <= lim:
            ctx.fail("gradient", f"{name}: directional derivative of the {k} loss {s:.10g} but "
                                 f"finite difference {fd:.10g}")
        if k in ("pr", "ac", "prod", "total") and any(q is None for q in grads):
            ctx.fail("gradient", f"{name}: {k} loss does not reach all parameters")
    ctx.judged("gradient")


def device(ctx, m, ref, tol, scale, dt, name):
    for p in m.parameters():
        V.tag(p)
    mode = V.VirtualDevice()
    try:
        with mode:
            got = losses(m)
    except Exception as e:  # noqa: BLE001
        if mode.mixed:
            ctx.fail("device", f"{name} on an accelerator: {mode.mixed[0]}")
        ctx.count(f"inconclusive:virtual {type(e).__name__}")
        return
    if mode.mixed:
        ctx.fail("device", f"{name} on an accelerator: {mode.mixed[0]}")
    ctx.count("torch_calls_watched", mode.calls)
    for k, v in got.items():
        for t in (v if isinstance(v, tuple) else (v,)):
            if V.where(t) != V.GPU:
                ctx.fail("device", f"{name}: {k} loss on {V.where(t)} for parameters on an "
                                   "accelerator")
    check(ctx, got, ref, tol, scale, dt, name + " on the virtual accelerator")
    ctx.judged("device")
