"""C08: the matrix analysis is the orthonormal boundary wavelet operator."""

import warnings

import numpy as np
import torch

from mon import cases, gen, hooks, matrix, oracle

COUNT = {"quick": 900, "thorough": 12000}
RULE = ("random orthogonal wavelet, class, orthogonalization and sizes; the operator is obtained "
        "by transforming the identity and compared row by row with a dense reference (filter rows "
        "inside, orthonormalised cut filter rows at the borders, up to the sign of a border row), "
        "multi-level results with iterated single levels, energy with the padded input and the "
        "published sparse operator with the call; non-trivial = at least one level was compared; "
        "distinct by the description without the seed")
ASSUMPTIONS = ["the sign of a boundary filter is a free choice of the orthogonalization",
               "numpy's QR is the reference for the orthonormalised border rows"]
REQUIRED = ["rows-m1", "rows-m2s", "rows-m2n", "rows-m3", "energy", "operator", "inverse-operator",
            "levels"]
MIN_JUDGED = 200



def setup(ctx):
    hooks.install(ctx, {})


def corner_cases(tier):
    out = []
    for wav in ["haar", "db2", "sym3", "db4", "coif1", "db6"]:
        fl = gen.flen(wav)
        for n in [fl, fl + 2, 2 * fl, 4 * fl]:
            for orth in ["qr", "gramschmidt"]:
                out.append({"cls": "m1", "orth": orth, "dtype": "f64", "wav": wav,
                            "shape": [1, n], "level": 1, "check": "rows"})
                out.append({"cls": "m1", "orth": orth, "dtype": "f64", "wav": wav,
                            "shape": [1, n], "level": 3, "check": "operator"})
    for cls in ["m2s", "m2n", "m3"]:
        for wav in ["haar", "db2"]:
            for sizes in [[4, 6, 8], [8, 4, 4], [6, 6, 4]]:
                for orth in ["qr", "gramschmidt"]:
                    for check in ["rows", "levels", "energy", "operator"]:
                        out.append({"cls": cls, "orth": orth, "dtype": "f64", "wav": wav,
                                    "shape": [2, *sizes[:matrix.ND[cls]]], "level": 1 + (
                                        check != "rows"), "check": check})
    return out


def generate(rng, idx, tier):
    check = ["rows", "levels", "operator", "energy"][idx % 4]
    spec = matrix.generate(rng, idx, tier, axes=check in ("levels", "energy"))
    spec["dtype"] = "f64"
    spec["check"] = check
    if check in ("rows", "operator"):
        spec["layout"] = "contig"
        nd = matrix.ND[spec["cls"]]
        big = rng.random() < 0.03
        cap = {"m1": (64, 240), "m2s": (14, 26), "m2n": (10, 16),
               "m3": (8, 10)}[spec["cls"]][big]
        fl = gen.flen(spec["wav"])
        if fl > cap:
            spec["wav"], fl = "db2", 4
        sizes = [min(n, cap) for n in matrix.sizes_of(spec)]
        sizes = [max(fl + fl % 2, n - n % 2) for n in sizes]
        if check == "operator":
            sizes = [max(fl, (n // 4) * 4) for n in sizes]
            sizes = [n + n % 2 for n in sizes]
            spec["level"] = rng.choice([1, 2, 2, 3])
        else:
            spec["level"] = 1
        spec["shape"], spec["axes"] = [1] + sizes[-nd:], None
    return spec


def identity(sizes):
    n = int(np.prod(sizes))
    return torch.eye(n, dtype=torch.float64).reshape([n] + list(sizes))


def case(ctx, spec):
    name = f"{spec['cls']} {spec['wav']} {spec['orth']} level={spec.get('level')} " \
           f"{spec['shape']} axes={spec.get('axes')} pad={spec.get('pad_mode')}"
    ctx.sig(spec["check"] + matrix.sig_of(spec))
    globals()["check_" + spec["check"]](ctx, spec, name)


def operator_of(tr, sizes):
    """Rows of the operator per band, from the transform of the identity."""
    res = matrix.flat(tr(identity(sizes)))
    return [(n, oracle.to_np(t).reshape(t.shape[0], -1).T, tuple(t.shape[1:])) for n, t in res]


def same_rows(got, ref, cut, signed, tol):
    """Index of the first row that differs (None if all agree)."""
    for i in range(len(ref)):
        err = np.abs(got[i] - ref[i]).max()
        if cut[i] and not signed:
            err = min(err, np.abs(got[i] + ref[i]).max())
        if not err <= tol:
            return i, err
    return None


def reference_bands(spec, sizes):
    """{band: (rows, cut)} in C order of both the image and the band."""
    cls, wav = spec["cls"], spec["wav"]
    if cls == "m2n":
        h, w = sizes
        a, cut = matrix.analysis_2d(wav, h, w)
        a = a.reshape(-1, w, h).transpose(0, 2, 1).reshape(-1, h * w)
        q = len(a) // 4
        out = {}
        for k, band in enumerate(["A", "0H", "0V", "0D"]):
            blk = a[k * q:(k + 1) * q].reshape(w // 2, h // 2, -1)
            cb = cut[k * q:(k + 1) * q].reshape(w // 2, h // 2)
            out[band] = (blk.transpose(1, 0, 2).reshape(q, -1), cb.T.reshape(-1))
        return out
    mats = [matrix.analysis_1d(wav, n) for n in sizes]

    def kron(letters):
        m, c = np.ones((1, 1)), np.zeros(1, dtype=bool)
        for (a, cut), letter, n in zip(mats, letters, sizes):
            s = slice(0, n // 2) if letter == "a" else slice(n // 2, n)
            m = np.kron(m, a[s])
            c = (c[:, None] | cut[s][None, :]).reshape(-1)
        return m, c

    if cls == "m1":
        return {"0": kron("a"), "1": kron("d")}
    if cls == "m2s":
        return {"A": kron("aa"), "0H": kron("da"), "0V": kron("ad"), "0D": kron("dd")}
    from itertools import product

    keys = ["".join(k) for k in product("ad", repeat=3)]
    return {("A" if k == "aaa" else "0" + k): kron(k) for k in keys}


def check_rows(ctx, spec, name):
    sizes = matrix.sizes_of(spec)
    ops = operator_of(matrix.forward(spec), sizes)
    ref = reference_bands(spec, sizes)
    if [n for n, _, _ in ops] != list(ref):
        ctx.fail("structure", f"{name}: bands {[n for n, _, _ in ops]}")
    full = np.concatenate([m for _, m, _ in ops])
    n = int(np.prod(sizes))
    if full.shape != (n, n):
        ctx.fail("structure", f"{name}: {full.shape[0]} coefficients for {n} samples")
    err = np.abs(full @ full.T - np.eye(n)).max()
    tol = 2e-8
    if not err <= tol:
        ctx.fail("not-orthonormal", f"{name}: |A A^T - 1| = {err:.2e}")
    # products of 1d Gram-Schmidt rows keep the sign, the qr rows may flip
    signed = spec["orth"] == "gramschmidt"
    got = {n: m for n, m, _ in ops}
    bad = {b: same_rows(got[b], *ref[b], signed, tol) for b in ref}
    if "0H" in ref and bad["0H"] and bad["0V"]:
        swap = not same_rows(got["0H"], *ref["0V"], signed, tol) and \
            not same_rows(got["0V"], *ref["0H"], signed, tol)
        if swap:
            ctx.note(f"{spec['cls']}-hv-swapped",
                     f"{name}: horizontal and vertical details are exchanged")
            bad["0H"] = bad["0V"] = None
    for b, r in bad.items():
        if r:
            ctx.fail("rows", f"{name}: band {b} row {r[0]} of shape {sizes} differs by {r[1]:.2e}"
                             f" (border row: {bool(ref[b][1][r[0]])})")
    ctx.judged("rows-" + spec["cls"])


def check_levels(ctx, spec, name):
    """Multi-level results are iterated single-level results."""
    bands, _, _ = matrix.structure(spec)
    if not bands:
        return
    x = gen.tensor(spec)
    res = matrix.forward(spec)(x)
    cur = x.detach().clone()
    outs = []
    single = dict(spec, level=1)
    for _ in bands:
        step = matrix.forward(single)(cur)
        cur = step[0]
        outs.append(step[1])
    want = [cur] + outs[::-1]
    want = want if isinstance(res, list) else tuple(want)
    matrix.compare_trees(ctx, res, want, name + " versus iterated levels", 1e-10)
    ctx.judged("levels")


def check_energy(ctx, spec, name):
    """The energy of the (evenly extended) signal is preserved."""
    bands, _, _ = matrix.structure(spec)
    if not bands:
        return
    spec = dict(spec, level=1)
    x = gen.tensor(spec)
    res = matrix.forward(spec)(x)
    ext = matrix.pad_axes(oracle.to_np(x), [a % x.dim() for a in matrix.axes_of(spec)],
                          spec.get("pad_mode"))
    e_in = float((ext ** 2).sum())
    e_out = sum(float((t.detach() ** 2).sum()) for _, t in matrix.flat(res))
    if not abs(e_in - e_out) <= 1e-8 * max(e_in, 1e-300):
        ctx.fail("energy", f"{name}: {e_out} instead of {e_in}")
    ctx.judged("energy")


def check_operator(ctx, spec, name):
    """The published sparse operators are what the call computes."""
    sizes = matrix.sizes_of(spec)
    fwd, inv = matrix.forward(spec), matrix.inverse(spec)
    for obj, attr in ((fwd, "sparse_fwt_operator"), (inv, "sparse_ifwt_operator")):
        if not hasattr(type(obj), attr):
            continue
        try:
            getattr(obj, attr)
        except (ValueError, NotImplementedError):
            continue
        ctx.fail("operator", f"{name}: {attr} exists before the first call")
    bands, _, padded = matrix.structure(spec)
    ident = identity(sizes)
    n = ident.shape[0]
    res = fwd(ident)
    rec = inv(res)
    err = float((rec - ident).abs().max())
    if not err <= 1e-8:
        ctx.fail("operator", f"{name}: synthesis after analysis is off by {err:.2e}")
    if spec["cls"] in ("m2s", "m3") or padded or not bands:
        if spec["cls"] == "m2s":
            for obj, attr in ((fwd, "sparse_fwt_operator"), (inv, "sparse_ifwt_operator")):
                try:
                    getattr(obj, attr)
                except NotImplementedError:
                    continue
                ctx.fail("operator", f"{name}: separable {attr} was not refused")
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        op = fwd.sparse_fwt_operator.to_dense()
        iop = inv.sparse_ifwt_operator.to_dense()

    def stack(tree):
        parts = []
        for _, t in matrix.flat(tree):
            if spec["cls"] == "m2n":
                t = t.transpose(-1, -2)
            parts.append(t.reshape(t.shape[0], -1))
        return torch.cat(parts, 1)

    sig = ident.transpose(-1, -2) if spec["cls"] == "m2n" else ident
    sig = sig.reshape(n, -1)
    if tuple(op.shape) != (n, n) or tuple(iop.shape) != (n, n):
        ctx.fail("operator", f"{name}: operator shape {tuple(op.shape)} {tuple(iop.shape)}")
    err = float((op @ sig.T - stack(res).T).abs().max())
    if not err <= 1e-9:
        ctx.fail("operator", f"{name}: sparse_fwt_operator is off by {err:.2e}")
    err = float((iop @ op - torch.eye(n, dtype=op.dtype)).abs().max())
    if not err <= 1e-8:
        ctx.fail("operator", f"{name}: sparse_ifwt_operator is off by {err:.2e}")
    ctx.judged("operator")
    # the inverse acts on arbitrary coefficients as its operator
    co = cases.perturb(res, spec.get("ds", 0))
    out = inv(co)
    out = (out.transpose(-1, -2) if spec["cls"] == "m2n" else out).reshape(n, -1)
    err = float((iop @ stack(co).T - out.T).abs().max())
    if not err <= 1e-8:
        ctx.fail("operator", f"{name}: the inverse call is off its operator by {err:.2e}")
    ctx.judged("inverse-operator")
