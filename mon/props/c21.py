"""C21: sparse_math equals dense linear algebra and convolution, for every size and mode."""

import random

import numpy as np
import scipy.signal
import torch

from ptwt import sparse_math as S
from ptwt.matmul_transform import orthogonalize
from ptwt import matmul_transform as M1, matmul_transform_2 as M2
from mon import gen, hooks, matrix, universe as U

COUNT = {"quick": 7000, "thorough": 120000}
RULE = ("random sparse matrices (empty, uncoalesced, rectangular, explicit zeros), filters, sizes "
        "(also smaller than the filter), strides and modes for every function of sparse_math and "
        "orthogonalize; the oracle is dense numpy/scipy code; torch's checker of sparse tensor "
        "invariants is active during all calls and during whole matrix transforms; non-trivial = "
        "one result was compared; distinct by function, shapes, mode and values")
ASSUMPTIONS = ["filters with fewer than two taps and 'valid' convolutions without any output row "
               "are not generated", "rows to orthogonalise are linearly independent"]
REQUIRED = ["kron", "cat", "diag", "replace", "conv", "conv2d", "strided", "strided2d", "batch",
            "orth", "reject", "invariants", "boundary", "large"]
MIN_JUDGED = 6000
FUNCS = ["kron", "cat", "diag", "replace", "conv", "conv2d", "strided", "strided2d", "batch",
         "orth", "reject", "invariants", "boundary"]
MODES = ["full", "same", "sameshift", "valid"]


def setup(ctx):
    hooks.install(ctx, {})


def generate(rng, idx, tier):
    f = FUNCS[idx % len(FUNCS)]
    if idx % 53 == 7:
        f = "large"
    return {"f": f, "ds": rng.randrange(2**31), "dtype": rng.choice(["f32", "f64", "f64"])}


def sparse(rng, g, rows, cols, dtype, density=None, coalesced=None):
    """A random sparse matrix and its dense value."""
    n = int(rows * cols * (rng.choice([0, 0.1, 0.3, 0.7, 1.0]) if density is None else density))
    r, c = g.integers(0, rows, n), g.integers(0, cols, n)
    v = g.standard_normal(n) * (g.random(n) < 0.9)
    idx = torch.from_numpy(np.stack([r, c])) if n else torch.zeros((2, 0), dtype=torch.int64)
    t = torch.sparse_coo_tensor(idx, torch.from_numpy(v).to(dtype), size=(rows, cols))
    if coalesced if coalesced is not None else rng.random() < 0.5:
        t = t.coalesce()
    return t


def dense(t):
    return t.to_dense().numpy() if t.is_sparse else t.numpy()


def close(ctx, got, ref, dtype, key, what):
    if not isinstance(got, torch.Tensor) or got.dtype != dtype:
        ctx.fail(key, f"{what}: result of dtype {getattr(got, 'dtype', type(got))}")
    d = dense(got).astype(np.float64)
    ref = np.asarray(ref, dtype=np.float64)
    if d.shape != ref.shape:
        ctx.fail(key, f"{what}: shape {d.shape} instead of {ref.shape}")
    tol = 1e-12 if dtype == torch.float64 else 1e-5
    if d.size and np.abs(d - ref).max() > tol * (1 + np.abs(ref).max()):
        ctx.fail(key, f"{what}: differs by {np.abs(d - ref).max():.3e}")
    ctx.judged(key)


def toeplitz(filt, n, mode):
    """The dense convolution matrix."""
    f = len(filt)
    full = np.zeros((n + f - 1, n))
    for c in range(n):
        full[c:c + f, c] = filt
    if mode == "full":
        return full
    if mode == "valid":
        return full[f - 1:n]
    start = (f - 1) // 2
    return full[start:start + n]


def conv2(filt, rows, cols, mode):
    """Dense matrix of scipy.signal.convolve2d acting on column-major images."""
    out = []
    for c in range(cols):
        for r in range(rows):
            e = np.zeros((rows, cols))
            e[r, c] = 1
            full = scipy.signal.convolve2d(e, filt, mode="full")
            fr, fc = filt.shape
            if mode == "valid":
                full = full[fr - 1:rows, fc - 1:cols]
            elif mode != "full":
                a, b = (fr - 1) // 2, (fc - 1) // 2
                full = full[a:a + rows, b:b + cols]
            out.append(full.T.flatten())
            shape = full.shape
    return np.stack(out, 1), shape


def case(ctx, spec):
    rng = random.Random(spec["ds"])
    g = np.random.default_rng(spec["ds"])
    dt = torch.float32 if spec["dtype"] == "f32" else torch.float64
    with torch.sparse.check_sparse_tensor_invariants():
        globals()["do_" + spec["f"]](ctx, rng, g, dt, spec)
    ctx.sig(f"{spec['f']}{spec['ds']}")


def do_kron(ctx, rng, g, dt, spec):
    a = sparse(rng, g, rng.randrange(1, 7), rng.randrange(1, 7), dt)
    b = sparse(rng, g, rng.randrange(1, 7), rng.randrange(1, 7), dt)
    ka, kb = dense(a).copy(), dense(b).copy()
    got = S.sparse_kron(a, b)
    close(ctx, got, np.kron(ka, kb), dt, "kron", f"sparse_kron {a.shape} {b.shape}")
    if not (np.array_equal(ka, dense(a)) and np.array_equal(kb, dense(b))):
        ctx.fail("kron", "sparse_kron changed an argument")


def do_cat(ctx, rng, g, dt, spec):
    n = rng.randrange(1, 9)
    m = n + rng.choice([0, 1, 2, 5, 30])
    a = sparse(rng, g, n, n, dt)
    ref = np.eye(m)
    ref[:n, :n] = dense(a)
    close(ctx, S.cat_sparse_identity_matrix(a, m), ref, dt, "cat", f"cat {n} to {m}")


def do_diag(ctx, rng, g, dt, spec):
    k, rows, cols = rng.randrange(1, 9), rng.randrange(1, 10), rng.randrange(1, 10)
    off = rng.randrange(-9, 10)
    d = g.standard_normal(k)
    ref = np.zeros((rows, cols))
    for i in range(k):
        r, c = i + max(-off, 0), i + max(off, 0)
        if r < rows and c < cols:
            ref[r, c] = d[i]
    got = S.sparse_diag(torch.from_numpy(d).to(dt), off, rows, cols)
    close(ctx, got, ref, dt, "diag", f"sparse_diag of {k} values at {off} in {rows}x{cols}")


def do_replace(ctx, rng, g, dt, spec):
    rows, cols = rng.randrange(1, 9), rng.randrange(1, 9)
    a = sparse(rng, g, rows, cols, dt)
    row = sparse(rng, g, 1, cols, dt)
    i = rng.randrange(rows)
    ref = dense(a).copy()
    ref[i] = dense(row)[0]
    close(ctx, S.sparse_replace_row(a, i, row), ref, dt, "replace", f"row {i} of {rows}x{cols}")


def filt1(rng, g):
    f = rng.randrange(2, 12)
    v = g.standard_normal(f)
    if rng.random() < 0.3:
        v[rng.randrange(f)] = 0.0
    return v


def size(rng, f, mode):
    n = rng.choice([rng.randrange(1, f + 3), rng.randrange(1, 30), f, f - 1, f + 1])
    return max(n, f) if mode == "valid" else max(1, n)


def do_conv(ctx, rng, g, dt, spec):
    v = filt1(rng, g)
    mode = rng.choice(MODES)
    n = size(rng, len(v), mode)
    t = torch.from_numpy(v).to(dt)
    ref = toeplitz(t.double().numpy(), n, mode)
    if mode in ("same", "sameshift") and ref.shape[0] == 0:
        return
    close(ctx, S.construct_conv_matrix(t, n, mode=mode), ref, dt, "conv",
          f"construct_conv_matrix of {len(v)} taps, {n} rows, {mode}")


def do_strided(ctx, rng, g, dt, spec):
    v = filt1(rng, g)
    mode = rng.choice(MODES)
    n = size(rng, len(v), mode)
    if mode == "sameshift" and n < 2:
        n = 2
    stride = rng.choice([1, 2, 2, 2, 3, 4])
    t = torch.from_numpy(v).to(dt)
    ref = toeplitz(t.double().numpy(), n, mode)[(1 if mode == "sameshift" else 0)::stride]
    close(ctx, S.construct_strided_conv_matrix(t, n, stride, mode=mode), ref, dt, "strided",
          f"construct_strided_conv_matrix of {len(v)} taps, {n} rows, stride {stride}, {mode}")


def filt2(rng, g):
    return g.standard_normal((rng.randrange(2, 6), rng.randrange(2, 6)))


def do_conv2d(ctx, rng, g, dt, spec):
    v = filt2(rng, g)
    mode = rng.choice(MODES)
    r, c = size(rng, v.shape[0], mode) % 9 + 1, size(rng, v.shape[1], mode) % 9 + 1
    if mode == "valid":
        r, c = max(r, v.shape[0]), max(c, v.shape[1])
    t = torch.from_numpy(v).to(dt)
    ref, _ = conv2(t.double().numpy(), r, c, mode)
    got = S.construct_conv2d_matrix(t, r, c, mode=mode, fully_sparse=rng.random() < 0.7)
    close(ctx, got, ref, dt, "conv2d", f"construct_conv2d_matrix {v.shape} on {r}x{c}, {mode}")


def do_strided2d(ctx, rng, g, dt, spec):
    v = filt2(rng, g)
    mode = rng.choice(MODES)
    r, c = size(rng, v.shape[0], mode) % 9 + 1, size(rng, v.shape[1], mode) % 9 + 1
    if mode == "valid":
        r, c = max(r, v.shape[0]), max(c, v.shape[1])
    if mode == "sameshift":
        r, c = max(r, 2), max(c, 2)
    stride = rng.choice([1, 2, 2, 3])
    t = torch.from_numpy(v).to(dt)
    ref, shape = conv2(t.double().numpy(), r, c, mode)
    num = np.arange(shape[0] * shape[1]).reshape(shape[1], shape[0])
    s = 1 if mode == "sameshift" else 0
    ref = ref[num[s::stride, s::stride].flatten()]
    got = S.construct_strided_conv2d_matrix(t, r, c, stride, mode=mode)
    close(ctx, got, ref, dt, "strided2d",
          f"construct_strided_conv2d_matrix {v.shape} on {r}x{c}, stride {stride}, {mode}")


def do_batch(ctx, rng, g, dt, spec):
    b, m, n, k = (rng.randrange(1, 6) for _ in range(4))
    a = sparse(rng, g, m, n, dt)
    if rng.random() < 0.4:
        a = a.to_dense()
    x = torch.from_numpy(g.standard_normal((b, n, k))).to(dt)
    if rng.random() < 0.3:
        x = x.transpose(1, 2).contiguous().transpose(1, 2)
    ref = np.einsum("mn,bnk->bmk", dense(a).astype(float), x.double().numpy())
    close(ctx, S.batch_mm(a, x), ref, dt, "batch", f"batch_mm {m}x{n} with {b}x{n}x{k}")


def do_orth(ctx, rng, g, dt, spec):
    """Rows with fewer entries than filt_len become an orthonormal basis of their span."""
    fl = rng.choice([2, 3, 4, 6])
    n = rng.randrange(fl + 1, 16)
    m = n + rng.choice([0, 0, 0, 1, 4])
    a = np.zeros((n, m))
    special = sorted(rng.sample(range(n), rng.randrange(0, min(5, n) + 1)))
    for i in range(n):
        k = rng.randrange(1, fl) if i in special else fl
        cols = rng.sample(range(m), k)
        a[i, cols] = g.uniform(0.5, 2, k) * rng.choice([-1, 1])
    sub = a[special]
    if len(special) and np.linalg.cond(sub) > 50:
        ctx.count("ill-conditioned")
        return
    method = rng.choice(["qr", "gramschmidt"])
    t = torch.from_numpy(a).to(dt).to_sparse().coalesce()
    got = orthogonalize(t, fl, method=method)
    d = dense(got).astype(float)
    tol = 1e-10 if dt == torch.float64 else 1e-3
    what = f"orthogonalize {method} of rows {special} of {n}"
    if d.shape != a.shape:
        ctx.fail("orth", f"{what}: shape {d.shape}")
    rest = [i for i in range(n) if i not in special]
    if np.abs(d[rest] - dense(t)[rest]).max(initial=0) > tol:
        ctx.fail("orth", f"{what}: a complete row changed")
    if special:
        q = d[special]
        if np.abs(q @ q.T - np.eye(len(special))).max() > tol:
            ctx.fail("orth", f"{what}: rows are not orthonormal")
        proj = sub - sub @ q.T @ q
        if np.abs(proj).max() > tol * 10:
            ctx.fail("orth", f"{what}: the rows span another space")
    ctx.judged("orth")


def do_reject(ctx, rng, g, dt, spec):
    a = sparse(rng, g, 4, 4, dt)
    x = torch.zeros(2, 5, 3, dtype=dt)
    f = torch.ones(4, dtype=dt)
    f2 = torch.ones(2, 2, dtype=dt)
    calls = [
        ("cat of a dense matrix", lambda: S.cat_sparse_identity_matrix(a.to_dense(), 6)),
        ("cat of a non-square matrix",
         lambda: S.cat_sparse_identity_matrix(sparse(rng, g, 3, 4, dt), 6)),
        ("cat to a smaller size", lambda: S.cat_sparse_identity_matrix(a, 3)),
        ("row of another length", lambda: S.sparse_replace_row(a, 1, sparse(rng, g, 1, 5, dt))),
        ("batch_mm of other shapes", lambda: S.batch_mm(a, x)),
        ("unknown mode", lambda: S.construct_conv_matrix(f, 8, mode="circular")),
        ("unknown mode 2d", lambda: S.construct_conv2d_matrix(f2, 8, 8, mode="Full")),
        ("unknown mode strided 2d",
         lambda: S.construct_strided_conv2d_matrix(f2, 8, 8, mode="reflect")),
        ("unknown mode strided", lambda: S.construct_strided_conv_matrix(f, 8, mode="")),
        ("orthogonalisation", lambda: orthogonalize(
            torch.eye(4, dtype=dt).to_sparse(), 3, method="lu")),
    ]
    what, fn = rng.choice(calls)
    try:
        fn()
    except ValueError:
        ctx.judged("reject")
    except Exception as e:  # noqa: BLE001
        ctx.fail("reject", f"{what}: {type(e).__name__} instead of ValueError")
    else:
        ctx.fail("reject", f"{what}: no exception")


def do_boundary(ctx, rng, g, dt, spec):
    """The boundary matrices against the dense model of C08."""
    wavs = [w for w in gen.ORTH if gen.flen(w) <= 12]
    if rng.random() < 0.6:
        wav = rng.choice(wavs)
        fl = gen.flen(wav)
        n = 2 * rng.randrange((fl + 1) // 2, fl + 8)
        args, mods = (n,), (M1.construct_boundary_a, M1.construct_boundary_s)
        ref, cut = matrix.analysis_1d(wav, n)
        kw = {} if rng.random() < 0.3 else {"device": "cpu"}
    else:
        wav = rng.choice([w for w in wavs if gen.flen(w) <= 6])
        fl = gen.flen(wav)
        h, w = (2 * rng.randrange((fl + 1) // 2, 6) for _ in range(2))
        args, mods = (h, w), (M2.construct_boundary_a2, M2.construct_boundary_s2)
        ref, cut = matrix.analysis_2d(wav, h, w)
        kw = {"device": "cpu"}
    orth = rng.choice(["qr", "gramschmidt"])
    if orth != "qr" or rng.random() < 0.5:
        kw["orthogonalization"] = orth
    else:
        orth = "qr"
    if dt == torch.float32 or rng.random() < 0.5:
        kw["dtype"] = dt
    what = f"boundary matrices of {wav} for {args} {kw}"
    a, s = (f(wav, *args, **kw) for f in mods)
    f64 = dt == torch.float64
    for name, t in (("analysis", a), ("synthesis", s)):
        if t.dtype != dt or not t.is_sparse:
            ctx.fail("boundary", f"{what}: {name} has dtype {t.dtype}, layout {t.layout}")
        if tuple(t.shape) != ref.shape:
            ctx.fail("boundary", f"{what}: {name} has shape {tuple(t.shape)}")
    da, ds = dense(a).astype(float), dense(s).astype(float)
    tol = 2e-8 if f64 else 5e-3
    n = len(ref)
    for name, err in (("A A^T - 1", np.abs(da @ da.T - np.eye(n)).max()),
                      ("S A - 1", np.abs(ds @ da - np.eye(n)).max())):
        if not err <= tol:
            ctx.fail("boundary", f"{what}: |{name}| = {err:.2e}")
    inner = np.abs(da - ref)[~cut].max(initial=0)
    if not inner <= (1e-10 if f64 else 1e-5):
        ctx.fail("boundary", f"{what}: inner rows differ by {inner:.2e}")
    if f64:
        for i in np.flatnonzero(cut):
            err = np.abs(da[i] - ref[i]).max()
            if orth == "qr":
                err = min(err, np.abs(da[i] + ref[i]).max())
            if not err <= tol:
                ctx.fail("boundary", f"{what}: border row {i} differs by {err:.2e}")
    ctx.judged("boundary")


def do_invariants(ctx, rng, g, dt, spec):
    """Whole matrix transforms under the sparse invariant checker."""
    s = None
    while s is None:
        u = rng.choice(U.MAT + ["im1", "im2s", "im3"])
        s = U.generate(rng, 0, u, dtypes=(spec["dtype"],))
    tree = U.build_input(s)
    run = U.make(s)
    out = run(tree)
    with torch.sparse.check_sparse_tensor_invariants(False):
        ref = U.make(s)(tree)
    U.compare(ctx, out, ref, U.name_of(s), "invariants", 1e-9 if dt == torch.float64 else 1e-3)
    ctx.judged("invariants")


def entries(t):
    """The nonzero entries of a sparse tensor as {(row, col): value}, added up by Python."""
    out = {}
    for (r, c), v in zip(t._indices().T.tolist(), t._values().double().tolist()):
        out[r, c] = out.get((r, c), 0.0) + v
    return {k: v for k, v in out.items() if v}


def scattered(rng, g, rows, cols, k, dt):
    """k entries spread over a huge matrix, its corners among them."""
    r, c = g.integers(0, rows, k), g.integers(0, cols, k)
    if k > 1:
        r[:2], c[:2] = (0, rows - 1), (rng.choice([0, cols - 1]), cols - 1)
    return torch.sparse_coo_tensor(torch.from_numpy(np.stack([r, c])),
                                   torch.from_numpy(g.standard_normal(k)).to(dt), (rows, cols))


def same_entries(ctx, got, ref, shape, dt, what):
    if got.dtype != dt or not got.is_sparse or tuple(got.shape) != tuple(shape):
        ctx.fail("large", f"{what}: a {got.layout} {got.dtype} tensor of shape {tuple(got.shape)} "
                          f"instead of {tuple(shape)}")
    tol = 1e-12 if dt == torch.float64 else 1e-5
    e = entries(got)
    for k in e.keys() | ref.keys():
        if abs(e.get(k, 0.0) - ref.get(k, 0.0)) > tol * (1 + abs(ref.get(k, 0.0))):
            ctx.fail("large", f"{what}: entry {k} is {e.get(k, 0.0)} instead of {ref.get(k, 0.0)}")


def do_large(ctx, rng, g, dt, spec):
    """Operands whose sizes leave the ranges of 16 and 32 bit integers and of float32."""
    kind = rng.choice(["kron", "kron", "cat", "diag", "replace", "conv", "strided", "conv2d",
                       "batch"])
    ctx.count(f"large {kind}")
    if kind == "kron":
        sizes = [rng.choice([1, 3, 255, 257, 4000, 70001, 100000, 2**24 + 3]) for _ in range(4)]
        a = scattered(rng, g, sizes[0], sizes[1], rng.randrange(1, 12), dt)
        b = scattered(rng, g, sizes[2], sizes[3], rng.randrange(1, 12), dt)
        shape = (sizes[0] * sizes[2], sizes[1] * sizes[3])
        if shape[0] * shape[1] >= 2**62:
            return
        ref = {}
        for (r, c), v in entries(a).items():
            for (p, q), w in entries(b).items():
                ref[r * sizes[2] + p, c * sizes[3] + q] = v * w
        same_entries(ctx, S.sparse_kron(a, b), ref, shape, dt, f"sparse_kron of sizes {sizes}")
    elif kind == "cat":
        base = rng.choice([2048, 32767, 65535, 2**24, 2**24])
        n, m = base - rng.randrange(0, 4), base + rng.randrange(2, 9)
        if base > 65535 or rng.random() < 0.2:
            dt = rng.choice([torch.float32, torch.float32, dt])
        a = scattered(rng, g, n, n, 20, dt)
        ref = entries(a)
        ref.update({(i, i): 1.0 for i in range(n, m)})
        same_entries(ctx, S.cat_sparse_identity_matrix(a, m), ref, (m, m), dt,
                     f"cat_sparse_identity_matrix from {n} to {m}")
    elif kind == "diag":
        k = rng.choice([300, 33000, 66000])
        off = rng.choice([-1, 1]) * rng.choice([0, 5, 33000, 2**24, 2**31 + 7])
        rows, cols = (k + max(0, s * off) - rng.choice([0, 0, 3]) for s in (-1, 1))
        d = g.standard_normal(k)
        got = S.sparse_diag(torch.from_numpy(d).to(dt), off, rows, cols)
        ref = {(i + max(-off, 0), i + max(off, 0)): d[i] for i in range(k)
               if i + max(-off, 0) < rows and i + max(off, 0) < cols}
        same_entries(ctx, got, ref, (rows, cols), dt,
                     f"sparse_diag of {k} values at {off} in {rows}x{cols}")
    elif kind == "replace":
        rows, cols = rng.choice([(70000, 50), (300, 2**20 + 11), (140001, 3)])
        a, row = scattered(rng, g, rows, cols, 2000, dt), scattered(rng, g, 1, cols, 20, dt)
        i = rng.choice([0, rows - 1, rng.randrange(rows), int(a._indices()[0, 5])])
        ref = {k: v for k, v in entries(a).items() if k[0] != i}
        ref.update({(i, c): v for (_, c), v in entries(row).items()})
        same_entries(ctx, S.sparse_replace_row(a, i, row), ref, (rows, cols), dt,
                     f"sparse_replace_row {i} of {rows}x{cols}")
    elif kind in ("conv", "strided"):
        v = g.standard_normal(rng.randrange(2, 5))
        t = torch.from_numpy(v).to(dt)
        n, mode = rng.choice([33000, 66000, 70001]), rng.choice(MODES)
        stride = 1 if kind == "conv" else rng.choice([2, 2, 3])
        f = len(v)
        start = {"full": 0, "valid": f - 1}.get(mode, (f - 1) // 2)
        rows = {"full": n + f - 1, "valid": n - f + 1}.get(mode, n)
        if kind == "conv":
            got, first = S.construct_conv_matrix(t, n, mode=mode), 0
        else:
            got = S.construct_strided_conv_matrix(t, n, stride, mode=mode)
            first = 1 if mode == "sameshift" else 0
        ref = {}
        taps = t.double().tolist()
        for new, old in enumerate(range(first, rows, stride)):
            for j in range(f):
                if 0 <= old + start - j < n:
                    ref[new, old + start - j] = taps[j]
        same_entries(ctx, got, ref, (len(range(first, rows, stride)), n), dt,
                     f"{kind} matrix of {f} taps, {n} rows, stride {stride}, {mode}")
    elif kind == "conv2d":
        v = g.standard_normal((rng.randrange(2, 4), rng.randrange(2, 4)))
        r, c = rng.choice([(260, 258), (33000, 2), (2, 33000), (181, 363)])
        r, c = max(r, v.shape[0]), max(c, v.shape[1])
        mode = rng.choice(MODES)
        stride = rng.choice([1, 2])
        t = torch.from_numpy(v).to(dt)
        x = g.standard_normal((r, c))
        full = scipy.signal.convolve2d(x, t.double().numpy())
        fr, fc = v.shape
        if mode == "valid":
            full = full[fr - 1:r, fc - 1:c]
        elif mode != "full":
            a, b = (fr - 1) // 2, (fc - 1) // 2
            full = full[a:a + r, b:b + c]
        if stride == 1:
            got = S.construct_conv2d_matrix(t, r, c, mode=mode)
        else:
            got = S.construct_strided_conv2d_matrix(t, r, c, stride, mode=mode)
            s = 1 if mode == "sameshift" else 0
            full = full[s::stride, s::stride]
        what = f"2d convolution matrix of {v.shape} on {r}x{c}, stride {stride}, {mode}"
        if tuple(got.shape) != (full.size, x.size) or got.dtype != dt:
            ctx.fail("large", f"{what}: {got.dtype} of shape {tuple(got.shape)}")
        y = torch.sparse.mm(got.double(), torch.from_numpy(x.T.flatten())[:, None])[:, 0]
        err = np.abs(y.numpy() - full.T.flatten()).max()
        if not err <= (1e-11 if dt == torch.float64 else 1e-4):
            ctx.fail("large", f"{what}: differs by {err:.3e}")
    else:
        m, n, k = rng.choice([3, 500]), rng.choice([7, 66000]), rng.choice([1, 2])
        b = rng.choice([1, 300, 1025, 66000] if n == 7 and m == 3 else [1, 3])
        a = scattered(rng, g, m, n, 50, dt)
        x = torch.from_numpy(g.standard_normal((b, n, k))).to(dt)
        ref = np.zeros((b, m, k))
        for (r, c), v in entries(a).items():
            ref[:, r] += v * x[:, c].double().numpy()
        got = S.batch_mm(a, x)
        what = f"batch_mm {m}x{n} with {b}x{n}x{k}"
        if got.dtype != dt or tuple(got.shape) != ref.shape:
            ctx.fail("large", f"{what}: {got.dtype} of shape {tuple(got.shape)}")
        err = np.abs(got.double().numpy() - ref).max()
        if not err <= (1e-11 if dt == torch.float64 else 1e-4):
            ctx.fail("large", f"{what}: differs by {err:.3e}")
    ctx.judged("large")
