"""C09: matrix transform objects do not depend on the calls they served before."""

import random
from contextlib import nullcontext

import ptwt
import torch

from mon import cases, gen, hooks, matrix, pristine

COUNT = {"quick": 640, "thorough": 9000}
RULE = ("random histories of 2-7 calls (some of 20-45) on one MatrixWavedec*/MatrixWaverec* object "
        "with changing sizes, batch shapes, dtypes, coefficient depths, in-place edits of earlier "
        "results, of the input tensors themselves and rejected calls in between, each result compared with a fresh object's, part "
        "of them built by a freshly imported copy of the package; non-trivial = at "
        "least two calls of one object were compared; distinct by class, wavelet and the sequence "
        "of shapes")
ASSUMPTIONS = ["the fresh object is judged by C07 and C08"]
REQUIRED = ["analysis", "synthesis", "after-rejected-call", "operator", "pristine",
            "long-history", "same-tensor"]
MIN_JUDGED = 400


def setup(ctx):
    hooks.install(ctx, {})


def corner_cases(tier):
    out = []
    for cls in ["m1", "m2s", "m2n", "m3"]:
        nd = matrix.ND[cls]
        for level in [None, 1, 2]:
            for wav in ["haar", "db2"]:
                a, b, c = [16, 12, 8][:nd], [12, 12, 10][:nd], [10, 14, 9][:nd]
                if cls != "m1":
                    a, b, c = [n // 2 + 2 for n in a], [n // 2 + 4 for n in b], c
                swapped = a[::-1]
                out.append({"cls": cls, "orth": "qr", "wav": wav, "level": level,
                            "steps": [{"shape": [2, *a], "dtype": "f64"},
                                      {"shape": [2, *swapped], "dtype": "f64"},
                                      {"shape": [3, *b], "dtype": "f32"},
                                      {"shape": [3, *b], "dtype": "f64"},
                                      {"shape": c, "dtype": "f64"},
                                      {"shape": [2, *a], "dtype": "f64"}]})
    return out


def generate(rng, idx, tier):
    spec = matrix.generate(rng, idx, tier, axes=True)
    nd = matrix.ND[spec["cls"]]
    fl = gen.flen(spec["wav"])
    if fl > 12:
        spec["wav"], fl = "db3" if spec["cls"] in ("m1", "m2s") else "db2", 6
    top = {"m1": 60, "m2s": 24, "m2n": 11, "m3": 11}[spec["cls"]]
    pool = []
    long = rng.random() < 0.05
    if long:
        top = min(top, {"m1": 40, "m2s": 14, "m2n": 9, "m3": 8}[spec["cls"]])
    for _ in range(rng.randrange(6, 12) if long else rng.randrange(2, 4)):
        pool.append([rng.randrange(2 if rng.random() < 0.15 else fl, max(fl + 1, top))
                     for _ in range(nd)])
    if nd > 1:
        pool.append(pool[0][::-1])
        other = list(pool[0])
        other[rng.randrange(nd)] += 1
        pool.append(other)
    else:
        pool.append([pool[0][0] + 1])
    total = len(spec["shape"])
    steps = []
    for _ in range(rng.randrange(20, 46) if long else rng.randrange(3, 8)):
        sizes = rng.choice(pool)
        if spec["axes"] is None:
            bd = rng.choice([0, 1, 1, 2])
            shape = [rng.choice([1, 2, 3]) for _ in range(bd)] + list(sizes)
        else:
            shape = [rng.choice([1, 2, 3]) for _ in range(total)]
            for a, s in zip(spec["axes"], sizes):
                shape[a] = s
        steps.append({"shape": shape, "dtype": rng.choice(["f64", "f64", "f32"]),
                      "op": rng.choice(["call", "call", "call", "reject", "edit", "operator",
                                        "depth"])})
    return {k: spec[k] for k in ("cls", "orth", "wav", "level", "axes", "pad_mode")} | {
        "steps": steps, "ds": spec["ds"]}


def rejected(fn):
    try:
        fn()
    except Exception:  # noqa: BLE001
        return True
    return False


def case(ctx, spec):
    spec.setdefault("axes", None)
    spec["dtype"] = "f64"
    fwd, inv = matrix.forward(spec), matrix.inverse(spec)
    rng = random.Random(spec["ds"])
    nd = matrix.ND[spec["cls"]]
    calls = 0
    kept = []
    for k, step in enumerate(spec["steps"]):
        s = dict(spec, **step)
        op = step.get("op", "call")
        x = gen.tensor({"shape": s["shape"], "dtype": s["dtype"], "ds": spec["ds"] + k})
        name = f"call {k} of {[t['shape'] for t in spec['steps']]} on {spec['cls']} " \
               f"{spec['wav']} {spec['orth']} level={spec['level']} axes={spec['axes']} " \
               f"{s['dtype']}"
        if op == "reject":
            bad = [lambda: fwd(torch.zeros(s["shape"], dtype=torch.int64)),
                   lambda: fwd(torch.zeros([], dtype=torch.float64)),
                   lambda: inv([torch.zeros(s["shape"], dtype=torch.float16)]),
                   lambda: inv(break_coeffs(matrix.forward(s)(x)))]
            if rejected(bad[rng.randrange(len(bad))]):
                ctx.count("rejected_calls")
        tol = 1e-12 if s["dtype"] == "f64" else 1e-5
        got = fwd(x)
        last = k == len(spec["steps"]) - 1
        with pristine.swapped() if last or rng.random() < 0.3 else nullcontext() as module:
            fresh = matrix.forward(s)
            want = pristine.convert(fresh(x.clone()))
            fresh_inv = matrix.inverse(s)
        matrix.compare_trees(ctx, got, want, "analysis, " + name, tol)
        ctx.judged("analysis")
        if module is not None:
            ctx.judged("pristine")
        coeffs = cases.perturb(want, spec["ds"] + k) if k % 2 else want
        if op == "depth" and len(coeffs) > 2:
            # drop the finest level: same object, fewer levels, smaller output
            coeffs = coeffs[:-1]
        rec = inv(coeffs)
        ref = fresh_inv(pristine.convert(coeffs, module or ptwt))
        matrix.compare_trees(ctx, [rec], [ref], "synthesis, " + name, tol)
        ctx.judged("synthesis")
        if op == "reject":
            ctx.judged("after-rejected-call")
        if op in ("operator", "depth") and spec["cls"] in ("m1", "m2n") and len(coeffs) > 1:
            compare_operators(ctx, fwd, fresh, "sparse_fwt_operator", name)
            compare_operators(ctx, inv, fresh_inv, "sparse_ifwt_operator", name)
        for old, copy in kept:
            if not torch.equal(old, copy):
                ctx.fail("result-overwritten", f"{name} changed the result of an earlier call")
        kept = [(t, t.clone()) for _, t in matrix.flat(got)] + [(rec, rec.clone())]
        if op == "edit":
            with torch.no_grad():
                for t, _ in kept:
                    t.add_(1.0)
            kept = []
            if len(coeffs) > 1:
                # no level, no copy: the input itself is returned
                again(ctx, spec, fwd, inv, x, got, want, coeffs, ref, tol, name)
        calls += 1
    if calls >= 20:
        ctx.judged("long-history")
    if calls > 1:
        ctx.sig(f"{spec['cls']}|{spec['wav']}|{spec['level']}|{spec['axes']}|"
                + str([(t["shape"], t["dtype"], t.get("op")) for t in spec["steps"]]))
    assert nd


def again(ctx, spec, fwd, inv, x, got, want, coeffs, ref, tol, name):
    """The very same tensors once more: nothing may be remembered by their identity."""
    name += ", same tensor again after the result was edited"
    # the containers belong to the caller as well
    for part in got:
        if isinstance(part, dict):
            part.clear()
    if isinstance(got, list):
        got.clear()
    matrix.compare_trees(ctx, fwd(x), want, "analysis, " + name, tol)
    matrix.compare_trees(ctx, [inv(coeffs)], [ref], "synthesis, " + name, tol)
    # numpy writes to the memory without telling torch
    x.numpy()[...] *= -1
    flipped = [t for _, t in matrix.flat(fwd(x))]
    matrix.compare_trees(ctx, flipped, [-t for _, t in matrix.flat(want)],
                         "analysis, " + name + " and the signal as well", tol)
    with torch.no_grad():
        for _, t in matrix.flat(coeffs):
            t.neg_()
    matrix.compare_trees(ctx, [inv(coeffs)], [-ref],
                         "synthesis, " + name + " and the coefficients as well", tol)
    ctx.judged("same-tensor")


def compare_operators(ctx, used, fresh, attr, name):
    """The documented operator of a used object is that of a fresh object after the same call."""
    ops = []
    for obj in (used, fresh):
        try:
            ops.append(getattr(obj, attr).to_dense())
        except (NotImplementedError, ValueError) as e:
            ops.append(type(e).__name__)
    a, b = ops
    if isinstance(a, str) or isinstance(b, str):
        if not (isinstance(a, str) and isinstance(b, str) and a == b):
            ctx.fail("operator", f"{attr} after {name}: {a if isinstance(a, str) else a.shape}"
                                 f" versus fresh {b if isinstance(b, str) else b.shape}")
    elif a.shape != b.shape or a.dtype != b.dtype or not torch.allclose(
            a, b, rtol=0, atol=1e-12 if a.dtype == torch.float64 else 1e-5):
        ctx.fail("operator", f"{attr} after {name} differs from a fresh object's")
    ctx.judged("operator")


def break_coeffs(co):
    """Coefficients whose finest level has a wrong shape."""
    out = list(co)
    last = out[-1]
    if isinstance(last, torch.Tensor):
        out[-1] = torch.cat([last, last], -1)
    elif isinstance(last, dict):
        out[-1] = {k: (torch.cat([v, v], -1) if k == sorted(last)[0] else v)
                   for k, v in last.items()}
    else:
        out[-1] = type(last)(torch.cat([last[0], last[0]], -1), *last[1:])
    return out if isinstance(co, list) else tuple(out)
