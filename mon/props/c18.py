"""C18: gradients are those of the linear map each transform is."""

import random

import torch

import ptwt
from mon import cases, gen, hooks, universe as U

COUNT = {"quick": 3000, "thorough": 45000}
RULE = ("random program out of all transforms and inverses in float64: linearity, <g, F(v)> = "
        "<backward(g), v> for random g and v, zero second derivatives, forward-mode agreement "
        "where supported, gradients with respect to tensor filters and to the parameters of "
        "differentiable wavelets against finite differences; non-trivial = one identity was "
        "judged; distinct by program description")
ASSUMPTIONS = ["finite differences of smooth float64 functions with central steps of 1e-5"]
REQUIRED = ["linear", "adjoint", "filters", "cwt-parameters", "partial"]
MIN_JUDGED = 1500
VALUES = ["plain", "plain", "plain", "zero-leaf", "zeros", "constant", "onehot"]
FILTER_OPS = U.CONV + U.REC + ["swt", "iswt"]


def setup(ctx):
    hooks.install(ctx, {})


def generate(rng, idx, tier):
    r = rng.random()
    if r < 0.25:
        u = rng.choice(FILTER_OPS)
        spec = U.generate(rng, idx, u, dtypes=("f64",), layouts=False, wforms=False,
                          batch=rng.choice([0, 1]))
        if spec is None:
            return None
        if gen.flen(spec["wav"]) > (10 if U.ND[u] < 3 else 6):
            spec["wav"] = "haar" if "shape" not in spec else spec["wav"]
        spec["check"] = "filters"
        spec["values"] = rng.choice(VALUES)
        return spec
    if r < 0.3:
        return {"u": "cwt", "check": "cwtpar", "dtype": "f64", "kind": "normal",
                "wav": rng.choice(["shan1-1.5", "cmor1.5-1.0", "shan0.8-1.0", "cmor1-0.6"]),
                "wform": "diff", "scales": [rng.choice([1.5, 2, 4]) for _ in range(2)],
                "shape": [2, rng.randrange(10, 40)], "ds": rng.randrange(2**31)}
    u = U.ALL[idx % len(U.ALL)]
    if u == "im2n" and rng.random() < 0.8:
        u = rng.choice(U.CONV)
    spec = U.generate(rng, idx, u, dtypes=("f64",))
    if spec is not None:
        spec["check"] = "adjoint"
        spec["values"] = rng.choice(VALUES)
    return spec


def special(tree, values, ds):
    """Values at which a shortcut of the code could take another path than elsewhere."""
    if values == "plain":
        return tree
    rng = random.Random(ds + 5)
    n = len(U.leaves(tree))
    chosen = {rng.randrange(n) for _ in range(1 + n // 2)} if values != "zeros" else set(range(n))
    count = iter(range(n))

    def one(t):
        if next(count) not in chosen:
            return t
        t = t.detach().clone()
        if values == "onehot":
            mask = torch.zeros(t.numel(), dtype=t.dtype)
            if t.numel():
                mask[rng.randrange(t.numel())] = 1.0
            return t.mul_(mask.reshape(t.shape))
        return t.fill_({"zero-leaf": 0.0, "zeros": 0.0, "constant": 1.25}[values])

    return U.tmap(one, tree)


def inner(a, b):
    """Real inner product of two containers."""
    s = 0.0
    for x, y in zip(U.leaves(a), U.leaves(b)):
        s = s + (x * y.conj()).real.sum() if x.is_complex() else s + (x * y).sum()
    return s


def rand_like(tree, gtor):
    def one(t):
        if t.is_complex():
            return torch.randn(t.shape, generator=gtor, dtype=torch.float64) + \
                1j * torch.randn(t.shape, generator=gtor, dtype=torch.float64)
        return torch.randn(t.shape, generator=gtor, dtype=t.dtype)

    return U.tmap(one, tree)


def norm(tree):
    return float(sum((t.detach().abs() ** 2).sum() for t in U.leaves(tree))) ** 0.5


def case(ctx, spec):
    ctx.sig(U.name_of(spec) + spec["check"] + spec.get("values", ""))
    {"filters": filters, "cwtpar": cwtpar, "adjoint": adjoint}[spec["check"]](ctx, spec)


def adjoint(ctx, spec):
    name = U.name_of(spec)
    run = U.make(spec)
    gtor = torch.Generator().manual_seed(spec["ds"] % 2**31)
    x = special(U.build_input(spec), spec.get("values", "plain"), spec["ds"])
    x = U.tmap(lambda t: t.detach().requires_grad_(True), x)
    v = rand_like(x, gtor)
    fx, fv = run(x), run(v)
    lin = run(U.tmap(lambda t: t, _combine(x, v)))
    U.compare(ctx, lin, _combine(fx, fv), name + " of 2x - 3v", "linear", tol=1e-10)
    ctx.judged("linear")
    g = rand_like(fx, gtor)
    xs = U.leaves(x)
    outs = U.leaves(fx)
    for i, t in enumerate(outs):
        if not t.requires_grad:
            ctx.fail("detached", f"{name}: output {i} has no gradient")
    s = inner(fx, g)
    grads = torch.autograd.grad(s, xs, create_graph=True, allow_unused=True)
    if any(q is None for q in grads):
        ctx.fail("detached", f"{name}: input {[i for i, q in enumerate(grads) if q is None]} "
                             "has no gradient")
    lhs = float(inner(fv, g))
    rhs = float(sum((q.detach() * t).sum() for q, t in zip(grads, U.leaves(v))))
    tol = 1e-9 * (norm(fv) * norm(g) + 1e-12)
    if not abs(lhs - rhs) <= tol:
        ctx.fail("adjoint", f"{name}: <g, Fv> = {lhs:.12g} but <F'g, v> = {rhs:.12g}")
    ctx.judged("adjoint")
    # gradient of one output only; must have the same values as with the other grads zero
    k = spec["ds"] % len(outs)
    one = torch.autograd.grad(outs[k], xs, U.leaves(g)[k].resolve_conj() if not
                              outs[k].is_complex() else U.leaves(g)[k],
                              retain_graph=True, allow_unused=True)
    lhs = inner([U.leaves(fv)[k]], [U.leaves(g)[k]])
    rhs = sum((q.detach() * t).sum() for q, t in zip(one, U.leaves(v)) if q is not None)
    if not abs(float(lhs) - float(rhs)) <= tol:
        ctx.fail("adjoint", f"{name}: partial backward through output {k}: {float(lhs):.12g} "
                            f"versus {float(rhs):.12g}")
    ctx.judged("partial")


def _combine(a, b):
    la, lb = U.leaves(a), U.leaves(b)
    it = iter([2 * p - 3 * q for p, q in zip(la, lb)])
    return U.tmap(lambda _: next(it), a)


def filters(ctx, spec):
    """Central differences along a random direction in filter space."""
    name = U.name_of(spec) + " filters"
    gtor = torch.Generator().manual_seed(spec["ds"] % 2**31)
    base = ptwt.WaveletTensorTuple.from_wavelet(gen.oracle_wavelet(spec["wav"]), torch.float64)
    bank = [f.clone().requires_grad_(True) for f in base]
    direc = [torch.randn(f.shape, generator=gtor, dtype=f.dtype) for f in base]
    x = special(U.tmap(lambda t: t.detach(), U.build_input(spec)), spec.get("values", "plain"),
                spec["ds"])
    old = gen.wavelet
    state = {}
    gen.wavelet = lambda *a, **k: state["w"]
    try:
        state["w"] = ptwt.WaveletTensorTuple(*bank)
        out = U.make(spec)(x)
        g = rand_like(out, gtor)
        if not any(t.requires_grad for t in U.leaves(out)):
            ctx.fail("detached", f"{name}: the result does not depend on the filters")
        grads = torch.autograd.grad(inner(out, g), bank, allow_unused=True)

        def value(eps):
            state["w"] = ptwt.WaveletTensorTuple(*(f + eps * d for f, d in zip(base, direc)))
            with torch.no_grad():
                return float(inner(U.make(spec)(x), g))

        h = 1e-4
        fd = (8 * (value(h) - value(-h)) - (value(2 * h) - value(-2 * h))) / (12 * h)
    finally:
        gen.wavelet = old
    got = float(sum((q * d).sum() for q, d in zip(grads, direc) if q is not None))
    scale = abs(value_scale(out, g)) + abs(fd) + 1.0
    if not abs(got - fd) <= 1e-5 * scale:
        ctx.fail("filter-gradient", f"{name}: directional derivative {got:.10g} but finite "
                                    f"difference {fd:.10g}")
    used = [0, 1] if spec["u"] in U.CONV + ["swt"] else [2, 3]
    for i in used:
        if grads[i] is None:
            ctx.fail("detached", f"{name}: filter {i} gets no gradient")
    ctx.judged("filters")


def value_scale(out, g):
    return norm(out) * norm(g)


def cwtpar(ctx, spec):
    from ptwt import continuous_transform as ct
    import numpy as np

    cls = ct._ShannonWavelet if spec["wav"].startswith("shan") else ct._ComplexMorletWavelet
    name = f"cwt gradient for {spec['wav']} scales {spec['scales']}"
    x = gen.tensor(spec)
    sc = np.array(spec["scales"])
    gtor = torch.Generator().manual_seed(spec["ds"] % 2**31)
    w = cls(spec["wav"])
    out = ptwt.cwt(x, sc, w)[0]
    g = rand_like(out, gtor)
    s = inner(out, g)
    grads = torch.autograd.grad(s, [w.bandwidth_par, w.center_par])

    def value(db, dc):
        w2 = cls(spec["wav"])
        with torch.no_grad():
            w2.bandwidth_par += db
            w2.center_par += dc
            return float(inner(ptwt.cwt(x, sc, w2)[0], g))

    h = 1e-5
    for i, (db, dc) in enumerate([(h, 0), (0, h)]):
        fd = (value(db, dc) - value(-db, -dc)) / (2 * h)
        got = float(grads[i])
        if not abs(got - fd) <= 1e-4 * (abs(fd) + norm(out) * norm(g) * 1e-2 + 1e-3):
            ctx.fail("cwt-parameters", f"{name}: parameter {i}: {got:.8g} but {fd:.8g}")
    ctx.judged("cwt-parameters")
    _ = cases
