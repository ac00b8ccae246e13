"""C17: calls leave arguments, earlier results and global state alone and are repeatable."""

import pywt
import torch

from mon import gen, hooks, pristine, universe as U

COUNT = {"quick": 3600, "thorough": 50000}
RULE = ("random program out of all transforms and inverses, fresh or reused objects: a snapshot of "
        "the arguments (values, version counters, strides, container identity and contents), of "
        "the wavelet object, of global random and torch settings and of earlier results is "
        "compared after the call, repeated calls must agree bitwise, and writing to results must "
        "not change later results or inputs where at least one level is transformed; the result "
        "must be bitwise that of a freshly imported copy of the package, and after the caller has "
        "edited inputs and filter tensors in place the next call must see the new values; "
        "non-trivial = one call was compared; distinct by program description")
ASSUMPTIONS = []
REQUIRED = ["args", "wavelet", "globals", "repeat", "results", "write", "pristine", "edited"]
MIN_JUDGED = 2000


def setup(ctx):
    hooks.install(ctx, {})


def generate(rng, idx, tier):
    u = U.ALL[idx % len(U.ALL)]
    if u == "im2n" and rng.random() < 0.7:
        u = rng.choice(U.REC)
    spec = U.generate(rng, idx, u, dtypes=("f64", "f64", "f32"))
    if spec is not None:
        spec["reuse"] = rng.random() < 0.6
        spec["grad"] = rng.random() < 0.3
        # the mode the caller has set must be the mode after the call
        spec["nograd"] = not spec["grad"] and rng.random() < 0.3
    return spec


def struct(tree):
    """Identity-level description of a container."""
    if isinstance(tree, torch.Tensor):
        return ("t", id(tree), tree._version, tree.data_ptr(), tuple(tree.shape),
                tuple(tree.stride()), tree.requires_grad, tree.dtype)
    if isinstance(tree, dict):
        return ("d", id(tree), tuple((k, struct(v)) for k, v in tree.items()))
    if isinstance(tree, (list, tuple)):
        return (type(tree).__name__, id(tree), tuple(struct(v) for v in tree))
    return ("o", id(tree))


def wavelet_state(w):
    if isinstance(w, str):
        return w
    if isinstance(w, tuple):
        return [(id(t), t._version, t.tolist(), t.requires_grad) for t in w]
    if isinstance(w, pywt.ContinuousWavelet):
        return (w.name, w.lower_bound, w.upper_bound, w.center_frequency, w.bandwidth_frequency)
    return ([list(map(float, f)) for f in w.filter_bank], w.name, len(w.dec_lo))


def case(ctx, spec):
    name = U.name_of(spec)
    tree = U.build_input(spec)
    if spec["grad"]:
        tree = U.tmap(lambda t: t.detach().requires_grad_(True), tree)
    if spec["u"] == "cwt":
        w = spec["wav"]
    else:
        w = gen.wavelet(spec, gen.DTYPES[spec["dtype"]])
    old = gen.wavelet
    gen.wavelet = lambda *a, **k: w
    mode = torch.is_grad_enabled()
    try:
        torch.set_grad_enabled(not spec["nograd"])
        body(ctx, spec, name, tree, w)
    finally:
        gen.wavelet = old
        torch.set_grad_enabled(mode)
    ctx.sig(name + str(spec["reuse"]) + str(spec["grad"]))


def body(ctx, spec, name, tree, w):
    run = U.make(spec)
    values = U.tmap(lambda t: t.detach().clone(), tree)
    before = struct(tree)
    wbefore = wavelet_state(w)
    gbefore = U.globals_state()
    first = run(tree)

    def verify(when):
        if struct(tree) != before:
            ctx.fail("args", f"{name}: the argument container changed {when}")
        U.compare(ctx, tree, values, f"{name}: argument values {when}", "args", exact=True)
        ctx.judged("args")
        if wavelet_state(w) != wbefore:
            ctx.fail("wavelet", f"{name}: the wavelet object changed {when}")
        ctx.judged("wavelet")
        changed = U.globals_diff(gbefore)
        if changed:
            ctx.fail("globals", f"{name}: global state changed {when}: {', '.join(changed)}")
        ctx.judged("globals")

    verify("in the call")
    kept = U.tmap(lambda t: t.detach().clone(), first)
    again = run if spec["reuse"] else U.make(spec)
    second = again(tree)
    U.compare(ctx, second, kept, name + " repeated", "repeat", exact=True)
    ctx.judged("repeat")
    # another input in between
    other = U.tmap(lambda t: (t.detach() * 3 + 1), tree)
    third = again(other)
    U.compare(ctx, first, kept, name + ": earlier result", "results", exact=True)
    ctx.judged("results")
    del third
    verify("in later calls")
    # results belong to the caller
    with torch.no_grad():
        storages = {t.untyped_storage().data_ptr() for t in U.leaves(tree)}
        for t in U.leaves(second):
            t = t.detach()
            if t.untyped_storage().data_ptr() in storages:
                ctx.fail("write", f"{name}: a result shares memory with the input")
            t.fill_(7.0)
    fourth = again(tree)
    U.compare(ctx, fourth, kept, name + " after results were overwritten", "write", exact=True)
    U.compare(ctx, first, kept, name + ": first result after the second one was overwritten",
              "write", exact=True)
    ctx.judged("write")
    want = pristine_result(spec, tree, w)
    U.compare(ctx, first, want, name + " against a freshly imported package", "pristine",
              exact=True)
    ctx.judged("pristine")
    edited(ctx, spec, name, tree, w, again)


def pristine_result(spec, tree, w):
    """The program's result by a copy of the package that has served no call."""
    with pristine.swapped() as module:
        gen.wavelet = lambda *a, **k: pristine.convert(w, module)
        try:
            return pristine.convert(U.make(spec)(pristine.convert(tree, module)))
        finally:
            gen.wavelet = lambda *a, **k: w


def edited(ctx, spec, name, tree, w, again):
    """The caller changes the tensors it owns: later calls see what they hold now."""
    if spec["grad"]:
        return
    with torch.no_grad():
        for t in U.leaves(tree):
            t.mul_(0.5).add_(0.25)
        if isinstance(w, tuple) and spec["u"] not in U.OBJECTS and spec["mode"] != "boundary":
            # objects may keep matrices they have built from the filters
            for k, f in enumerate(w):
                f.mul_(1.0 + 0.125 * k)
    got = again(tree)
    want = pristine_result(spec, U.tmap(lambda t: t.detach().clone(), tree),
                           pristine.clone(w))
    U.compare(ctx, got, want, name + " after its tensors were edited in place", "edited",
              tol=1e-11 if spec["dtype"] == "f64" else 1e-4)
    ctx.judged("edited")
