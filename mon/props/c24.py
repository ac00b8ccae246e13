"""C24: calls made by several threads at once give the results of calls made in turn."""

import hashlib
import sys
import warnings

import torch

from mon import faults, gen, hooks, universe as U

COUNT = {"quick": 420, "thorough": 9000}
RULE = ("2-4 threads start at a barrier and run random programs (equal programs on different "
        "values, programs that differ in one argument, or unrelated ones) repeatedly, on own or "
        "shared input tensors, shared wavelet objects and shared objects that are already set up "
        "for the shape, with a thread switch interval of one microsecond and random yields at "
        "torch calls; every result is compared with that of the sequential run; non-trivial = at "
        "least two threads alternated in the log of torch calls; distinct by programs and "
        "interleaving")
ASSUMPTIONS = ["a matrix object is shared only after its first call with the shape and dtype used",
               "interleavings are those the interpreter and the injected yields produce"]
REQUIRED = ["threads", "shared-object", "shared-input", "gradient", "globals"]
MIN_JUDGED = 1500
KINDS = ["same", "vary", "mixed", "same", "shared", "vary"]


def setup(ctx):
    hooks.install(ctx, {})
    torch.overrides.get_ignored_functions()
    torch.overrides.get_overridable_functions()
    warnings.simplefilter("ignore")


def generate(rng, idx, tier):
    kind = KINDS[idx % len(KINDS)]
    pool = U.OBJECTS if kind == "shared" else U.ALL
    u = pool[(idx // len(KINDS)) % len(pool)]
    base = U.generate(rng, idx, u, dtypes=("f64", "f64", "f32"))
    if base is None:
        return None
    specs = [base]
    for _ in range(rng.choice([1, 2, 3])):
        s = dict(base, ds=rng.randrange(2**31))
        if kind == "vary":
            other = U.generate(rng, idx, u, dtypes=("f64", "f32"))
            if other is not None and rng.random() < 0.6:
                s = other
            elif u in U.CONV + ["swt"]:
                same = [w for w in gen.ALL if gen.flen(w) == gen.flen(base["wav"])]
                s["wav"] = rng.choice(same)
        elif kind == "mixed":
            s = U.generate(rng, idx, rng.choice(U.ALL), dtypes=("f64", "f32")) or s
        specs.append(s)
    return {"specs": specs, "kind": kind, "ds": rng.randrange(2**31),
            "reps": rng.choice([2, 3, 5]), "rate": rng.choice([0.0, 0.2, 0.6, 1.0]),
            "grad": rng.random() < 0.4, "one": rng.random() < 0.5}


def work(run, tree, grad):
    if not grad:
        return run(tree), None
    x = U.tmap(lambda t: t.detach().clone().requires_grad_(True), tree)
    out = run(x)
    s = sum((t.real if t.is_complex() else t).pow(2).sum() for t in U.leaves(out))
    g = torch.autograd.grad(s, U.leaves(x), allow_unused=True)
    return U.tmap(lambda t: t.detach(), out), [torch.zeros(()) if t is None else t for t in g]


def case(ctx, spec):
    specs, n = spec["specs"], len(spec["specs"])
    name = f"{n} threads, {spec['kind']}: " + "; ".join(U.name_of(s) for s in specs)
    shared_input = spec["kind"] in ("same", "shared") and spec["one"]
    trees = [U.build_input(specs[0] if shared_input else s) for s in specs]
    if shared_input:
        trees = [trees[0]] * n
    trees = [U.tmap(lambda t: t.detach(), t) for t in trees]
    refs = [work(U.make(s), t, spec["grad"]) for s, t in zip(specs, trees)]
    programs = None
    if spec["kind"] == "shared":
        obj = U.make(specs[0])
        obj(trees[0])
        programs = [obj] * n
    log = []
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    before = U.globals_state(rng=False)

    def body(i):
        def fn():
            res = []
            with faults.Delays(log, i, spec["ds"] + i, spec["rate"]):
                for _ in range(spec["reps"]):
                    run = programs[i] if programs else U.make(specs[i])
                    res.append(work(run, trees[i], spec["grad"]))
            return res

        return fn

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        out, exc, stuck = faults.run_threads([body(i) for i in range(n)])
    finally:
        sys.setswitchinterval(old)
    if stuck:
        ctx.fail("deadlock", f"{name}: a thread did not end")
    changed = U.globals_diff(before)
    if changed and not stuck:
        # libraries initialise themselves once; only what happens again is the code's doing
        ctx.count("globals_changed:" + ",".join(changed))
        for _ in range(6):
            warnings.resetwarnings()
            warnings.simplefilter("ignore")
            before = U.globals_state(rng=False)
            sys.setswitchinterval(1e-6)
            try:
                again = faults.run_threads([body(i) for i in range(n)])
            finally:
                sys.setswitchinterval(old)
            changed = U.globals_diff(before)
            if changed and not again[2]:
                ctx.fail("globals", f"{name}: global state after the threads differs: "
                                    f"{', '.join(changed)}")
    ctx.judged("globals")
    order = list(log)
    ctx.count("torch_calls", len(order))
    ctx.count("thread_switches", faults.switches(order))
    for i in range(n):
        if exc[i] is not None:
            ctx.fail("exception", f"{name}: thread {i} raised {type(exc[i]).__name__}: {exc[i]}")
        for k, (res, g) in enumerate(out[i]):
            U.compare(ctx, res, refs[i][0], f"{name}: thread {i} call {k}", "threads")
            if g is not None:
                U.compare(ctx, list(g), list(refs[i][1]), f"{name}: thread {i} gradient {k}",
                          "threads")
                ctx.judged("gradient")
            ctx.judged("threads")
    if spec["kind"] == "shared":
        ctx.judged("shared-object")
    if shared_input:
        ctx.judged("shared-input")
    # the sequential result is still the same afterwards
    for i, (s, t) in enumerate(zip(specs, trees)):
        again = work(programs[i] if programs else U.make(s), t, spec["grad"])
        U.compare(ctx, again[0], refs[i][0], f"{name}: call after the threads", "threads")
    if faults.switches(order) < n - 1:
        ctx.nontrivial = False
    ctx.sig(name + hashlib.sha1(bytes(order)).hexdigest())
