"""C23: the execution context of PyTorch does not change what is computed."""

import copy
import io
import pickle
import warnings

import torch
import torch.utils.checkpoint
from torch.utils import _pytree as pytree

import ptwt
from mon import gen, hooks, packetmodel, universe as U

COUNT = {"quick": 1500, "thorough": 24000}
RULE = ("random program out of all transforms and inverses: a torch.jit.trace recorded on one "
        "input is executed on other values of that shape (also after saving and loading, also "
        "with the filters as traced inputs, also backward) and compared with the direct call; "
        "no_grad and inference_mode calls are compared with grad-mode calls, also as the first "
        "call of an object which is differentiated later; vmap, jvp and vjp results are compared "
        "with plain calls; programs run under checkpoints, saved-tensor hooks, anomaly detection, "
        "deterministic algorithms, sparse checks, with tensor subclasses and parameters, or "
        "compiled with the eager backend are compared in value and gradient; copies and pickles "
        "of objects answer like the original; non-trivial = "
        "one result was compared; distinct by program description and aspect")
ASSUMPTIONS = ["matrix transforms are not traced: torch cannot trace sparse constants",
               "where torch reports that a vmap, jvp or pickle is unsupported nothing is judged"]
CONTEXTS = ["anomaly", "invariants", "deterministic", "checkpoint", "reentrant", "packed",
            "subclass", "parameter", "twice"]
REQUIRED = ["compile", *("context-" + c for c in CONTEXTS), "trace", "trace-backward", "no_grad", "inference_mode", "vmap", "jvp", "vjp", "copy"]
MIN_JUDGED = 1500
# dynamo unrolls the stationary transform and tree rebuilding into minutes of work
COMPILED = [u for u in U.ALL if u not in ("swt", "iswt", "rp1", "rp2")]
DENSE = [u for u in U.ALL if u not in U.OBJECTS]
ASPECTS = ["trace", "mode", "trace", "func", "mode", "copy", "context"]
# every so many cases is compiled
COMPILE = 101


def setup(ctx):
    hooks.install(ctx, {})
    warnings.simplefilter("ignore")


def generate(rng, idx, tier):
    aspect = ASPECTS[idx % len(ASPECTS)]
    if idx % COMPILE == COMPILE - 1:
        aspect = "compile"
    pool = U.ALL if aspect in ("mode", "context") else DENSE
    if aspect == "compile":
        pool = COMPILED
    if aspect == "copy":
        pool = U.OBJECTS + ["wp1", "wp2", "rp1", "rp2"]
    u = pool[(idx // len(ASPECTS) if aspect != "compile" else idx // COMPILE) % len(pool)]
    spec = U.generate(rng, idx, u, dtypes=("f64", "f64", "f32"))
    if spec is None:
        return None
    if u in U.CONV + U.REC + ["swt", "iswt"] and rng.random() < 0.4:
        spec["wform"] = "tuple"
    if spec.get("mode") == "boundary" and aspect in ("trace", "func"):
        return None
    if aspect == "compile":
        if (spec.get("level") or 1) > 2 or spec.get("maxlevel", 1) not in (1, 2):
            return None
        spec["shape"] = [min(n, 40) if n > 64 else n for n in spec["shape"]]
    if aspect == "context":
        spec["context"] = rng.choice(CONTEXTS)
    spec["aspect"] = aspect
    spec["example"] = rng.choice(["normal", "zeros", "ones", "huge"])
    spec["save"] = rng.random() < 0.3
    return spec


def flat_program(spec, tree, w=None):
    """The program as a function of tensors which returns a tuple of tensors."""
    run = U.make(spec)
    leaves, td = pytree.tree_flatten(tree)

    def f(*args):
        return tuple(U.leaves(run(pytree.tree_unflatten(list(args), td))))

    return f, leaves


def tol_of(spec):
    return 1e-10 if spec["dtype"] == "f64" else 2e-4


def case(ctx, spec):
    name = U.name_of(spec) + " " + spec["aspect"]
    ctx.sig(name + spec["example"])
    {"trace": trace, "mode": mode, "func": func, "copy": copies,
     "context": context, "compile": compiled}[spec["aspect"]](ctx, spec, name)


def fresh(leaves, spec, k):
    g = torch.Generator().manual_seed((spec["ds"] + 77 * k) % 2**31)
    return [torch.randn(t.shape, generator=g, dtype=t.dtype) for t in leaves]


def trace(ctx, spec, name):
    tree = U.tmap(lambda t: t.detach(), U.build_input(spec))
    filters = []
    old = gen.wavelet
    if spec["wform"] == "tuple" and spec["u"] in U.CONV + U.REC + ["swt", "iswt"]:
        filters = list(gen.wavelet(spec, gen.DTYPES[spec["dtype"]]))
    f, leaves = flat_program(spec, tree)
    n = len(leaves)

    def g(*args):
        if not filters:
            return f(*args)
        gen.wavelet = lambda *a, **k: ptwt.WaveletTensorTuple(*args[n:])
        try:
            return flat_program(spec, tree)[0](*args[:n])
        finally:
            gen.wavelet = old

    make = {"normal": lambda t: t.clone(), "zeros": torch.zeros_like, "ones": torch.ones_like,
            "huge": lambda t: t * 1e6}[spec["example"]]
    example = [make(t) for t in leaves] + [q.clone() for q in filters]
    traced = torch.jit.trace(g, tuple(example), check_trace=False, strict=False)
    ctx.count("traced_nodes", len(list(traced.graph.nodes())))
    if spec["save"]:
        buf = io.BytesIO()
        torch.jit.save(traced, buf)
        buf.seek(0)
        traced = torch.jit.load(buf)
    for k in range(2):
        args = fresh(leaves, spec, k)
        if k == 1:
            args = [t.abs() * (t > 0.3) for t in args]
        extra = [q * (1 + 0.25 * k) for q in filters]
        got, ref = traced(*args, *extra), g(*args, *extra)
        U.compare(ctx, tuple(got), tuple(ref), name + f" example={spec['example']} run {k}",
                  "trace", tol_of(spec))
        ctx.judged("trace")
    # gradients of the traced program
    args = [t.requires_grad_(True) for t in fresh(leaves, spec, 5)]
    extra = [q.clone().requires_grad_(True) for q in filters]
    weights = None
    grads = []
    for fn in (traced, g):
        out = fn(*args, *extra)
        if weights is None:
            weights = fresh([o.real if o.is_complex() else o for o in out], spec, 9)
        s = sum(((o.real if o.is_complex() else o) * q).sum() for o, q in zip(out, weights))
        grads.append(torch.autograd.grad(s, [*args, *extra], allow_unused=True))
    for i, (a, b) in enumerate(zip(*grads)):
        if (a is None) != (b is None):
            if b is None and not bool(a.abs().max() > 0):
                continue
            ctx.fail("trace", f"{name}: traced and direct program disagree on whether input {i} "
                              "has a gradient")
        if a is not None:
            U.compare(ctx, (a,), (b,), f"{name}: gradient {i}", "trace", tol_of(spec) * 10)
    ctx.judged("trace-backward")


def mode(ctx, spec, name):
    tree = U.tmap(lambda t: t.detach(), U.build_input(spec))
    gtree = U.tmap(lambda t: t.clone().requires_grad_(True), tree)
    ref = U.make(spec)(gtree)
    for label, cm in (("no_grad", torch.no_grad), ("inference_mode", torch.inference_mode)):
        run = U.make(spec)
        with cm():
            out = run(gtree)
            own = U.tmap(lambda t: t.clone(), tree)
            out2 = U.make(spec)(own)
        U.compare(ctx, out, ref, f"{name}: {label}", label)
        U.compare(ctx, out2, ref, f"{name}: {label} with a tensor of its own", label)
        if any(t.requires_grad for t in U.leaves(out)):
            ctx.fail(label, f"{name}: a result of {label} requires a gradient")
        # the same object afterwards in training
        out3 = run(gtree)
        U.compare(ctx, out3, ref, f"{name}: after {label}", label)
        want = backward(ref, gtree, spec)
        got = backward(out3, gtree, spec)
        for i, (a, b) in enumerate(zip(got, want)):
            U.compare(ctx, (a,), (b,), f"{name}: gradient {i} after {label}", label)
        ctx.judged(label)


def backward(out, gtree, spec):
    ls = U.leaves(out)
    ws = fresh([o.real if o.is_complex() else o for o in ls], spec, 3)
    s = sum(((o.real if o.is_complex() else o) * q).sum() for o, q in zip(ls, ws))
    return [torch.zeros_like(t) if q is None else q for t, q in zip(
        U.leaves(gtree), torch.autograd.grad(s, U.leaves(gtree), retain_graph=True,
                                             allow_unused=True))]


class Sub(torch.Tensor):
    """A tensor type of the user."""


def context(ctx, spec, name):
    """Settings of autograd and of tensors under which a program may run."""
    kind = spec["context"]
    name += " " + kind
    tree = U.tmap(lambda t: t.detach(), U.build_input(spec))
    gtree = U.tmap(lambda t: t.clone().requires_grad_(True), tree)
    ref = U.make(spec)(gtree)
    want = backward(ref, gtree, spec)
    run = U.make(spec)
    for turn in ("first", "second"):
        what = f"{name}, {turn} call"
        if kind == "anomaly":
            with torch.autograd.set_detect_anomaly(True):
                out = run(gtree)
                got = backward(out, gtree, spec)
        elif kind == "invariants":
            with torch.sparse.check_sparse_tensor_invariants():
                out = run(gtree)
                got = backward(out, gtree, spec)
        elif kind == "deterministic":
            torch.use_deterministic_algorithms(True)
            try:
                out = run(gtree)
                got = backward(out, gtree, spec)
            finally:
                torch.use_deterministic_algorithms(False)
        elif kind in ("checkpoint", "reentrant"):
            leaves, td = pytree.tree_flatten(gtree)
            flat = torch.utils.checkpoint.checkpoint(
                lambda *a, td=td: tuple(U.leaves(run(pytree.tree_unflatten(list(a), td)))),
                *leaves, use_reentrant=kind == "reentrant")
            U.compare(ctx, tuple(flat), tuple(U.leaves(ref)), what, "context")
            got = backward(flat, gtree, spec) if kind == "checkpoint" else \
                accumulated(flat, gtree, spec)
            out = ref
        elif kind == "packed":
            with torch.autograd.graph.saved_tensors_hooks(lambda t: (t.detach().clone(),),
                                                          lambda t: t[0]):
                out = run(gtree)
            got = backward(out, gtree, spec)
        elif kind == "subclass":
            out = run(U.tmap(lambda t: t.as_subclass(Sub), gtree))
            out = U.tmap(lambda t: t.as_subclass(torch.Tensor), out)
            got = backward(out, gtree, spec)
        elif kind == "parameter":
            other = U.tmap(lambda t: torch.nn.Parameter(t.detach().clone()), gtree)
            out = run(other)
            got = backward(out, other, spec)
        else:
            out = run(gtree)
            backward(out, gtree, spec)
            got = backward(out, gtree, spec)
        U.compare(ctx, out, ref, what, "context")
        for i, (a, b) in enumerate(zip(got, want)):
            U.compare(ctx, (a,), (b,), f"{what}: gradient {i}", "context")
    ctx.judged("context-" + kind)


def accumulated(flat, gtree, spec):
    """Reentrant checkpoints work with backward() only."""
    for t in U.leaves(gtree):
        t.grad = None
    ws = fresh([o.real if o.is_complex() else o for o in flat], spec, 3)
    sum(((o.real if o.is_complex() else o) * q).sum() for o, q in zip(flat, ws)).backward()
    return [torch.zeros_like(t) if t.grad is None else t.grad for t in U.leaves(gtree)]


def compiled(ctx, spec, name):
    """torch.compile captures the program; the eager backend runs what it has captured."""
    import torch._dynamo

    tree = U.tmap(lambda t: t.detach(), U.build_input(spec))
    run = U.make(spec)
    torch._dynamo.reset()
    try:
        fast = torch.compile(run, backend="eager")
        for k in range(3):
            x = U.tmap(lambda t, k=k: (t * (1 - k) + k).requires_grad_(k == 1), tree)
            ref = U.make(spec)(x)
            try:
                out = fast(x)
            except Exception as e:  # noqa: BLE001
                if not type(e).__module__.startswith("torch._"):
                    raise
                ctx.count(f"inconclusive:compile {type(e).__name__}")
                return
            U.compare(ctx, out, ref, f"{name}: run {k}", "compile", tol_of(spec))
            if k == 1:
                for i, (a, b) in enumerate(zip(backward(out, x, spec), backward(ref, x, spec))):
                    U.compare(ctx, (a,), (b,), f"{name}: gradient {i}", "compile", tol_of(spec))
    finally:
        torch._dynamo.reset()
    ctx.judged("compile")


def func(ctx, spec, name):
    tree = U.tmap(lambda t: t.detach(), U.build_input(spec))
    f, leaves = flat_program(spec, tree)
    tol = tol_of(spec)
    stack = [torch.stack([t, 2 * t + 1, t * t]) for t in leaves]
    out = supported(ctx, "vmap", lambda: torch.func.vmap(f)(*stack))
    if out is not None:
        for k in range(3):
            U.compare(ctx, tuple(t[k] for t in out), f(*[t[k] for t in stack]),
                      f"{name}: vmap element {k}", "vmap", tol)
        ctx.judged("vmap")
    v = fresh(leaves, spec, 1)
    out = supported(ctx, "jvp", lambda: torch.func.jvp(f, tuple(leaves), tuple(v)))
    if out is not None:
        U.compare(ctx, tuple(out[0]), f(*leaves), f"{name}: jvp value", "jvp", tol)
        U.compare(ctx, tuple(out[1]), f(*v), f"{name}: jvp tangent", "jvp", tol)
        ctx.judged("jvp")
    out = supported(ctx, "vjp", lambda: torch.func.vjp(f, *leaves))
    if out is not None:
        vals, pull = out
        U.compare(ctx, tuple(vals), f(*leaves), f"{name}: vjp value", "vjp", tol)
        ws = tuple(fresh(vals, spec, 2))
        back = pull(ws)
        lhs = sum(float((a * b).sum()) for a, b in zip(back, v))
        rhs = sum(float((o * q.conj()).sum().real if o.is_complex() else (o * q).sum())
                  for o, q in zip(f(*v), ws))
        scale = sum(float(a.norm() * b.norm()) for a, b in zip(back, v)) + 1e-12
        if not abs(lhs - rhs) <= tol * scale * 10:
            ctx.fail("vjp", f"{name}: <pullback(w), v> = {lhs:.10g} but <w, F v> = {rhs:.10g}")
        ctx.judged("vjp")


def supported(ctx, label, fn):
    try:
        return fn()
    except (RuntimeError, NotImplementedError) as e:
        ctx.count(f"inconclusive:{label} {type(e).__name__}")
        return None


def copies(ctx, spec, name):
    tree = U.tmap(lambda t: t.detach(), U.build_input(spec))
    if spec["u"] in U.OBJECTS:
        ref = U.make(spec)(tree)
        other = U.tmap(lambda t: t * 2 + 1, tree)
        ref2 = U.make(spec)(other)
        for used in (False, True):
            obj = U.make(spec)
            if used:
                obj(tree)
            for label, fn in (("deepcopy", copy.deepcopy), ("copy", copy.copy),
                              ("pickle", lambda o: pickle.loads(pickle.dumps(o)))):
                try:
                    twin = fn(obj)
                except Exception as e:  # noqa: BLE001
                    ctx.count(f"inconclusive:{label} {type(e).__name__}")
                    continue
                what = f"{name}: {label} of {'a used' if used else 'an unused'} object"
                U.compare(ctx, twin(other), ref2, what, "copy")
                U.compare(ctx, obj(tree), ref, what + ": the original", "copy")
                U.compare(ctx, twin(tree), ref, what + " called again", "copy")
        ctx.judged("copy")
        return
    x = tree
    if spec["u"] in ("rp1", "rp2"):
        x = gen.tensor(dict(spec, layout="contig"))
    x = x.detach()
    p = dict(spec)
    base = packetmodel.make(p, x)
    lev = packetmodel.level_of(spec)
    letters = packetmodel.LETTERS[spec["nd"]]
    if lev < 1:
        return
    want = {k: base[k].clone() for k in letters}
    src = packetmodel.make(p, x)
    if spec["ds"] % 2:
        src[letters[0]]
    twin = copy.deepcopy(src)
    # changing the copy does not change the original
    twin[letters[-1]] = twin[letters[-1]] * 0 + 5
    for k in letters:
        U.compare(ctx, (src[k],), (want[k],), f"{name}: node {k} of the original after its copy "
                                              "changed", "copy")
    U.compare(ctx, (src[""],), (x,), f"{name}: root of the original", "copy")
    for k in letters[:-1]:
        U.compare(ctx, (twin[k],), (want[k],), f"{name}: node {k} of the copy", "copy")
    ctx.judged("copy")
