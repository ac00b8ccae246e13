"""C26: a call that is interrupted leaves nothing behind that changes later calls."""

import copy
import random
import warnings

import torch

from mon import faults, gen, hooks, packetmodel, universe as U

COUNT = {"quick": 900, "thorough": 14000}
RULE = ("random program out of all transforms, inverses, matrix objects (new, used, or used for "
        "another shape) and packet trees (node access, transform, reconstruct); an exception or "
        "an interrupt is raised at random torch, pywt and numpy calls inside the call, before or "
        "after the torch call is executed; the exception must reach the caller, arguments and global settings must "
        "be unchanged, and the same call and calls for other inputs made afterwards must answer as without the "
        "fault; non-trivial = one injected fault fired; distinct by program and injection point")
ASSUMPTIONS = ["faults are raised at calls of torch, pywt and numpy, not between arbitrary bytecodes"]
REQUIRED = ["functions", "objects", "packet-get", "packet-transform", "packet-reconstruct"]
MIN_JUDGED = 1500
GROUPS = ["objects", "functions", "objects", "packets", "objects", "packets"]


def setup(ctx):
    hooks.install(ctx, {})
    warnings.simplefilter("ignore")


def generate(rng, idx, tier):
    group = GROUPS[idx % len(GROUPS)]
    pool = {"objects": U.OBJECTS, "functions": U.STATELESS, "packets": ["wp1", "wp2"]}[group]
    u = pool[(idx // len(GROUPS)) % len(pool)]
    spec = U.generate(rng, idx, u, dtypes=("f64", "f64", "f32"))
    if spec is None:
        return None
    spec["group"] = group
    spec["state"] = rng.choice(["new", "used", "other"])
    spec["points"] = 5 if tier == "quick" else 16
    spec["op"] = spec.get("op") if group != "packets" else rng.choice(
        ["get", "transform", "reconstruct"])
    spec["fault"] = rng.randrange(2**31)
    if group == "objects":
        # another input the same object can serve
        nd = U.ND[u]
        axes = spec.get("axes") or list(range(-nd, 0))
        shape = list(spec["shape"])
        for a in axes:
            shape[a] += rng.choice([0, 2, 3])
        spec["shape2"] = shape
    return spec


def plan(spec, calls):
    """Injection points (description, fault) out of the torch and the foreign calls."""
    rng = random.Random(spec["fault"])
    ours, foreign = calls
    out = []
    pts = list(range(ours))
    if len(pts) > spec["points"]:
        pts = sorted(rng.sample(pts, spec["points"]))
    for at in pts:
        exc = rng.choice([faults.Injected, faults.Injected, faults.Interrupt])
        after = rng.random() < 0.3
        out.append((f"{exc.__name__} {'after' if after else 'at'} torch call {at} of {ours}",
                    faults.Fault(at, exc, after)))
    pts = list(range(foreign))
    if len(pts) > spec["points"] // 2:
        pts = sorted(rng.sample(pts, spec["points"] // 2))
    for at in pts:
        exc = rng.choice([faults.Injected, faults.Interrupt])
        out.append((f"{exc.__name__} at pywt/numpy call {at} of {foreign}",
                    faults.Foreign(at, exc)))
    return out


def inject(ctx, name, fn, f):
    """Run fn with the fault; True if it fired."""
    before = U.globals_state()
    try:
        fired = _inject(ctx, fn, f)
        changed = U.globals_diff(before)
        if changed:
            ctx.fail("globals", f"{name}: global state changed by the interrupted call: "
                                f"{', '.join(changed)}")
    finally:
        torch.set_grad_enabled(True)
    return fired


def _inject(ctx, fn, f):
    try:
        with f:
            fn()
    except (faults.Injected, faults.Interrupt):
        ctx.count("faults_fired")
        ctx.count("fault_at:" + str(f.fired))
        return True
    except Exception as e:  # noqa: BLE001
        if f.fired is None:
            raise
        # another exception may replace the injected one: the caller is told
        ctx.count("faults_translated:" + type(e).__name__)
        return True
    if f.fired is not None:
        ctx.count("faults_swallowed")
        return True
    return False


def case(ctx, spec):
    {"objects": objects, "functions": functions, "packets": packets}[spec["group"]](ctx, spec)


def counted(fn):
    """Number of torch calls and of pywt and numpy calls that fn makes."""
    f, g = faults.Fault(), faults.Foreign()
    with f, g:
        fn()
    return f.calls, g.calls


def functions(ctx, spec):
    name = U.name_of(spec)
    tree = U.tmap(lambda t: t.detach(), U.build_input(spec))
    values = U.tmap(lambda t: t.clone(), tree)
    ref = U.make(spec)(tree)
    calls = counted(lambda: U.make(spec)(tree))
    for k, (what, f) in enumerate(plan(spec, calls)):
        what = f"{name}: {what}"
        got = []
        if not inject(ctx, what, lambda: got.append(U.make(spec)(tree)), f):
            continue
        if got:
            # the fault was swallowed: the result has to be right nevertheless
            U.compare(ctx, got[0], ref, what + ": result of the call itself", "functions")
        U.compare(ctx, tree, values, what + ": arguments", "arguments", exact=True)
        U.compare(ctx, U.make(spec)(tree), ref, what + ": next call", "functions")
        ctx.judged("functions")
    ctx.sig(name + str(spec["fault"]))


def objects(ctx, spec):
    name = f"{U.name_of(spec)} ({spec['state']} object)"
    ospec = dict(spec, shape=spec["shape2"], ds=spec["ds"] + 1)
    tree = U.tmap(lambda t: t.detach(), U.build_input(spec))
    other = U.tmap(lambda t: t.detach(), U.build_input(ospec))
    values = U.tmap(lambda t: t.clone(), tree)
    ref, oref = U.make(spec)(tree), U.make(ospec)(other)

    def prepared():
        obj = U.make(spec)
        if spec["state"] == "used":
            obj(tree)
        elif spec["state"] == "other":
            obj(other)
        return obj

    o = prepared()
    calls = counted(lambda: o(tree))
    for k, (what, f) in enumerate(plan(spec, calls)):
        what = f"{name}: {what}"
        obj = prepared()
        got = []
        if not inject(ctx, what, lambda: got.append(obj(tree)), f):
            continue
        if got:
            U.compare(ctx, got[0], ref, what + ": result of the call itself", "objects")
        U.compare(ctx, tree, values, what + ": arguments", "arguments", exact=True)
        first, second = (tree, ref), (other, oref)
        if (spec["fault"] + k) % 3 == 0:
            first, second = second, first
        U.compare(ctx, obj(first[0]), first[1], what + ": next call", "objects")
        U.compare(ctx, obj(second[0]), second[1], what + ": call after the next", "objects")
        U.compare(ctx, obj(tree), ref, what + ": same call again", "objects")
        ctx.judged("objects")
    ctx.sig(name + str(spec["fault"]))


def packets(ctx, spec):
    op = spec["op"]
    lev = packetmodel.level_of(spec)
    if lev < 1:
        return
    name = f"{packetmodel.name_of(spec)} {op}"
    x = gen.tensor(spec).detach()
    y = gen.tensor(dict(spec, ds=spec["ds"] + 3)).detach()
    letters = packetmodel.LETTERS[spec["nd"]]
    rng = random.Random(spec["fault"])
    deep = "".join(rng.choice(letters) for _ in range(lev))
    side = "".join(rng.choice(letters) for _ in range(lev))
    from itertools import product

    leaves = ["".join(p) for p in product(letters, repeat=lev)]
    data = y if op == "transform" else x

    def prepared():
        tree = packetmodel.make(dict(spec), x)
        if spec["state"] != "new" and op != "reconstruct":
            tree[side]
        if op == "reconstruct":
            for p in leaves:
                tree[p]
            tree[side] = tree[side] * 0.5 + 1
        return tree

    action = {"get": lambda t: t[deep], "transform": lambda t: t.transform(y, spec["maxlevel"]),
              "reconstruct": lambda t: t.reconstruct()}[op]
    fresh = packetmodel.make(dict(spec), data)
    paths = sorted({"", deep, side, deep[:-1], side[:1], rng.choice(leaves)}, key=lambda p: rng.random())
    want = {p: fresh[p] for p in paths}
    if op == "reconstruct":
        full = prepared()
        full.reconstruct()
        want = {p: full[p] for p in sorted(full.data)}
    t0 = prepared()
    calls = counted(lambda: action(t0))
    for k, (what, f) in enumerate(plan(spec, calls)):
        what = f"{name}: {what}"
        tree = prepared()
        if not inject(ctx, what, lambda: action(tree), f):
            continue
        action(tree)
        for p, v in want.items():
            U.compare(ctx, (tree[p],), (v,), f"{what}: node '{p}'", "packets",
                      1e-9 if spec["dtype"] == "f64" else 1e-3)
        ctx.judged("packet-" + op)
    _ = copy
    ctx.sig(name + str(spec["fault"]))
