"""C27: calls release what they were given and what they made; state stays bounded."""

import collections
import gc
import sys
import types
import weakref
from itertools import product

import torch
from torch.multiprocessing.reductions import StorageWeakRef

from mon import gen, hooks, matrix, packetmodel, universe as U

COUNT = {"quick": 1000, "thorough": 25000}
RULE = ("random program out of all 23 transforms and inverses, run again and again on fresh "
        "values (plain, with gradients and backward, calls that raise, matrix objects that "
        "alternate between two shapes, packet trees that are transformed anew, wavelet objects "
        "made for the call); after each round weak references to inputs, results and wavelet must "
        "be dead, and neither the number of live objects, nor the state reachable from the "
        "object, nor the one reachable from the ptwt modules may grow from round to round; "
        "non-trivial = at least one weak reference was followed; distinct by program and kind")
ASSUMPTIONS = ["released means: after a run of the cyclic garbage collector",
               "a bounded memory of earlier calls (a cache) is no violation, retained data of the "
               "caller and growth under a repeated workload are"]
REQUIRED = ["inputs", "results", "graph", "error", "growth", "object", "tree", "wavelet",
            "results-alone"]
MIN_JUDGED = 3000
KINDS = ["plain", "grad", "plain", "error", "object", "tree"]
ROUNDS = 4
MANY = 200


def setup(ctx):
    hooks.install(ctx, {})
    gc.collect()
    gc.freeze()


def generate(rng, idx, tier):
    kind = KINDS[idx % len(KINDS)]
    pool = {"object": U.OBJECTS, "tree": ["wp1", "wp2"]}.get(kind, U.ALL)
    u = pool[(idx // len(KINDS)) % len(pool)]
    spec = U.generate(rng, idx, u, dtypes=("f64", "f64", "f32"))
    if spec is None:
        return None
    spec["kind_"] = kind
    if "orth" in spec and rng.random() < 0.8:
        spec["orth"] = "qr"
    if kind == "object":
        axes = spec["axes"] or list(range(-U.ND[u], 0))
        shape = list(spec["shape"])
        for a in axes:
            shape[a] += rng.choice([0, 1, 2, 4])
        other = dict(spec, shape=shape)
        if not matrix.structure(other)[0]:
            return None
        spec["other"] = shape
    return spec


# ------------------------------------------------------------------ observers
class TensorRef:
    """Weak references to a tensor and to its memory (views keep only the latter)."""

    def __init__(self, t):
        self.tensor = weakref.ref(t)
        self.storage = StorageWeakRef(t.untyped_storage())

    def __call__(self):
        return self.tensor()

    def alive(self):
        return self.tensor() is not None or not self.storage.expired()


def refs(tree):
    return [TensorRef(t) for t in U.leaves(tree) if isinstance(t, torch.Tensor) and t.numel()]


def alive(wr):
    return sum(r.alive() for r in wr)


ATOMS = (str, bytes, int, float, complex, bool, type(None), torch.dtype, torch.device,
         types.ModuleType)


def state_size(roots, limit=200000):
    """Number of values and tensor elements reachable inside ptwt's own state."""
    seen = set()
    stack = list(roots)
    total = 0
    while stack and len(seen) < limit:
        o = stack.pop()
        total += 1
        if isinstance(o, ATOMS):
            continue
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, torch.Tensor):
            total += o.numel() if o.layout == torch.strided else o._nnz()
        elif isinstance(o, dict):
            stack.extend(list(o.keys()))
            stack.extend(list(o.values()))
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            stack.extend(list(o))
        elif hasattr(o, "cache_info"):
            total += o.cache_info().currsize
        elif isinstance(o, types.FunctionType):
            stack.extend(o.__defaults__ or ())
            stack.append(o.__kwdefaults__ or {})
            stack.append({k: v for k, v in vars(o).items() if k != "__wrapped__"})
            for cell in o.__closure__ or ():
                try:
                    stack.append(cell.cell_contents)
                except ValueError:
                    pass
        elif isinstance(o, (classmethod, staticmethod)):
            stack.append(o.__func__)
        elif isinstance(o, type):
            if o.__module__.split(".")[0] == "ptwt":
                stack.append(dict(vars(o)))
        elif type(o).__module__.split(".")[0] in ("ptwt", "weakref"):
            stack.append(getattr(o, "__dict__", {}))
            if hasattr(o, "data") and isinstance(getattr(o, "data"), (dict, list)):
                stack.append(o.data)
            if hasattr(o, "items"):
                try:
                    stack.append(dict(o.items()))
                except Exception:  # noqa: BLE001
                    pass
    return total


def module_state():
    return state_size([dict(vars(m)) for n, m in list(sys.modules.items())
                       if n == "ptwt" or n.startswith("ptwt.")])


def census():
    gc.collect()
    return len(gc.get_objects()), module_state()


TEMPLATES = {}


def fresh(spec, ds, grad=False):
    """Inputs with new values (the structure is computed once per case)."""
    key = str(spec["shape"])
    if key not in TEMPLATES:
        with hooks.muted():
            tree = U.build_input(dict(spec, layout="contig"))
        TEMPLATES[key] = U.tmap(lambda t: (tuple(t.shape), t.dtype, None), tree)
    g = torch.Generator().manual_seed(ds % 2**31)
    return U.pytree.tree_map(
        lambda s: torch.randn(s[0], dtype=s[1], generator=g).requires_grad_(grad),
        TEMPLATES[key], is_leaf=lambda s: isinstance(s, tuple) and len(s) == 3 and s[2] is None)


def grows(counts):
    """Does every window of rounds add at least one per round?"""
    return all(b - a >= ROUNDS for a, b in zip(counts, counts[1:]))


def watch(ctx, name, turn, own=lambda: 0):
    """Repeat turn(i): live objects, module state and own() must not grow for ever."""
    labels = ("live objects", "state of the modules", "state of the object")
    rows = [[], [], []]
    i = 0
    for stage in range(2):
        for _ in range(3):
            for _ in range(ROUNDS):
                turn(i)
                i += 1
            for row, v in zip(rows, (*census(), own())):
                row.append(v)
        bad = [k for k in range(3) if grows(rows[k])]
        if not bad:
            ctx.judged("growth")
            return
        if stage == 0:
            # a table that fills up to a bound is no leak: look again later
            ctx.count("second-look")
            for _ in range(MANY):
                turn(i)
                i += 1
            rows = [[], [], []]
    ctx.fail(("objects", "state", "object")[bad[-1]] + "-grow",
             f"{name}: {labels[bad[-1]]} after each {ROUNDS} calls: {rows[bad[-1]]}")


# ---------------------------------------------------------------------- cases
def case(ctx, spec):
    TEMPLATES.clear()
    globals()["check_" + spec["kind_"]](ctx, spec)
    ctx.sig(spec["kind_"] + U.name_of(spec) + str(spec.get("other")))


def inexact(tree):
    return [t for t in U.leaves(tree) if t.is_floating_point() or t.is_complex()]


class Box:
    """Holds one tensor that the graph saved."""

    def __init__(self, tensor):
        self.tensor = tensor


class BoxRef:
    def __init__(self, box):
        self.box = weakref.ref(box)

    def alive(self):
        return self.box() is not None


def one_round(ctx, spec, run, ds, grad, name, judge):
    """One call on fresh values; returns weak references (inputs, results, graph)."""
    tree = fresh(spec, ds, grad)
    given = refs(tree)
    graph = []

    def pack(t):
        box = Box(t)
        graph.append(BoxRef(box))
        return box

    with torch.autograd.graph.saved_tensors_hooks(pack, lambda box: box.tensor):
        out = run(tree)
    made = refs(out)
    if grad:
        total = sum((t.real if t.is_complex() else t).sum() for t in inexact(out))
        if total.requires_grad:
            total.backward()
    elif judge:
        del tree
        gc.collect()
        if alive(given) and not shares(out, given):
            ctx.fail("results-hold-input", f"{name}: the results keep {alive(given)} of "
                                           f"{len(given)} input tensors alive")
        ctx.judged("results-alone")
    return given, made, graph


def shares(out, given):
    """Results that are the given tensors or views of them (nothing to transform)."""
    ptr = {StorageWeakRef(t.untyped_storage()).cdata for t in U.leaves(out)}
    return any(r.storage.cdata in ptr for r in given)


def repeat(ctx, spec, grad, name):
    def turn(i):
        given, made, graph = one_round(ctx, spec, U.make(spec), spec["ds"] + 17 * i, grad, name,
                                       i < 2)
        if i >= 2:
            return
        gc.collect()
        if alive(given):
            ctx.fail("input-retained", f"{name}: {alive(given)} of {len(given)} input tensors "
                                       f"stay alive after the call")
        ctx.judged("inputs")
        if alive(made):
            ctx.fail("result-retained", f"{name}: {alive(made)} of {len(made)} results stay "
                                        f"alive after they were dropped")
        ctx.judged("results")
        if alive(graph):
            ctx.fail("graph-retained", f"{name}: the autograd graph stays alive")
        if graph:
            ctx.judged("graph")

    watch(ctx, name, turn)


def check_plain(ctx, spec):
    name = U.name_of(spec)
    repeat(ctx, spec, False, name)
    if spec["u"] != "cwt":
        # wavelet objects that live for one call only
        wr = own_wavelet(spec)
        gc.collect()
        if wr() is not None:
            for _ in range(MANY):
                own_wavelet(spec)
            gc.collect()
            if wr() is not None:
                ctx.fail("wavelet-retained", f"{name}: the wavelet object stays alive, also "
                                             f"after {MANY} calls with other wavelets")
        ctx.judged("wavelet")


def own_wavelet(spec):
    """A call with a wavelet object of its own; returns a weak reference to it."""
    w = gen.PlainWavelet("own", gen.oracle_wavelet(gen.wavelet(spec)).filter_bank)
    old = gen.wavelet
    gen.wavelet = lambda *_a, **_k: w
    try:
        U.make(spec)(fresh(spec, spec["ds"]))
    finally:
        gen.wavelet = old
    return weakref.ref(w)


def check_grad(ctx, spec):
    repeat(ctx, spec, True, U.name_of(spec) + " with gradients")


def broken(spec, tree, k):
    """An input that the call must reject."""
    if k % 2 and len(U.leaves(tree)) > 1:
        first = [True]

        def odd(t):
            if first[0]:
                first[0] = False
                return t.to(torch.float32 if t.dtype == torch.float64 else torch.float64)
            return t

        return U.tmap(odd, tree)
    return U.tmap(lambda t: t.to(torch.int64), tree)


def check_error(ctx, spec):
    name = U.name_of(spec) + " that raises"
    run = U.make(spec)
    raised = []

    def turn(i):
        tree = broken(spec, fresh(spec, spec["ds"] + i), i)
        given = refs(tree)
        try:
            run(tree)
        except Exception:  # noqa: BLE001
            raised.append(1)
        del tree
        if i < 4:
            gc.collect()
            if alive(given):
                ctx.fail("input-retained", f"{name}: {alive(given)} of {len(given)} rejected "
                                           f"tensors stay alive")

    watch(ctx, name, turn, lambda: state_size([getattr(run, "__dict__", {})]))
    if raised:
        ctx.judged("error")


def check_object(ctx, spec):
    """One object, two shapes in turn: its state stays as large as after the first turns."""
    name = U.name_of(spec) + f" alternating with shape {spec['other']}"
    run = U.make(spec)

    def turn(i):
        for s in (spec, dict(spec, shape=spec["other"])):
            tree = fresh(s, s["ds"] + i, grad=bool(spec["ds"] % 2))
            wr = refs(tree)
            out = run(tree)
            wr += refs(out)
            del tree, out
            if i < 2:
                gc.collect()
                if alive(wr):
                    ctx.fail("object-retains", f"{name}: the object keeps {alive(wr)} of "
                                               f"{len(wr)} tensors of a finished call alive")
                ctx.judged("object")

    watch(ctx, name, turn, lambda: state_size([vars(run)]))


def check_tree(ctx, spec):
    """One packet tree: a new transform lets go of the old data and nodes."""
    name = packetmodel.name_of(spec)
    lev = packetmodel.level_of(spec)
    tree = packetmodel.make(dict(spec), fresh(spec, spec["ds"]))
    paths = ["".join(p) for p in product(packetmodel.LETTERS[spec["nd"]], repeat=lev)][:6]

    def turn(i):
        for p in paths:
            tree[p]
        old = refs(dict(tree.data)) if i < 2 else []
        tree.transform(fresh(spec, spec["ds"] + i), lev)
        if i < 2:
            gc.collect()
            if alive(old):
                ctx.fail("tree-retains", f"{name}: {alive(old)} of {len(old)} nodes of the "
                                         f"previous transform stay alive")
            ctx.judged("tree")

    watch(ctx, name, turn, lambda: state_size([vars(tree)]))
    for p in paths:
        tree[p]
    nodes = refs(dict(tree.data))
    root = weakref.ref(tree)
    del turn, tree
    gc.collect()
    if root() is not None or alive(nodes):
        ctx.fail("tree-retained", f"{name}: the dropped tree or its nodes stay alive")
